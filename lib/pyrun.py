"""Build the PyKDL extension module (with AddressSanitizer) from /repo's working
tree and run a Python harness (py/<src>) against it, in shards."""
import concurrent.futures as cf, glob, json, os, re, shutil, signal, struct, subprocess, sys, time
import build as B

INTERP = "python3-vt"          # Python 3.12 with numpy; the module is built for the same interpreter version


def patched_pybind():
    """pybind11 2.11 predates numpy 2: take a slot and a struct layout moved there from pybind11 2.12, so that the numpy of this
    sandbox can be used for the Eigen arguments.  Nothing of the code under test is touched."""
    src, d = "/usr/include/pybind11", os.path.join(B.BUILD, "incpy", "pybind11")
    if not os.path.exists(src):
        return
    txt = open(src + "/numpy.h").read()
    if "API_PyArray_CopyInto = 82" not in txt:
        return
    txt = txt.replace("API_PyArray_CopyInto = 82", "API_PyArray_CopyInto = 50")
    txt = txt.replace("    int type_num;\n    int elsize;\n    int alignment;", "    int type_num;\n    unsigned long long flags2;\n    ssize_t elsize;\n    ssize_t alignment;")
    os.makedirs(d + "/..", exist_ok=True)
    if os.path.exists(d + "/numpy.h") and open(d + "/numpy.h").read() == txt:
        return
    tmp = d + ".tmp%d" % os.getpid()
    shutil.copytree(src, tmp)
    with open(tmp + "/numpy.h", "w") as f:
        f.write(txt)
    shutil.rmtree(d, ignore_errors=True)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def build_module(into):
    """build, and leave a link to it as <into>/PyKDL.so"""
    inc = B.prepare()
    k = os.path.join(B.BUILD, "incpy", "kdl")
    os.makedirs(k, exist_ok=True)
    if not os.path.islink(os.path.join(k, "config.h")):
        try:
            os.symlink(os.path.join(B.BUILD, "inc", "config.h"), os.path.join(k, "config.h"))
        except FileExistsError:
            pass
    patched_pybind()
    inc = ["-I" + os.path.join(B.BUILD, "incpy")] + inc
    pinc = subprocess.run([INTERP, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    if not os.path.exists(os.path.join(pinc, "Python.h")):
        pinc = "/usr/include/python3.12"
    flags = ["-g1", "-O1", "-fPIC", "-fno-omit-frame-pointer", "-fvisibility=hidden", "-fsanitize=address", "-w", "-std=gnu++17",
             "-D_GLIBCXX_ASSERTIONS"] + inc
    pflags = flags + ["-isystem", pinc]
    pk = os.path.join(B.REPO, "python_orocos_kdl", "PyKDL")
    hh = B.sha(*[h + ":" + B.sha(B.read(h)) for h in B.headers()], B.read(os.path.join(B.BUILD, "inc", "config.h")))
    pn = os.path.join(B.BUILD, "incpy", "pybind11", "numpy.h")
    ph = B.sha(B.read(pn) if os.path.exists(pn) else b"", *[B.sha(B.read(h)) for h in sorted(glob.glob(pk + "/*.h*"))])
    base = B.sha("g++", " ".join(flags), hh)
    jobs = [(s, B.sha(base, ph, pinc, s, B.read(s)), pflags) for s in sorted(glob.glob(pk + "/*.cpp"), key=lambda s: -os.path.getsize(s))]
    jobs += [(s, B.sha(base, s, B.read(s)), flags) for s in sorted(B.lib_sources(), key=lambda s: (-("lma" in s), -os.path.getsize(s)))]
    so = os.path.join(B.BUILD, "exe", B.sha(*[k for _, k, _ in jobs]) + ".pykdl.so")
    if os.path.exists(so):
        os.utime(so)
    else:
        os.makedirs(os.path.dirname(so), exist_ok=True)
        with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))) as ex:
            objs = [f.result() for f in [ex.submit(B.compile_one, "g++", fl, s, k) for s, k, fl in jobs]]
        tmp = so + ".tmp%d" % os.getpid()
        p = subprocess.run(["g++", "-shared", "-fsanitize=address", "-o", tmp] + objs + ["-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise B.BuildError("link failed\n" + p.stdout.decode("utf8", "replace")[-4000:])
        os.replace(tmp, so)
    dst = os.path.join(into, "PyKDL.so")
    if not os.path.exists(dst):
        os.symlink(so, dst)
    return into


def env_for(d):
    e = dict(os.environ)
    asan = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    stdc = subprocess.run(["g++", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    e["LD_PRELOAD"] = os.path.realpath(asan) + " " + os.path.realpath(stdc)
    e["PYTHONMALLOC"] = "malloc"
    e["PYTHONPATH"] = d
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:malloc_context_size=6:"
                         "handle_abort=1:max_allocation_size_mb=4000:detect_odr_violation=0:quarantine_size_mb=64")
    return e


def command(cfg, seed, scale, tier, *more):
    a = [INTERP, os.path.join(B.VERIF, "py", cfg["src"]), "--seed", str(seed), "--scale", repr(scale)] + [str(m) for m in more]
    return a + (["--thorough"] if tier == "thorough" else [])


def one(cfg, d, seed, scale, tier, rule, case, limit=120):
    """run a single case; -> (returncode or None on timeout, text)"""
    try:
        p = subprocess.run(command(cfg, seed, scale, tier, "--rule", rule, "--case", case), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=env_for(d), timeout=limit)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace")


def run(pid, tier, cfg, seed, tmp):
    import runner
    d = build_module(tmp)
    res = runner.new_result()
    quick = tier == "quick"
    scale = float(cfg.get("scale", 1)) if quick else float(cfg.get("thorough_scale", 12))
    shards = int(cfg.get("shards", os.cpu_count() or 4))
    limit = time.time() + (300 if quick else 3000)
    env = env_for(d)
    work = [(k, 0) for k in range(shards)]
    crashes = 0
    live = []
    for k in range(shards):
        live.append(start(cfg, env, seed, scale, tier, tmp, k, shards, 0))
    while live:
        r = live.pop(0)
        try:
            r["p"].wait(max(0.1, limit - time.time()))
            late = False
        except subprocess.TimeoutExpired:
            late = True
        try:
            os.killpg(r["p"].pid, signal.SIGKILL)
        except OSError:
            pass
        r["p"].wait()
        r["ef"].close()
        if not late and r["p"].returncode == 0 and os.path.exists(r["out"]):
            data = json.load(open(r["out"]))
            runner.absorb(res, data, set(data["fps"]), "Y", seed)
            continue
        try:
            rule, case, done = open(r["prog"]).read().split("\t")[:3]
            case, done = int(case), int(done)
        except (OSError, ValueError):
            res["error"] = "harness failed to start: " + open(r["err"], errors="replace").read()[-3000:]
            continue
        rc, txt = one(cfg, d, seed, scale, tier, rule, case)
        if late:
            if rc is None:
                res["violations"].append(viol(rule, case, seed, "hang", "the case did not finish within 120 s when run alone, after a first run timed out in it", txt))
            else:
                res["error"] = "workload timed out (inconclusive) near %s case %d" % (rule, case)
            continue
        log = open(r["err"], errors="replace").read()
        if rc == 2:            # harness error inside the case
            res["error"] = "harness error in %s case %d\n%s" % (rule, case, txt[-3000:])
            continue
        if r["p"].returncode == -signal.SIGKILL and rc in (0, 1):
            res["error"] = "killed in %s case %d, not reproducible" % (rule, case)
            continue
        if r["p"].returncode == 2:
            res["error"] = "harness error in %s case %d\n%s" % (rule, case, log[-3000:])
            continue
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|Assertion[^\n]*|terminate called[^\n]*|Fatal Python error[^\n]*)", log)
        i = log.find("ERROR: AddressSanitizer")
        res["violations"].append(viol(rule, case, seed, "crash", "the interpreter died (status %s) in this case: %s" % (
            r["p"].returncode, m.group(1) if m else "no sanitizer report"), log[max(0, i - 100):][:6000]))
        crashes += 1
        if crashes < 6:     # go on after the crashing case
            live.append(start(cfg, env, seed, scale, tier, tmp, r["k"], shards, done + 1))
    return res


def viol(rule, case, seed, kind, msg, log):
    return dict(key=rule + "/" + kind, rule=rule, case=case, count=1, flavor="Y", seed=seed, msg=msg, log=log)


def start(cfg, env, seed, scale, tier, tmp, k, shards, skip):
    t = os.path.join(tmp, "py_%d_%d" % (k, skip))
    r = dict(k=k, out=t + ".json", prog=t + ".prog", err=t + ".err")
    r["ef"] = open(r["err"], "wb")
    r["p"] = subprocess.Popen(command(cfg, seed, scale, tier, "--shard", k, "--shards", shards, "--skip", skip, "--out", r["out"], "--progress", r["prog"]),
                              stdout=r["ef"], stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=tmp)
    return r


def replay(cfg, r):
    import tempfile
    with tempfile.TemporaryDirectory() as tmp:
        rc, txt = one(cfg, build_module(tmp), r["seed"], 1000000, r["tier"], r["rule"], r["case"])
    print(txt)
    return 1 if rc is None else rc
