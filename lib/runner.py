import json, os, re, signal, shutil, subprocess, sys, tempfile, time, struct, traceback
import build as B
from checks import CHECKS

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


def env_for(flavor):
    e = dict(os.environ)
    sup = os.path.join(VERIF, "lib", "tsan.supp")
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:malloc_context_size=8:"
                         "detect_stack_use_after_return=1:handle_abort=1:hard_rss_limit_mb=6000:max_allocation_size_mb=4000:malloc_fill_byte=255:max_malloc_fill_size=65536")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=3:suppressions=" + sup
    e["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    e["LC_ALL"] = "C"
    return e


class Run:
    """one harness process"""

    def __init__(self, exe, flavor, args, tmp, tag):
        self.exe, self.flavor, self.args, self.tmp, self.tag = exe, flavor, list(args), tmp, tag
        self.out = os.path.join(tmp, tag + ".json")
        self.prog = os.path.join(tmp, tag + ".prog")
        self.err = os.path.join(tmp, tag + ".err")

    def start(self):
        for f in (self.out, self.out + ".fps"):
            if os.path.exists(f):
                os.unlink(f)
        self.ef = open(self.err, "wb")
        self.t0 = time.time()
        self.p = subprocess.Popen([self.exe] + self.args + ["--out", self.out, "--progress", self.prog], stdout=self.ef,
                                  stderr=subprocess.STDOUT, env=env_for(self.flavor), start_new_session=True, cwd=self.tmp)

    def wait(self, deadline):
        try:
            self.p.wait(max(0.1, deadline - time.time()))
            self.timeout = False
        except subprocess.TimeoutExpired:
            self.timeout = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.ef.close()
        self.rc = self.p.returncode
        self.data = None
        if not self.timeout and os.path.exists(self.out):
            try:
                self.data = json.load(open(self.out))
            except ValueError:
                self.data = None
        self.fps = set()
        if self.data is not None and os.path.exists(self.out + ".fps"):
            b = open(self.out + ".fps", "rb").read()
            self.fps = set(struct.unpack("<%dQ" % (len(b) // 8), b))

    def at(self):
        try:
            s = open(self.prog, "rb").read().split(b"\0")[0].decode()
            r, c = s.split("\t")
            return r, int(c)
        except Exception:
            return "startup", 0

    def tail(self, n=6000):
        try:
            b = open(self.err, "rb").read().decode("utf8", "replace")
        except OSError:
            return ""
        m = re.search(r"==\d+==ERROR|runtime error|WARNING: ThreadSanitizer|terminate called|Assertion", b)
        if m:
            return b[max(0, m.start() - 200):m.start() + n]
        return b[-n:]


def load_known(pid):
    if not os.path.exists(KNOWN):
        return {}
    d = json.load(open(KNOWN))
    return {e["key"]: e["what"] for e in d.get("known", []) if e["property"] == pid}


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vh_%s_" % pid)
    try:
        if cfg.get("runner"):
            import importlib
            res = importlib.import_module(cfg["runner"]).run(pid, tier, cfg, seed, tmp)
        else:
            res = run_cxx(pid, tier, cfg, seed, tmp)
        rc = report(pid, tier, cfg, seed, res, time.time() - t0)
    except B.BuildError as e:
        print("ERROR: build: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        B.prune()
    except Exception:
        pass
    sys.stdout.flush()
    return rc


def new_result():
    return dict(cases=0, fps=set(), rules={}, obs={}, cov={}, samples=[], violations=[], abandoned=0, inconclusive=0, runs=[], error=None)


def add_counts(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def absorb(res, data, fps, flavor, seed):
    res["cases"] += data["cases"]
    res["fps"] |= fps
    res["abandoned"] += data["abandoned"]
    res["inconclusive"] += data["inconclusive"]
    add_counts(res["rules"], data["rules"])
    add_counts(res["obs"], data["obs"])
    add_counts(res["cov"], data["cov"])
    have = {s.split("#")[0] for s in res["samples"]}
    for s in data["samples"]:
        if s.split("#")[0] not in have:
            res["samples"].append(s)
    for v in data["violations"]:
        v = dict(v, flavor=flavor, seed=seed)
        res["violations"].append(v)


def run_cxx(pid, tier, cfg, seed, tmp):
    """plan = list of (flavor, seed, scale); each is split over the cores"""
    quick = tier == "quick"
    fl = cfg.get("flavors", ["A"])
    if quick:
        plan = [(fl[0], seed, float(cfg.get("scale", 1)))]
    else:
        tf = cfg.get("thorough_flavors", fl + [f for f in ("F", "R") if f not in fl])
        ts = float(cfg.get("thorough_scale", 12))
        plan = [(tf[0], seed, ts)] + [(f, seed + 1000 * (i + 1), ts / 2) for i, f in enumerate(tf[1:])]
    shards = int(cfg.get("shards", os.cpu_count() or 4))
    limit = 260 if quick else 3000
    res = new_result()
    for flavor, sd, scale in plan:
        exe = B.build(cfg["src"], flavor, lma=cfg.get("lma", False), extra_src=[s.replace("$REPO", B.REPO) for s in cfg.get("extra_src", [])],
                      link_flags=cfg.get("link_flags", []))
        base = ["--seed", str(sd), "--scale", repr(scale)] + ([] if quick else ["--thorough"])
        runs = []
        for k in range(shards):
            r = Run(exe, flavor, base + ["--shard", str(k), "--shards", str(shards)], tmp, "%s_%d_%d" % (flavor, sd, k))
            r.start()
            runs.append(r)
        dl = time.time() + limit
        for r in runs:
            r.wait(dl)
        for r in runs:
            if not r.timeout:
                settle(res, r, flavor, sd, base, tmp)
        stuck(res, [r for r in runs if r.timeout], flavor, sd, base, tmp, limit)
    return res


def stuck(res, runs, flavor, sd, base, tmp, limit):
    """shards that ran out of time: a hang of one case, or a slow machine?"""
    ones = []
    for r in runs:
        rule, case = r.at()
        one = Run(r.exe, flavor, base + ["--rule", rule, "--case", str(case)], tmp, r.tag + "_one")
        one.start()
        ones.append((r, one, rule, case))
    dl = time.time() + 120
    hang = False
    for r, one, rule, case in ones:
        one.wait(dl)
        if one.timeout:
            hang = True
            res["violations"].append(dict(key=rule + "/hang", rule=rule, case=case, count=1, flavor=flavor, seed=sd,
                                          msg="the case did not finish within 120 s when run alone, after a first run timed out in it"))
    if hang or res["violations"]:
        return
    again = [Run(r.exe, flavor, r.args, tmp, r.tag + "_again") for r in runs]
    for r in again:
        r.start()
    dl = time.time() + limit
    for r in again:
        r.wait(dl)
        if r.timeout:
            rule, case = r.at()
            res["error"] = "workload timed out twice (inconclusive) near %s case %d" % (rule, case)
        else:
            settle(res, r, flavor, sd, base, tmp)


def settle(res, r, flavor, sd, base, tmp):
    if r.data is not None and r.rc == 0:
        absorb(res, r.data, r.fps, flavor, sd)
        return
    rule, case = r.at()
    if r.data is not None and r.rc == 66:      # ThreadSanitizer: finished, but reports were printed
        absorb(res, r.data, r.fps, flavor, sd)
        n = add_tsan(res, r, flavor, sd)
        if n == 0:
            res["error"] = "ThreadSanitizer exit status without a parsable report:\n" + r.tail()
        return
    if rule in ("startup",):
        res["error"] = "harness failed to start (rc=%s)\n%s" % (r.rc, r.tail())
        return
    txt = r.tail()
    if r.rc == -signal.SIGKILL:
        # possibly the out-of-memory killer: confirm alone
        one = Run(r.exe, flavor, base + ["--rule", rule, "--case", str(case)], tmp, r.tag + "_one")
        one.start()
        one.wait(time.time() + 120)
        if one.data is not None and one.rc == 0:
            res["error"] = "killed in %s case %d, not reproducible" % (rule, case)
            return
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion[^\n]*|terminate called[^\n]*)", txt)
    res["violations"].append(dict(key=rule + "/crash", rule=rule, case=case, count=1, flavor=flavor, seed=sd,
                                  msg="process died (status %s) in this case: %s" % (r.rc, m.group(1) if m else "no sanitizer report"),
                                  log=txt))


def add_tsan(res, r, flavor, sd):
    b = open(r.err, "rb").read().decode("utf8", "replace")
    n = 0
    seen = set()
    for rep in b.split("=================="):
        if "WARNING: ThreadSanitizer" not in rep:
            continue
        n += 1
        kind = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", rep).group(1).strip()
        fn = re.findall(r"#\d+ (.*?) (/\S+?):\d+", rep)
        kdl = [f[0].split("(")[0] for f in fn if "/orocos_kdl/" in f[1]]
        key = "tsan/" + kind.replace(" ", "_") + ":" + (kdl[0] if kdl else (fn[0][0].split("(")[0] if fn else "?"))
        if key in seen:
            continue
        seen.add(key)
        res["violations"].append(dict(key=key, rule="tsan", case=0, count=1, flavor=flavor, seed=sd, msg=rep.strip()[:400], log=rep))
    return n


def report(pid, tier, cfg, seed, res, wall):
    known = load_known(pid)
    bykey = {}
    for v in res["violations"]:
        if v["key"] in bykey:
            bykey[v["key"]]["count"] += v["count"]
        else:
            bykey[v["key"]] = dict(v)
    new = [v for k, v in sorted(bykey.items()) if k not in known]
    old = [v for k, v in sorted(bykey.items()) if k in known]
    err = res.get("error")
    nev = sum(res["obs"].values())
    minc = cfg.get("min_cases", 100)
    if not err and res["cases"] < minc and not new:
        err = "too little observed: %d cases" % res["cases"]
    if not err and res["inconclusive"] > 0.05 * max(1, res["cases"]):
        err = "%d inconclusive cases" % res["inconclusive"]
    # monitors that must have fired
    for pat in cfg.get("must_observe", []):
        if not any(re.search(pat, k) for k in list(res["obs"]) + list(res["cov"])) and not new:
            err = err or "monitor %r never evaluated" % pat
    for k, what in sorted(known.items()):
        hit = [v for v in old if v["key"] == k]
        print("KNOWN-FINDING: property=%s %s%s" % (pid, what, "" if hit else " (listed; not reached in this run)"))
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    for v in new:
        name = "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", v["key"])[:80])
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump(dict(property=pid, key=v["key"], rule=v["rule"], case=v["case"], seed=v.get("seed", seed), flavor=v.get("flavor", "A"),
                           tier=tier, scale=cfg.get("scale", 1), msg=v["msg"], occurrences=v["count"], log=v.get("log", ""),
                           how="bin/replay %s" % os.path.relpath(path, VERIF)), f, indent=1)
        print("%s: %s: %s (seed %s, case %s, %d times)" % (pid, v["key"], v["msg"][:1500], v.get("seed", seed), v["case"], v["count"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
              coverage=dict(evaluations=res["cases"], distinct_nontrivial=len(res["fps"]), rule=cfg["rule"],
                            samples=[s[:600] for s in res["samples"][:40]] or ["none"],
                            oracle_evaluations=nev, monitors=dict(sorted(res["obs"].items())),
                            situations=dict(sorted(res["cov"].items())), workloads=dict(sorted(res["rules"].items())),
                            abandoned=res["abandoned"], inconclusive=res["inconclusive"],
                            known_findings_seen=[v["key"] for v in old],
                            exhaustive=False),
              assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    ev["coverage"].update(res.get("extra", {}))
    path = os.path.join(VERIF, "evidence", pid + ".json")
    B.atomic_write(path, json.dumps(ev, indent=1).encode())
    print("%s %s: %d cases (%d distinct non-trivial), %d oracle evaluations by %d monitors, %d violation(s), %d known, %.1f s" % (
        pid, tier, res["cases"], len(res["fps"]), nev, len(res["obs"]), len(new), len(old), wall))
    if new:
        return 1
    if err:
        print("ERROR: " + err)
        return 3
    return 0
