"""Compile the library under test (from /repo's working tree) and the harnesses.

Object files are cached under /verif/build keyed by the hash of the compiler
flags, of every header and of the translation unit itself, so an edit anywhere
in the library is always seen.
"""
import hashlib, os, subprocess, sys, tempfile, concurrent.futures as cf, glob, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KDL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "orocos_kdl", "src")
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w", "-std=gnu++17"]
FLAVORS = {
    # memory errors + the cheap part of UBSan; asserts (incl. Eigen's bounds asserts) on
    "A": ("clang++", ["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,bool,enum,float-cast-overflow,bounds,return,unreachable,shift,integer-divide-by-zero",
                      "-fno-sanitize-recover=all"]),
    # everything in ASan + UBSan
    "F": ("clang++", ["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "T": ("clang++", ["-O1", "-fsanitize=thread"]),
    # how the library is shipped: optimised, asserts off
    "R": ("g++", ["-O2", "-DNDEBUG"]),
    "P": ("g++", ["-O2", "-DNDEBUG", "-fPIC"]),
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers():
    hs = []
    for root, _, files in os.walk(SRC):
        for f in files:
            if f.endswith((".hpp", ".h", ".inl", ".in", ".hh")):
                hs.append(os.path.join(root, f))
    return sorted(hs)


def lib_sources():
    out = []
    for pat in ("*.cpp", "*.cxx", "*.cc", "utilities/*.cpp", "utilities/*.cxx", "utilities/*.cc"):
        out += glob.glob(os.path.join(SRC, pat))
    return sorted(out)


def prepare():
    """generated config.h and the <kdl/...> include spelling"""
    inc = os.path.join(BUILD, "inc")
    os.makedirs(inc, exist_ok=True)
    txt = read(os.path.join(SRC, "config.h.in")).decode("utf8", "replace")
    import re
    txt = re.sub(r"@[A-Z_]*VERSION@", "1.5.1", txt) if "@KDL_VERSION@" in txt else txt
    txt = re.sub(r"@\w+@", "1", txt)
    txt = re.sub(r"#cmakedefine HAVE_STL_CONTAINER_INCOMPLETE_TYPES", "#define HAVE_STL_CONTAINER_INCOMPLETE_TYPES", txt)
    txt = re.sub(r"#cmakedefine (\w+)", r"/* #undef \1 */", txt)
    cfg = os.path.join(inc, "config.h")
    if not os.path.exists(cfg) or read(cfg).decode() != txt:
        atomic_write(cfg, txt.encode())
    link = os.path.join(inc, "kdl")
    if not (os.path.islink(link) and os.readlink(link) == SRC):
        tmp = link + ".%d" % os.getpid()
        os.symlink(SRC, tmp)
        os.replace(tmp, link)
    return ["-I" + SRC, "-I" + inc, "-isystem", "/usr/include/eigen3"]


def atomic_write(path, data):
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os.chmod(tmp, 0o644)
    os.replace(tmp, path)


def compile_one(cxx, flags, src, key):
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d" % os.getpid()
    cmd = [cxx] + flags + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-4000:]))
    os.replace(tmp, obj)
    return obj


def build(harness, flavor="A", lma=True, extra_src=(), extra_flags=(), shared=None, link_flags=()):
    """-> path of the executable (or shared object when `shared`)"""
    os.makedirs(BUILD, exist_ok=True)
    cxx, fl = FLAVORS[flavor]
    inc = prepare()
    flags = COMMON + fl + list(extra_flags) + inc + ["-I" + HARNESS]
    hh = sha(*[h + ":" + sha(read(h)) for h in headers()], read(os.path.join(BUILD, "inc", "config.h")))
    hhh = sha(*[sha(read(h)) for h in sorted(glob.glob(HARNESS + "/*.hpp"))])
    base = sha(cxx, " ".join(flags), hh)
    jobs = []
    main = os.path.join(HARNESS, harness)
    jobs.append((main, sha(base, hhh, main, read(main))))
    libs = lib_sources()
    skip = []
    if not lma:
        skip = [s for s in libs if s.endswith("chainiksolverpos_lma.cpp")]
    # slowest units first
    big = sorted([s for s in libs if s not in skip], key=lambda s: (-("lma" in s), -os.path.getsize(s)))
    for s in big + list(extra_src):
        jobs.append((s, sha(base, s, read(s))))
    exkey = sha(*[k for _, k in jobs], *[sha(base, s, read(s)) for s in skip], " ".join(link_flags), str(shared))
    exe = os.path.join(BUILD, "exe", exkey + "." + os.path.splitext(harness)[0])
    if os.path.exists(exe):
        try:
            os.utime(exe)
        except OSError:
            pass
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))) as ex:
        fut = [ex.submit(compile_one, cxx, flags, s, k) for s, k in jobs]
        objs = [f.result() for f in fut]

    def link(objs):
        tmp = exe + ".tmp%d" % os.getpid()
        mode = ["-shared"] if shared else []
        lib = tmp + ".a"
        subprocess.run(["ar", "rcs", lib] + objs[1:], check=True)
        lk = [cxx] + [f for f in flags if not f.startswith("-I")] + mode + [objs[0]]
        lk += (["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] if shared else [lib])
        p = subprocess.run(lk + ["-o", tmp, "-lpthread", "-ldl"] + list(link_flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(lib)
        if p.returncode == 0:
            os.replace(tmp, exe)
        return p

    p = link(objs)
    if p.returncode and skip:
        objs += [compile_one(cxx, flags, s, sha(base, s, read(s))) for s in skip]
        p = link(objs)
    if p.returncode:
        raise BuildError("link failed\n" + p.stdout.decode("utf8", "replace")[-4000:])
    return exe


def prune(limit_mb=3000):
    files = []
    for d in ("obj", "exe"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                files.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    tot = sum(f[1] for f in files)
    for m, sz, f in sorted(files):
        if tot <= limit_mb * 1e6:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= sz
