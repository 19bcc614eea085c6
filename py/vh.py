"""Case/Harness for the Python-side harnesses (same ideas as harness/common.hpp)."""
import argparse, json, math, os, random, sys, traceback, zlib
import numpy as np


class Stop(Exception):
    """the case cannot go on (a needed result was wrong)"""


class Case:
    def __init__(self, H, rule, i):
        self.H, self.rule, self.i = H, rule, i
        self.r = random.Random("%d/%s/%d" % (H.seed, rule, i))
        self.n = 0
        self.desc = ""
        self.fp = 0

    def mix(self, x):
        self.fp = zlib.crc32(repr(x).encode(), self.fp)

    # ---- draws
    def u(self, a=-1.0, b=1.0):
        x = self.r.uniform(a, b); self.mix(x); return x

    def k(self, a, b):
        x = self.r.randint(a, b); self.mix(x); return x

    def pick(self, xs):
        i = self.k(0, len(xs) - 1); return xs[i]

    def p(self, q):
        return self.u(0, 1) < q

    def num(self):
        w = self.k(0, 9)
        if w < 6: return self.u(-3, 3)
        if w == 6: return 0.0
        if w == 7: return self.pick([1.0, -1.0, 2.0, 0.5])
        if w == 8: return self.u(-1, 1) * 10.0 ** self.k(-8, 6)
        return float(self.k(-5, 5))

    # ---- monitors
    def ok(self, key, cond, msg=""):
        key = self.rule + "/" + key
        self.H.obs[key] = self.H.obs.get(key, 0) + 1
        self.n += 1
        if not cond:
            self.H.violate(self, key, (msg() if callable(msg) else str(msg)) + (" | " + self.desc if self.desc else ""))
        return bool(cond)

    def near(self, key, got, want, tol=1e-9, scale=None):
        g = np.asarray(got, dtype=float); w = np.asarray(want, dtype=float)
        good = g.shape == w.shape
        if good and g.size:
            s = scale if scale is not None else max(1.0, float(np.max(np.abs(w))))
            with np.errstate(all="ignore"):
                e = np.max(np.abs(g - w))
            good = bool(np.all(np.isfinite(g)) and e <= tol * s)
        return self.ok(key, good, lambda: "got %s, expected %s" % (g.tolist(), w.tolist()))

    def raises(self, key, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc:
            return self.ok(key, True)
        except Exception as e:
            return self.ok(key, False, "raised %s: %s" % (type(e).__name__, e))
        return self.ok(key, False, "returned %r instead of raising" % (r,))

    def cover(self, key):
        key = self.rule + "/" + key
        self.H.cov[key] = self.H.cov.get(key, 0) + 1


class Harness:
    def __init__(self):
        ap = argparse.ArgumentParser()
        for n, t, d in (("seed", int, 1), ("scale", float, 1.0), ("shard", int, 0), ("shards", int, 1), ("skip", int, 0), ("case", int, -1)):
            ap.add_argument("--" + n, type=t, default=d)
        ap.add_argument("--rule"); ap.add_argument("--out"); ap.add_argument("--progress"); ap.add_argument("--thorough", action="store_true")
        self.a = ap.parse_args()
        self.seed = self.a.seed
        self.obs, self.cov, self.rules, self.viols, self.samples, self.fps = {}, {}, {}, {}, [], set()
        self.cases = 0
        self.rulelist = []
        self.pf = open(self.a.progress, "w") if self.a.progress else None

    def rule(self, name, n, fn):
        self.rulelist.append((name, n, fn))

    def violate(self, c, key, msg):
        v = self.viols.get(key)
        if v:
            v["count"] += 1
            return
        self.viols[key] = dict(key=key, rule=c.rule, case=c.i, count=1, msg=msg[:3000])
        if not self.a.out:
            print("VIOL %s case %d: %s" % (key, c.i, msg[:1500]))

    def run(self):
        pos = 0
        for name, n, fn in self.rulelist:
            if self.a.rule and self.a.rule != name:
                continue
            m = max(1, int(n * self.a.scale))
            for i in ([self.a.case] if self.a.case >= 0 else range(self.a.shard, m, self.a.shards)):
                pos += 1
                if pos <= self.a.skip:
                    continue
                if self.pf:
                    self.pf.seek(0); self.pf.write("%s\t%d\t%d\t          " % (name, i, pos - 1)); self.pf.flush()
                c = Case(self, name, i)
                try:
                    fn(c)
                except Stop:
                    pass
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    self.violate(c, name + "/exception", "unexpected %s: %s at %s | %s" % (
                        type(e).__name__, e, "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.line) for f in tb[-3:]), c.desc))
                self.cases += 1
                self.rules[name] = self.rules.get(name, 0) + 1
                if c.n:
                    self.fps.add(zlib.crc32(name.encode()) << 32 | c.fp)
                if len([s for s in self.samples if s.startswith(name)]) < 2:
                    self.samples.append("%s#%d %s" % (name, i, c.desc))
        d = dict(cases=self.cases, fps=sorted(self.fps), rules=self.rules, obs=self.obs, cov=self.cov, samples=self.samples, violations=list(self.viols.values()),
                 abandoned=0, inconclusive=0)
        if self.a.out:
            with open(self.a.out + ".tmp", "w") as f:
                json.dump(d, f)
            os.replace(self.a.out + ".tmp", self.a.out)
            sys.stdout.flush()
            os._exit(0)
        print("%d cases, %d oracle evaluations, %d violation keys" % (self.cases, sum(self.obs.values()), len(self.viols)))
        sys.stdout.flush()
        os._exit(1 if self.viols else 0)
