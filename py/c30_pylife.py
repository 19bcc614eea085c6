"""No Python program using PyKDL can make it read freed memory or run out of bounds.
The module is built with AddressSanitizer; the oracle is ASan plus: an object that
is still reachable goes on giving the answers it gave when everything was alive."""
import copy, gc, inspect, math, os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np
import PyKDL as K
from vh import Harness, Stop
from kdlmodel import *

H = Harness()


def chain(c, n=None):
    n = n or c.k(1, 7); ch = K.Chain()
    for i in range(n):
        t = c.pick([K.Joint.RotX, K.Joint.RotY, K.Joint.RotZ, K.Joint.TransX]) if i else K.Joint.RotZ
        ch.addSegment(K.Segment("s%d" % i, K.Joint("j%d" % i, t), KF(fm(rrot(c), [c.u(), c.u(), c.u()])),
                                K.RigidBodyInertia(c.u(0.1, 2), KV([c.u(), c.u(), c.u()]), K.RotationalInertia(1, 1, 1))))
    return ch


def churn(c):
    """reuse freed memory, so that a dangling pointer reads something else"""
    gc.collect()
    x = [chain(c, c.k(1, 4)) for _ in range(3)] + [K.JntArray(c.k(1, 8)) for _ in range(5)] + [K.Frame() for _ in range(10)]
    return len(x)


# ------------------------------------------------------------------ solvers outlive what they were built from
def vals(*a): return tuple(float(x) for o in a for x in np.ravel(o))


def probe_fk(s, n): q = KJ(np.linspace(0.1, 1, n)); F = K.Frame(); r = s.JntToCart(q, F); return r, vals(frm(F))
def probe_fkv(s, n): q = K.JntArrayVel(KJ(np.linspace(0.1, 1, n)), KJ(np.linspace(1, 2, n))); F = K.FrameVel(); r = s.JntToCart(q, F); return r, vals(frm(F.GetFrame()), tw(F.GetTwist()))
def probe_jac(s, n): J = K.Jacobian(n); r = s.JntToJac(KJ(np.linspace(0.1, 1, n)), J); return r, vals(mat(J))
def probe_jd(s, n): J = K.Jacobian(n); r = s.JntToJacDot(K.JntArrayVel(KJ(np.linspace(0.1, 1, n)), KJ(np.linspace(1, 2, n))), J); return r, vals(mat(J))
def probe_ikv(s, n): o = K.JntArray(n); r = s.CartToJnt(KJ(np.linspace(0.1, 1, n)), KT([.1, .2, .3, .1, 0, .2]), o); return r, vals(jnt(o))
def probe_ikp(s, n): o = K.JntArray(n); r = s.CartToJnt(KJ(np.linspace(0.1, 1, n)), KF(fm(rx(.3), [.1, .2, .3])), o); return r, vals(jnt(o))
def probe_dyn(s, n):
    h, g, q = K.JntSpaceInertiaMatrix(n), K.JntArray(n), KJ(np.linspace(0.1, 1, n)); co = K.JntArray(n)
    return (s.JntToMass(q, h), s.JntToGravity(q, g), s.JntToCoriolis(q, KJ(np.ones(n)), co)), vals(mat(h), jnt(g), jnt(co))
def mk_rne(c, ch):
    return K.ChainIdSolver_RNE(ch, KV([0, 0, -9.8]))


def mk_nso(ch):
    s = K.ChainIkSolverVel_pinv_nso(ch); n = ch.getNrOfJoints(); s.setWeights(KJ(np.linspace(1, 2, n))); s.setOptPos(KJ(np.linspace(-1, 1, n)))
    return s


def same(a, b):
    """up to rounding: the alignment of the operands decides how sums are vectorised"""
    (ra, va), (rb, vb) = a, b
    if any(abs(x) > 1e5 for x in vb): return len(va) == len(vb)        # next to a singularity nothing is left of the digits
    return ra == rb and len(va) == len(vb) and all(x == y or (math.isnan(x) and math.isnan(y)) or abs(x - y) <= 1e-7 * (1 + max(abs(x), abs(y))) for x, y in zip(va, vb))


SOLVERS = {
    "fkpos": (lambda c, ch: K.ChainFkSolverPos_recursive(ch), probe_fk),
    "fkvel": (lambda c, ch: K.ChainFkSolverVel_recursive(ch), probe_fkv),
    "jac": (lambda c, ch: K.ChainJntToJacSolver(ch), probe_jac),
    "jacdot": (lambda c, ch: K.ChainJntToJacDotSolver(ch), probe_jd),
    "pinv": (lambda c, ch: K.ChainIkSolverVel_pinv(ch), probe_ikv),
    "wdls": (lambda c, ch: K.ChainIkSolverVel_wdls(ch), probe_ikv),
    "nso": (lambda c, ch: mk_nso(ch), probe_ikv),
    "givens": (lambda c, ch: K.ChainIkSolverVel_pinv_givens(ch), probe_ikv),
    "lma": (lambda c, ch: K.ChainIkSolverPos_LMA(ch), probe_ikp),
    "lmaL": (lambda c, ch: K.ChainIkSolverPos_LMA(ch, A([1, 1, 1, .1, .1, .1]).reshape(6, 1)), probe_ikp),
    "nr": (lambda c, ch: K.ChainIkSolverPos_NR(ch, K.ChainFkSolverPos_recursive(ch), K.ChainIkSolverVel_pinv(ch), 20, 1e-5), probe_ikp),
    "nrjl": (lambda c, ch: K.ChainIkSolverPos_NR_JL(ch, KJ(-3 * np.ones(ch.getNrOfJoints())), KJ(3 * np.ones(ch.getNrOfJoints())), K.ChainFkSolverPos_recursive(ch),
                                                     K.ChainIkSolverVel_wdls(ch), 20, 1e-5), probe_ikp),
    "dyn": (lambda c, ch: K.ChainDynParam(ch, KV([0, 0, -9.8])), probe_dyn),
    "rne": (mk_rne, None),
}


def fresh_solver_probe(kind, segs):
    """the same solver on an equal chain, everything kept alive"""
    ch = K.Chain()
    for s in segs: ch.addSegment(s)
    s = SOLVERS[kind][0](None, ch)
    return probe(kind, s, ch.getNrOfJoints(), ch.getNrOfSegments())


def probe(kind, s, n, ns):
    if kind == "rne":
        o = K.JntArray(n); r = s.CartToJnt(KJ(np.linspace(.1, 1, n)), KJ(np.ones(n)), KJ(np.ones(n)), [K.Wrench() for _ in range(ns)], o); return r, vals(jnt(o))
    return SOLVERS[kind][1](s, n)


def r_solvers(c):
    kind = c.pick(sorted(SOLVERS)); c.cover(kind); ch = chain(c); n, ns = ch.getNrOfJoints(), ch.getNrOfSegments(); segs = [ch.getSegment(i) for i in range(ns)]
    how = c.k(0, 3); c.desc = "%s on a chain of %d joints, way %d" % (kind, n, how)
    want = fresh_solver_probe(kind, segs)
    if how == 0:
        s = SOLVERS[kind][0](c, ch); c.ok("alive-" + kind, same(probe(kind, s, n, ns), want), "the first answer differs from that of another solver on an equal chain"); del ch
    elif how == 1:
        s = SOLVERS[kind][0](c, K.Chain(ch))          # built from a temporary
        del ch
    elif how == 2:
        t = K.Tree("r"); t.addChain(ch, "r"); s = SOLVERS[kind][0](c, t.getChain("r", "s%d" % (ns - 1))); del t, ch
    else:
        def make():
            local = K.Chain(); [local.addSegment(x) for x in segs]
            return SOLVERS[kind][0](c, local)
        s = make(); del ch
    churn(c)
    for _ in range(2):
        got = probe(kind, s, n, ns)
        c.ok("outlives-" + kind, same(got, want), "after its chain (and inner solvers) went out of scope the solver answers %s instead of %s" % (str(got)[:300], str(want)[:300]))
        churn(c)
    if kind != "dyn": c.ok("error", isinstance(s.strError(s.getError()), str)); s.updateInternalDataStructures()
    keep = probe(kind, s, n, ns); c.ok("updated-" + kind, same(keep, want), "after updateInternalDataStructures the solver answers differently")
    del s; churn(c)


def r_shared(c):
    """sub-solvers shared by several position solvers, deleted in any order; the chain grows in between"""
    ch = chain(c, c.k(2, 6)); n = ch.getNrOfJoints(); fk = K.ChainFkSolverPos_recursive(ch); ik = K.ChainIkSolverVel_pinv(ch); lo, hi = KJ(-3 * np.ones(n)), KJ(3 * np.ones(n))
    pool = {"ch": ch, "fk": fk, "ik": ik, "lo": lo, "hi": hi, "a": K.ChainIkSolverPos_NR(ch, fk, ik, 30, 1e-6), "b": K.ChainIkSolverPos_NR_JL(ch, lo, hi, fk, ik, 30, 1e-6), "c": K.ChainIkSolverPos_NR(chain=ch, iksolver=ik, fksolver=fk)}
    want = {k: probe_ikp(pool[k], n) for k in "abc"}; wfk = probe_fk(fk, n)
    del ch, fk, ik, lo, hi
    order = []
    for _ in range(c.k(4, 12)):
        w = c.k(0, 2)
        if w == 0 and pool:
            k = c.pick(sorted(pool)); order.append("del " + k); pool.pop(k); churn(c)
        elif w == 1:
            for k in sorted(pool):
                if k in "abc": c.ok("nr-" + k, same(probe_ikp(pool[k], n), want[k]), "after %s" % order)
                elif k == "fk": c.ok("fk", same(probe_fk(pool[k], n), wfk), "after %s" % order)
        else:
            churn(c)
    c.desc = "; ".join(order)


# ------------------------------------------------------------------ members outlive their owners
def owner(c):
    w = c.k(0, 8); v = lambda: KV(rvec(c))
    if w == 0: f = KF(rfrm(c)); return f, [("p", lambda o: o.p), ("M", lambda o: o.M)]
    if w == 1: return KT(rtw(c)), [("vel", lambda o: o.vel), ("rot", lambda o: o.rot)]
    if w == 2: return KW(rtw(c)), [("force", lambda o: o.force), ("torque", lambda o: o.torque)]
    if w == 3: return K.FrameVel(K.RotationVel(KR(rrot(c)), v()), K.VectorVel(v(), v())), [("M.R", lambda o: o.M.R), ("M.w", lambda o: o.M.w), ("p.p", lambda o: o.p.p), ("p.v", lambda o: o.p.v), ("M", lambda o: o.M.w), ("p", lambda o: o.p.v)]
    if w == 4: return K.TwistVel(K.VectorVel(v(), v()), K.VectorVel(v(), v())), [("vel.p", lambda o: o.vel.p), ("rot.v", lambda o: o.rot.v)]
    if w == 5: n = c.k(1, 6); return K.JntArrayVel(KJ([c.num() for _ in range(n)]), KJ([c.num() for _ in range(n)])), [("q", lambda o: o.q), ("qdot", lambda o: o.qdot)]
    if w == 6: return K.VectorVel(v(), v()), [("p", lambda o: o.p), ("v", lambda o: o.v)]
    if w == 7: return K.RotationVel(KR(rrot(c)), v()), [("R", lambda o: o.R), ("w", lambda o: o.w)]
    j = K.Jacobian(3); return j, [("getColumn", lambda o: o.getColumn(1)), ("getColumn.vel", lambda o: o.getColumn(2).vel)]


def numbers(o):
    t = type(o).__name__
    if t == "Vector": return vals(vec(o))
    if t == "Rotation": return vals(rot(o))
    if t in ("Twist", "Wrench"): return vals(tw(o))
    if t == "JntArray": return vals(jnt(o))
    raise TypeError(t)


def r_members(c):
    o, ms = owner(c); nm, get = c.pick(ms); c.desc = "%s.%s" % (type(o).__name__, nm); c.cover(c.desc)
    m = get(o); before = numbers(m)
    w = c.k(0, 2)
    if w == 1: box = [o]; del o; box.clear()
    elif w == 2:
        m2 = get(o); del o; churn(c); c.ok("second", numbers(m2) == before); del m2
    else: del o
    churn(c)
    c.ok("outlives-" + nm, numbers(m) == before, "the member changed after its owner went out of scope: %s, was %s" % (numbers(m), before))
    if type(m).__name__ == "Vector":
        m[1] = 5.0; m += KV([1, 1, 1]); c.ok("write-" + nm, numbers(m)[1] == 6.0)
    elif type(m).__name__ == "JntArray":
        m.resize(c.k(0, 12)); c.ok("resized", m.rows() >= 0); churn(c)
        if m.rows(): m[m.rows() - 1] = 3.0; c.ok("written", m[m.rows() - 1] == 3.0)
    e = [K.Chain().__repr__(), repr(m), str(type(m))]; c.ok("repr", len(e) == 3)


def r_copies(c):
    """what a container hands out or takes in belongs to the caller, whatever happens to the container"""
    ch = chain(c); n = ch.getNrOfSegments(); i = c.k(0, n - 1); s = ch.getSegment(i); name = s.getName(); j = s.getJoint(); F = s.getFrameToTip(); I = s.getInertia(); m0 = I.getMass(); f0 = vals(frm(F)); p0 = vals(frm(s.pose(0.4)))
    c.desc = "segment %d of %d" % (i, n)
    for _ in range(c.k(0, 20)): ch.addSegment(K.Segment("x", K.Joint(K.Joint.RotX)))      # reallocates the storage of the chain
    churn(c); c.ok("segment-grown", s.getName() == name and vals(frm(s.pose(0.4))) == p0)
    del ch; churn(c); c.ok("segment", s.getName() == name and vals(frm(s.pose(0.4))) == p0); del s; churn(c); c.ok("joint", j.getName() == "j%d" % i and len(j.getTypeName()) > 0); c.ok("frame", vals(frm(F)) == f0); c.ok("inertia", I.getMass() == m0); ri, cog = I.getRotationalInertia(), I.getCOG(); x = ri[4]; y = cog.x(); del I; churn(c); c.ok("rotinertia", ri[4] == x and cog.x() == y)
    t = K.Tree(); t.addSegment(K.Segment("a", K.Joint(K.Joint.RotX)), "root"); t.addSegment(K.Segment("b", K.Joint(K.Joint.RotY)), "a"); sub = t.getChain("root", "b"); del t; churn(c); c.ok("getChain", sub.getNrOfJoints() == 2 and sub.getSegment(1).getName() == "b")
    a = K.Chain(); a.addSegment(K.Segment("q", K.Joint(K.Joint.RotX)))
    for _ in range(3): a.addChain(a) if c.p(0.5) and a.getNrOfSegments() < 50 else a.addChain(K.Chain(a))
    c.ok("addChain-self", a.getNrOfSegments() == 8 and a.getNrOfJoints() == 8 and all(a.getSegment(k).getName() == "q" for k in range(8)), "%d segments" % a.getNrOfSegments())
    q = K.JntArray(5); v = K.JntArrayVel(q); w = K.JntArrayVel(q, q); q[0] = 3; del q; churn(c); c.ok("qv-own", v.q[0] == 0 and w.q[0] == 0 and w.qdot[0] == 0)
    s4 = K.ChainIkSolverVel_pinv_nso(chain(c, 4)); s4.setWeights(K.JntArray(4)); s4.setOptPos(K.JntArray(4)); wts = s4.getWeights(); op = s4.getOptPos(); del s4; churn(c); c.ok("nso-getters", wts.rows() == 4 and op.rows() == 4)


# ------------------------------------------------------------------ indexing
def ri(c):
    w = c.k(0, 5)
    if w < 3: return c.k(-3, 12)
    return c.pick([-1, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, -2 ** 63, 2 ** 70, 7, 100000])


BADI = [None, "0", 1.5, (1,), (1, 2, 3), [0], {}, object(), float("nan"), b"\0"]


def r_index(c):
    n = c.k(0, 7); ch = chain(c, n) if n else K.Chain(); kinds = [
        ("Vector", KV(rvec(c)), (3,)), ("Twist", KT(rtw(c)), (6,)), ("Wrench", KW(rtw(c)), (6,)), ("Rotation", KR(rrot(c)), (3, 3)), ("Frame", KF(rfrm(c)), (3, 4)), ("RotationalInertia", K.RotationalInertia(1, 2, 3, 4, 5, 6), (9,)),
        ("JntArray", KJ([c.num() for _ in range(n)]), (n,)), ("Jacobian", K.Jacobian(n), (6, n)), ("JntSpaceInertiaMatrix", K.JntSpaceInertiaMatrix(n), (n, n))]
    nm, o, shape = c.pick(kinds); c.desc = "%s %s" % (nm, shape); c.cover(nm)
    def everything(): return tuple(o[i] for i in range(shape[0])) if len(shape) == 1 else tuple(o[i, j] for i in range(shape[0]) for j in range(shape[1]))
    for _ in range(12):
        before = everything()
        bad = c.p(0.2); idx = c.pick(BADI) if bad else (ri(c) if len(shape) == 1 else (ri(c), ri(c)))
        if len(shape) == 2 and not bad and c.p(0.3): idx = (c.k(0, shape[0] - 1) if shape[0] else 0, ri(c))
        if bad and len(shape) == 2 and isinstance(idx, tuple) and len(idx) == 2: continue
        inside = not bad and all(0 <= i < s for i, s in zip(idx if len(shape) == 2 else (idx,), shape))
        write = c.p(0.5)
        try:
            if write: o[idx] = 7.25
            else: r = o[idx]
            good = True
        except (IndexError, TypeError, OverflowError): good = False
        c.ok(nm, good == inside, "index %r of a %s %s was %s" % (idx, nm, shape, "accepted" if good else "rejected"))
        after = everything()
        if inside and write:
            k = idx if len(shape) == 1 else idx[0] * shape[1] + idx[1]; c.ok(nm + "-write", after[k] == 7.25 and after[:k] == before[:k] and after[k + 1:] == before[k + 1:])
        else: c.ok(nm + "-unchanged", after == before)
    # elements taken by number
    J = K.Jacobian(n)
    for _ in range(6):
        i = ri(c)
        for nm, fn, size in (("getSegment", lambda: ch.getSegment(i), n), ("getColumn", lambda: J.getColumn(i), n), ("setColumn", lambda: J.setColumn(i, KT(rtw(c))), n)):
            try: fn(); good = True
            except (IndexError, TypeError, OverflowError): good = False
            c.ok(nm, good == (0 <= i < size), "%s(%d) with %d elements was %s" % (nm, i, size, "accepted" if good else "rejected"))
    c.ok("iter", [x for x in KV([1, 2, 3])] == [1, 2, 3]); c.ok("list", len(list(KJ([1.0] * n))) == n)


# ------------------------------------------------------------------ any call with any arguments
SKIP = {"Add", "Subtract", "Multiply", "Divide", "MultiplyJacobian"}     # operands of different sizes are a stated precondition of the C++ functions


def callables():
    out = []
    for nm in sorted(dir(K)):
        o = getattr(K, nm)
        if nm.startswith("__") or nm in SKIP: continue
        if inspect.isclass(o):
            if nm != "JntArrayVel": out.append(nm)
            for m in sorted(vars(o)):
                if m in ("__init__", "__new__", "__members__", "__entries", "__dict__", "__weakref__", "__setstate__", "__class__", "__doc__", "__module__", "__reduce__", "__reduce_ex__"): continue
                if callable(getattr(o, m, None)): out.append(nm + "." + m)
        elif callable(o): out.append(nm)
    return out


CALLS = callables()


def pool(c):
    n = c.k(1, 6); ch = chain(c, n); t = K.Tree(); t.addChain(ch, "root")
    ps = [ch, t, ch.getSegment(0), ch.getSegment(0).getJoint(), ch.getSegment(0).getInertia(), KV(rvec(c)), KR(rrot(c)), KF(rfrm(c)), KT(rtw(c)), KW(rtw(c)), KJ([c.num() for _ in range(n)]), K.JntArray(n + 1), K.JntArrayVel(n), K.Jacobian(n), K.Jacobian(n + 2),
          K.JntSpaceInertiaMatrix(n), K.doubleVel(1, 2), K.VectorVel(KV(rvec(c)), KV(rvec(c))), K.TwistVel(), K.RotationVel(), K.FrameVel(), K.RotationalInertia(1, 1, 1)]
    for k in sorted(SOLVERS): ps.append(SOLVERS[k][0](c, ch))
    return ps


JUNK = [None, "s0", "", "root", 0, 1, 2, -1, 3, True, 0.0, 1.5, -2.5, float("nan"), float("inf"), [], [1.0], [True, False], (0, 1), (1, 1), {}, b"x", object, np.eye(3), np.zeros(6), np.eye(6), np.zeros((6, 1))]


def r_calls(c):
    ps = pool(c); log = []; nok = 0
    for _ in range(60):
        name = c.pick(CALLS); parts = name.split("."); cls = getattr(K, parts[0])
        args = []
        if len(parts) == 2 and not isinstance(inspect.getattr_static(cls, parts[1]), staticmethod):
            selfs = [p for p in ps if isinstance(p, cls)]
            args.append(c.pick(selfs) if selfs and not c.p(0.03) else c.pick(ps + [x for x in JUNK if x is not None]))       # pybind11 itself takes None for self as a null pointer
        f = getattr(cls, parts[1]) if len(parts) == 2 else cls
        want = arity(f, c)
        for types in want: args.append(choose(c, ps, types))
        log.append(name)
        H.cov["calls/" + name] = H.cov.get("calls/" + name, 0) + 1
        try:
            r = f(*args); nok += 1
            if r is not None and type(r).__module__ == "PyKDL" and len(ps) < 80: ps.append(r)
            if c.p(0.05): ps.pop(c.k(0, len(ps) - 1)); gc.collect()
        except (TypeError, IndexError, ValueError, RuntimeError, OverflowError, MemoryError, AttributeError, KeyError): pass
        c.ok("raises", True)
    c.desc = "%d calls, %d returned: %s ..." % (len(log), nok, ", ".join(log[:8])); c.cover("returned")
    for p in ps:
        if type(p).__name__ in ("Chain", "Tree"): c.ok("still-there", p.getNrOfJoints() >= 0)
        elif type(p).__name__ in ("Vector", "Rotation", "Twist", "Wrench"): numbers(p)
        repr(p)


def arity(f, c):
    """argument types of one of the overloads, from the signature pybind writes into the docstring"""
    import re
    doc = (f.__doc__ or "")
    if inspect.isclass(f): doc = (f.__init__.__doc__ or "")
    sigs = [s for s in re.findall(r"\((.*?)\) ?->", doc.replace("\n", " ")) if "*args" not in s]
    if not sigs: return [None] * c.k(0, 2)
    s = c.pick(sigs); ps = [a.strip() for a in s.split(",")] if s else []
    if ps and (ps[0].startswith("self") or ps[0].startswith("arg0") and not inspect.isclass(f) and "method" in type(f).__name__): ps = ps[1:]
    out = [a.split(":")[-1].split("=")[0].strip().replace("PyKDL.", "") if ":" in a else None for a in ps]
    return out[:c.k(0, len(out))] if c.p(0.15) else out


def choose(c, ps, typ):
    if c.p(0.1): return c.pick(ps + JUNK)
    if typ == "float": return c.num()
    if typ == "int": return c.pick([c.k(-2, 8), c.k(0, 6)])
    if typ == "str": return c.pick(["root", "s0", "s1", "", "x", "a\0b"])
    if typ == "bool": return c.p(0.5)
    if typ and typ.startswith("Tuple"): return (c.k(-1, 6), c.k(-1, 6))
    if typ and typ.startswith("List[bool"): return [c.p(0.5) for _ in range(c.k(0, 6))]
    if typ and typ.startswith("List"): return [K.Wrench() for _ in range(c.k(0, 7))]
    if typ and typ.startswith("numpy"): n = c.k(0, 7); return c.pick([np.eye(n), np.zeros(n), np.eye(6), np.zeros((6, 1))])
    if typ == "dict": return {}
    m = [p for p in ps if type(p).__name__ == typ or any(b.__name__ == typ for b in type(p).__mro__)]
    return c.pick(m) if m else c.pick(ps + JUNK)


H.rule("solvers", 560, r_solvers)
H.rule("shared", 200, r_shared)
H.rule("members", 500, r_members)
H.rule("copies", 150, r_copies)
H.rule("index", 400, r_index)
H.rule("calls", 400, r_calls)
H.run()
