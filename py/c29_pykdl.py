"""PyKDL gives the answers of the C++ library (oracle: independent numpy models)."""
import copy, gc, math, pickle, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np
import PyKDL as K
from vh import Harness, Stop
from kdlmodel import *

H = Harness()


def snap(o):
    return pickle.dumps(values(o))


def values(o):
    """every number stored in a PyKDL value"""
    t = type(o).__name__
    if t == "Vector": return ("V",) + tuple(vec(o))
    if t in ("Twist", "Wrench"): return (t,) + tuple(tw(o))
    if t == "Rotation": return ("R",) + tuple(rot(o).ravel())
    if t == "Frame": return ("F",) + tuple(frm(o).ravel())
    if t == "JntArray": return ("q",) + tuple(jnt(o))
    if t == "JntArrayVel": return ("qv", values(o.q), values(o.qdot))
    if t in ("Jacobian", "JntSpaceInertiaMatrix"): return (t, o.rows(), o.columns()) + tuple(mat(o).ravel())
    if t == "doubleVel": return ("dv", o.t, o.grad)
    if t == "VectorVel": return ("vv", values(o.p), values(o.v))
    if t == "TwistVel": return ("tv", values(o.vel), values(o.rot))
    if t == "RotationVel": return ("rv", values(o.R), values(o.w))
    if t == "FrameVel": return ("fv", values(o.M), values(o.p))
    if t == "RotationalInertia": return ("ri",) + tuple(o[i] for i in range(9))
    if isinstance(o, (float, int, bool, str)): return o
    raise TypeError(t)


def num(o):
    """a PyKDL result as an array, in the layout of the models"""
    t = type(o).__name__
    if t == "Vector": return vec(o)
    if t in ("Twist", "Wrench"): return tw(o)
    if t == "Rotation": return rot(o)
    if t == "Frame": return frm(o)
    if t == "VectorVel": return np.concatenate([vec(o.p), vec(o.v)])
    if t == "TwistVel": return np.concatenate([vec(o.vel.p), vec(o.rot.p), vec(o.vel.v), vec(o.rot.v)])
    if t == "RotationVel": return np.concatenate([rot(o.R).ravel(), vec(o.w)])
    if t == "FrameVel": return np.concatenate([rot(o.M.R).ravel(), vec(o.p.p), vec(o.M.w), vec(o.p.v)])
    if t == "doubleVel": return A([o.t, o.grad])
    return A(o, float)


def op(c, name, want, fn, *args, typ=None, tol=1e-9, scale=None):
    """evaluate one binding: right type, right value, operands untouched"""
    before = [snap(a) for a in args]
    r = fn(*args)
    c.ok("operands", before == [snap(a) for a in args], "%s changed an operand" % name)
    if typ is not None:
        c.ok("type", isinstance(r, typ), "%s returned %s instead of %s" % (name, type(r).__name__, typ.__name__))
    s = max([1.0] + [float(np.max(np.abs(num(a)))) for a in args if not isinstance(a, str) and num(a).size]) ** 2 if scale is None else scale
    c.near(name, num(r), want, tol, max(s, float(np.max(np.abs(want))) if np.size(want) else 1.0))
    return r


def inplace(c, name, want, a, b, f):
    x = type(a)(a); keep = x; bb = snap(b)
    y = f(x, b)
    c.ok(name + "-same", y is keep, "the in-place operator rebound the name to another object")
    c.near(name, num(keep), want, 1e-9, max(1.0, float(np.max(np.abs(want)))))
    c.ok(name + "-arg", snap(b) == bb, "the right operand changed")


def iadd(x, y): x += y; return x
def isub(x, y): x -= y; return x


# -------------------------------------------------------------- vectors, twists, wrenches
def r_vectors(c):
    a, b = rvec(c), rvec(c); s = c.num(); d = c.u(0.2, 3) * c.pick([-1, 1]); dt = c.u(0.1, 2)
    c.desc = "a=%s b=%s s=%r d=%r" % (a.tolist(), b.tolist(), s, d)
    x, y = KV(a), KV(b)
    V = K.Vector
    c.near("ctor-kw", vec(V(z=a[2], x=a[0], y=a[1])), a)
    c.near("ctor-copy", vec(V(x)), a)
    c.near("ctor-default", vec(V()), np.zeros(3))
    op(c, "add", a + b, lambda p, q: p + q, x, y, typ=V)
    op(c, "sub", a - b, lambda p, q: p - q, x, y, typ=V)
    op(c, "neg", -a, lambda p: -p, x, typ=V)
    op(c, "mul", a * s, lambda p: p * s, x, typ=V)
    op(c, "rmul", a * s, lambda p: s * p, x, typ=V)
    op(c, "div", a / d, lambda p: p / d, x, typ=V)
    op(c, "cross", np.cross(a, b), lambda p, q: p * q, x, y, typ=V)
    op(c, "dot", a @ b, K.dot, x, y)
    op(c, "diff", (b - a) / dt, lambda p, q: K.diff(p, q, dt), x, y, typ=V)
    op(c, "diff-default", b - a, K.diff, x, y)
    op(c, "diff-kw", (b - a) / dt, lambda p, q: K.diff(b=q, a=p, dt=dt), x, y)
    op(c, "addDelta", a + b * dt, lambda p, q: K.addDelta(p, q, dt), x, y, typ=V)
    op(c, "addDelta-default", a + b, K.addDelta, x, y)
    n = float(np.linalg.norm(a))
    if n > 1e-3:
        op(c, "Norm", n, lambda p: p.Norm(), x)
        z = V(x); r = z.Normalize()
        c.near("Normalize", r, n, 1e-9, max(1, n)); c.near("Normalize-v", vec(z), a / n)
        tiny = V(1e-2, 0, 0); c.near("Norm-eps", [tiny.Norm(eps=n + 1), tiny.Norm(), tiny.Norm(1e-3)], [0.0, 1e-2, 1e-2], 1e-12)
    z = V(x); z.ReverseSign(); c.near("ReverseSign", vec(z), -a)
    inplace(c, "iadd", a + b, x, y, iadd); inplace(c, "isub", a - b, x, y, isub)
    c.near("index", [x[i] for i in range(3)], a); c.near("xyz", [x.x(), x.y(), x.z()], a)
    z = V(x); i = c.k(0, 2); z[i] = s; w = a.copy(); w[i] = s; c.near("setitem", vec(z), w)
    z = V(x); [z.x, z.y, z.z][i](value=s); c.near("setter", vec(z), w)
    z = V(x); K.SetToZero(z); c.near("SetToZero", vec(z), np.zeros(3)); c.near("Zero", vec(V.Zero()), np.zeros(3))
    z = V.Zero(); z[0] = 5; c.near("Zero-fresh", vec(V.Zero()), np.zeros(3))
    equality(c, x, y, a, b, lambda q: KV(q))


def equality(c, x, y, a, b, mk):
    same = bool(np.max(np.abs(a - b)) < 1e-6)          # == is Equal() with the library's default precision
    xx = mk(a)
    c.ok("eq-refl", x == xx and not (x != xx) and hash(x) == hash(xx), "equal values compare unequal or hash apart")
    c.ok("eq", (x == y) == same and (x != y) == (not same), "== / != of different values")
    c.ok("Equal-refl", K.Equal(x, xx) and K.Equal(x, xx, 1e-12))
    i = c.k(0, a.size - 1); e = 10.0 ** c.k(-5, 1)
    ref = abs(a.flat[i])
    if ref < e * 1e4:
        b2 = a.astype(float).copy(); b2.flat[i] += e
        z = mk(b2)
        c.ok("eq-one", not (x == z) and x != z, "values differing in component %d by %g compare equal" % (i, e))
        c.ok("Equal-in", K.Equal(x, z, e * 2) and K.Equal(z, x, eps=e * 2), "Equal(eps=%g) rejects a difference of %g" % (2 * e, e))
        c.ok("Equal-out", not K.Equal(x, z, e / 2) and not K.Equal(z, x, e / 2), "Equal(eps=%g) accepts a difference of %g" % (e / 2, e))
        if e >= 1e-5:
            c.ok("Equal-default", not K.Equal(x, z))
    dct = {x: 1}
    c.ok("dict", dct.get(xx) == 1 and (same or y not in dct), "a PyKDL value does not work as a dict key")


def r_screws(c):
    a, b = rtw(c), rtw(c); s = c.num(); d = c.u(0.2, 3); dt = c.u(0.1, 2); p = rvec(c)
    R, F = rrot(c), rfrm(c)
    c.desc = "a=%s b=%s s=%r p=%s" % (a.tolist(), b.tolist(), s, p.tolist())
    for name, T, mk, ref, fx in (("Twist", K.Twist, KT, reft, ft), ("Wrench", K.Wrench, KW, refw, fw)):
        x, y = mk(a), mk(b); N = lambda q: name + "-" + q
        kw = dict(vel=KV(a[:3]), rot=KV(a[3:])) if name == "Twist" else dict(force=KV(a[:3]), torque=KV(a[3:]))
        c.near(N("ctor-kw"), tw(T(**kw)), a); c.near(N("ctor-copy"), tw(T(x)), a); c.near(N("ctor-default"), tw(T()), np.zeros(6))
        h, t = (x.vel, x.rot) if name == "Twist" else (x.force, x.torque)
        c.near(N("fields"), np.concatenate([vec(h), vec(t)]), a)
        op(c, N("add"), a + b, lambda u, v: u + v, x, y, typ=T); op(c, N("sub"), a - b, lambda u, v: u - v, x, y, typ=T)
        op(c, N("neg"), -a, lambda u: -u, x, typ=T); op(c, N("mul"), a * s, lambda u: u * s, x, typ=T)
        op(c, N("rmul"), a * s, lambda u: s * u, x, typ=T); op(c, N("div"), a / d, lambda u: u / d, x, typ=T)
        op(c, N("RefPoint"), ref(a, p), lambda u, v: u.RefPoint(v), x, KV(p), typ=T)
        op(c, N("RefPoint-kw"), ref(a, p), lambda u, v: u.RefPoint(base=v), x, KV(p))
        op(c, N("rot"), rt(R, a), lambda u, v: u * v, KR(R), x, typ=T); op(c, N("frame"), fx(F, a), lambda u, v: u * v, KF(F), x, typ=T)
        op(c, N("rot-inv"), rt(R.T, a), lambda u, v: u.Inverse(v), KR(R), x, typ=T)
        op(c, N("frame-inv"), fx(finv(F), a), lambda u, v: u.Inverse(v), KF(F), x, typ=T)
        op(c, N("diff"), (b - a) / dt, lambda u, v: K.diff(u, v, dt), x, y, typ=T); op(c, N("diff-default"), b - a, K.diff, x, y)
        op(c, N("addDelta"), a + b * dt, lambda u, v: K.addDelta(u, v, dt), x, y, typ=T); op(c, N("addDelta-default"), a + b, K.addDelta, x, y)
        z = T(x); z.ReverseSign(); c.near(N("ReverseSign"), tw(z), -a)
        inplace(c, N("iadd"), a + b, x, y, iadd); inplace(c, N("isub"), a - b, x, y, isub)
        i = c.k(0, 5); z = T(x); z[i] = s; w = a.copy(); w[i] = s; c.near(N("setitem"), tw(z), w)
        K.SetToZero(z); c.near(N("SetToZero"), tw(z), np.zeros(6)); c.near(N("Zero"), tw(T.Zero()), np.zeros(6))
        equality(c, x, y, a, b, mk)
    x, y = KT(a), KW(b)
    op(c, "power", a[:3] @ b[:3] + a[3:] @ b[3:], K.dot, x, y); op(c, "power-swap", a[:3] @ b[:3] + a[3:] @ b[3:], K.dot, y, x)


# -------------------------------------------------------------- rotations and frames
def r_rotations(c):
    m, n = rrot(c), rrot(c); v, w = rvec(c), rvec(c); th = c.u(-3, 3); dt = c.u(0.1, 2)
    c.desc = "m=%s n=%s v=%s th=%r" % (m.tolist(), n.tolist(), v.tolist(), th)
    R = K.Rotation; x, y = KR(m), KR(n)
    c.near("ctor-9", rot(R(*[float(q) for q in m.ravel()])), m)
    c.near("ctor-cols", rot(R(x=KV(m[:, 0]), y=KV(m[:, 1]), z=KV(m[:, 2]))), m)
    c.near("ctor-default", rot(R()), np.eye(3)); c.near("ctor-copy", rot(R(x)), m); c.near("Identity", rot(R.Identity()), np.eye(3))
    op(c, "mul", m @ n, lambda p, q: p * q, x, y, typ=R); op(c, "vec", m @ v, lambda p, q: p * q, x, KV(v), typ=K.Vector)
    op(c, "Inverse", m.T, lambda p: p.Inverse(), x, typ=R); op(c, "Inverse-vec", m.T @ v, lambda p, q: p.Inverse(q), x, KV(v), typ=K.Vector)
    z = R(x); z.SetInverse(); c.near("SetInverse", rot(z), m.T)
    for nm, f, g in (("X", R.RotX, rx), ("Y", R.RotY, ry), ("Z", R.RotZ, rz)):
        c.near("Rot" + nm, rot(f(angle=th)), g(th))
        z = R(x); getattr(z, "DoRot" + nm)(angle=th); c.near("DoRot" + nm, rot(z), m @ g(th))
        i = "XYZ".index(nm)
        op(c, "Unit" + nm, m[:, i], lambda p: getattr(p, "Unit" + nm)(), x, typ=K.Vector)
        z = R(x); getattr(z, "Unit" + nm)(KV(v)); u = m.copy(); u[:, i] = v; c.near("setUnit" + nm, rot(z), u, 1e-9)
    ax = v if np.linalg.norm(v) > 1e-3 else A([0, 0, 1.])
    un = ax / np.linalg.norm(ax)
    c.near("Rot", rot(R.Rot(rotvec=KV(ax), angle=th)), rodr(ax, th)); c.near("Rot2", rot(R.Rot2(KV(un), th)), rodr(un, th), 1e-8)
    a, b, g = c.u(-3, 3), c.u(-1.5, 1.5), c.u(-3, 3)
    c.near("RPY", rot(R.RPY(roll=a, pitch=b, yaw=g)), rz(g) @ ry(b) @ rx(a)); c.near("EulerZYX", rot(R.EulerZYX(alpha=a, beta=b, gamma=g)), rz(a) @ ry(b) @ rx(g))
    c.near("EulerZYZ", rot(R.EulerZYZ(alpha=a, beta=b, gamma=g)), rz(a) @ ry(b) @ rz(g))
    c.near("GetRPY", R.RPY(a, b, g).GetRPY(), [a, b, g], 1e-6); c.near("GetEulerZYX", R.EulerZYX(a, b, g).GetEulerZYX(), [a, b, g], 1e-6)
    bb = c.u(0.1, 3.0); c.near("GetEulerZYZ", R.EulerZYZ(a, bb, g).GetEulerZYZ(), [a, bb, g], 1e-6)
    for nm, res in (("GetRPY", x.GetRPY()), ("GetEulerZYX", x.GetEulerZYX()), ("GetEulerZYZ", x.GetEulerZYZ()), ("GetQuaternion", x.GetQuaternion())):
        c.ok(nm + "-tuple", isinstance(res, tuple) and all(isinstance(q, float) for q in res), repr(res))
    q = x.GetQuaternion(); c.near("GetQuaternion", quat(q), m, 1e-7)
    q = A([c.u(), c.u(), c.u(), c.u()]) + A([0, 0, 0, 1e-3]); q /= np.linalg.norm(q)
    c.near("Quaternion", rot(R.Quaternion(x=q[0], y=q[1], z=q[2], w=q[3])), quat(q))
    t = abs(th) % 3.0 + 0.05
    c.near("GetRot", vec(KR(rodr(un, t)).GetRot()), un * t, 1e-6)
    r = KR(rodr(un, t)).GetRotAngle()
    c.ok("GetRotAngle-shape", isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], K.Vector), repr(r))
    c.near("GetRotAngle", r[0], t, 1e-6); c.near("GetRotAngle-axis", vec(r[1]), un, 1e-6)
    c.near("GetRotAngle-eps", KR(rodr(un, 1e-5)).GetRotAngle(eps=1e-3)[0], 0.0)
    e = logr(m.T @ n)
    if np.trace(m.T @ n) > -0.95:
        op(c, "diff", m @ e / dt, lambda p, q: K.diff(p, q, dt), x, y, typ=K.Vector, tol=1e-5); op(c, "diff-default", m @ e, K.diff, x, y, tol=1e-5)
    dw = w / max(1.0, np.linalg.norm(w))
    op(c, "addDelta", rodr(dw, np.linalg.norm(dw) * dt) @ m, lambda p, q: K.addDelta(p, q, dt), x, KV(dw), typ=R, tol=1e-6)
    z = R(x); i, j = c.k(0, 2), c.k(0, 2); z[i, j] = th; u = m.copy(); u[i, j] = th; c.near("setitem", rot(z), u)
    same = bool(np.max(np.abs(m - n)) < 1e-6)          # == is Equal() with the library's default precision
    c.ok("eq", x == KR(m) and not (x != KR(m)) and (x == y) == same and (x != y) == (not same)); c.ok("hash", hash(x) == hash(KR(m)))
    c.ok("eq-one", not (x == z) or u[i, j] == m[i, j], "rotations differing in one entry compare equal")
    c.ok("Equal", K.Equal(x, KR(m)) and K.Equal(x, KR(m), eps=1e-12) and (abs(m[i, j] - th) < 1e-4 or not K.Equal(x, z, abs(m[i, j] - th) / 2)))


def r_frames(c):
    m, n = rfrm(c), rfrm(c); v = rvec(c); t = rtw(c); t = t / max(1.0, np.max(np.abs(t))); dt = c.u(0.1, 2)
    c.desc = "m=%s n=%s v=%s t=%s" % (m.tolist(), n.tolist(), v.tolist(), t.tolist())
    F = K.Frame; x, y = KF(m), KF(n)
    c.near("ctor-RV", frm(F(R=KR(m[:, :3]), V=KV(m[:, 3]))), m); c.near("ctor-V", frm(F(KV(v))), fm(np.eye(3), v)); c.near("ctor-R", frm(F(KR(m[:, :3]))), fm(m[:, :3], [0, 0, 0]))
    c.near("ctor-default", frm(F()), fm(np.eye(3), [0, 0, 0])); c.near("ctor-copy", frm(F(x)), m); c.near("Identity", frm(F.Identity()), fm(np.eye(3), [0, 0, 0]))
    op(c, "mul", fmul(m, n), lambda p, q: p * q, x, y, typ=F); op(c, "vec", m[:, :3] @ v + m[:, 3], lambda p, q: p * q, x, KV(v), typ=K.Vector)
    op(c, "Inverse", finv(m), lambda p: p.Inverse(), x, typ=F); op(c, "Inverse-vec", m[:, :3].T @ (v - m[:, 3]), lambda p, q: p.Inverse(q), x, KV(v), typ=K.Vector)
    c.near("M", rot(x.M), m[:, :3]); c.near("p", vec(x.p), m[:, 3])
    a, al, d, th = c.u(), c.u(-3, 3), c.u(), c.u(-3, 3)
    tz, tx = fmul(fm(rz(th), [0, 0, 0]), fm(np.eye(3), [0, 0, d])), fmul(fm(rx(al), [0, 0, 0]), fm(np.eye(3), [a, 0, 0]))
    c.near("DH", frm(F.DH(a=a, alpha=al, d=d, theta=th)), fmul(tz, tx)); c.near("DH_Craig1989", frm(F.DH_Craig1989(a=a, alpha=al, d=d, theta=th)), fmul(tx, tz))
    e = logr(m[:, :3].T @ n[:, :3])
    if np.trace(m[:, :3].T @ n[:, :3]) > -0.95:
        want = np.concatenate([n[:, 3] - m[:, 3], m[:, :3] @ e])
        op(c, "diff", want / dt, lambda p, q: K.diff(p, q, dt), x, y, typ=K.Twist, tol=1e-5); op(c, "diff-default", want, K.diff, x, y, tol=1e-5)
    w = t[3:]; op(c, "addDelta", fm(rodr(w, np.linalg.norm(w) * dt) @ m[:, :3], m[:, 3] + t[:3] * dt), lambda p, q: K.addDelta(p, q, dt), x, KT(t), typ=F, tol=1e-6)
    fs = c.u(1, 50); z = F(x); z.Integrate(twist=KT(t), sample_frequency=fs)
    th = np.linalg.norm(w) / fs
    if th < 1e-12 or th > 1e-5:
        # one sample of the body twist, to first order in the translation
        ref = fm(m[:, :3] @ rodr(w, th) if th else m[:, :3], m[:, :3] @ (t[:3] / fs) + m[:, 3])
        c.near("Integrate", frm(z), ref, 1e-6, max(1, np.max(np.abs(m))))
    z = F(x); i, j = c.k(0, 2), c.k(0, 3); z[i, j] = d; u = m.copy(); u[i, j] = d; c.near("setitem", frm(z), u)
    z = F(x); z.p = KV(v); c.near("set-p", frm(z), fm(m[:, :3], v)); z.M = KR(n[:, :3]); c.near("set-M", frm(z), fm(n[:, :3], v))
    same = bool(np.max(np.abs(m - n)) < 1e-6)          # == is Equal() with the library's default precision
    c.ok("eq", x == KF(m) and not (x != KF(m)) and (x == y) == same and (x != y) == (not same)); c.ok("hash", hash(x) == hash(KF(m)))
    z = F(x); z[i, j] = m[i, j] + 0.5
    c.ok("eq-one", not (x == z) and x != z, "frames differing in one entry compare equal"); c.ok("Equal", K.Equal(x, KF(m)) and not K.Equal(x, z, eps=0.3) and K.Equal(x, z, 0.7))


# -------------------------------------------------------------- values with a derivative
class D:
    """value and time derivative of an array expression"""
    def __init__(s, x, d): s.x, s.d = A(x, float), A(d, float)
    def __add__(s, o): return D(s.x + o.x, s.d + o.d)
    def __sub__(s, o): return D(s.x - o.x, s.d - o.d)
    def __neg__(s): return D(-s.x, -s.d)
    def __mul__(s, o): return D(s.x * o.x, s.d * o.x + s.x * o.d)
    def __truediv__(s, o): return D(s.x / o.x, (s.d * o.x - s.x * o.d) / (o.x * o.x))
    def __matmul__(s, o): return D(s.x @ o.x, s.d @ o.x + s.x @ o.d)
    def cross(s, o): return D(np.cross(s.x, o.x), np.cross(s.d, o.x) + np.cross(s.x, o.d))
    @property
    def T(s): return D(s.x.T, s.d.T)


def C(x): return D(x, np.zeros_like(A(x, float)))
def KVV(d): return K.VectorVel(KV(d.x), KV(d.d))
def KTV(a, b): return K.TwistVel(KVV(a), KVV(b))
def nv(d): return np.concatenate([d.x, d.d])
def ntv(a, b): return np.concatenate([a.x, b.x, a.d, b.d])
def RD(m, w): return D(m, sk(w) @ m)            # dR/dt = [w] R
def unsk(m): return A([m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1]]) / 2
def nrv(d): return np.concatenate([d.x.ravel(), unsk(d.d @ d.x.T)])
def nfv(R, p): return np.concatenate([R.x.ravel(), p.x, unsk(R.d @ R.x.T), p.d])


def r_velocities(c):
    a, b = D(rvec(c), rvec(c)), D(rvec(c), rvec(c)); v = rvec(c); s = c.num(); d = c.u(0.3, 3); sd, dd = D(s, c.num()), D(d, c.num())
    c.desc = "a=%s/%s b=%s/%s v=%s s=%r/%r" % (a.x.tolist(), a.d.tolist(), b.x.tolist(), b.d.tolist(), v.tolist(), s, float(sd.d))
    x, y, kv = KVV(a), KVV(b), KV(v); ks, kd = K.doubleVel(s, float(sd.d)), K.doubleVel(d, float(dd.d))
    VV = K.VectorVel
    c.near("dv", [ks.t, ks.grad, ks.value(), ks.deriv()], [s, sd.d, s, sd.d]); c.near("dv-1", num(K.doubleVel(s)), [s, 0]); c.near("dv-copy", num(K.doubleVel(ks)), num(ks))
    op(c, "dv-neg", [-s, -sd.d], lambda p: -p, ks, typ=K.doubleVel)
    dt = c.u(0.1, 2)
    op(c, "dv-diff", [(d - s) / dt, (dd.d - sd.d) / dt], lambda p, q: K.diff(p, q, dt), ks, kd, typ=K.doubleVel)
    op(c, "dv-addDelta", [s + d * dt, sd.d + dd.d * dt], lambda p, q: K.addDelta(p, q, dt), ks, kd, typ=K.doubleVel)
    c.ok("dv-eq", ks == K.doubleVel(ks) and not (ks != K.doubleVel(ks)) and hash(ks) == hash(K.doubleVel(ks)))
    k2 = K.doubleVel(s, float(sd.d) + 0.5); c.ok("dv-ne", ks != k2 and not (ks == k2)); c.ok("dv-Equal", K.Equal(ks, k2, 0.7) and not K.Equal(ks, k2, eps=0.3))
    c.near("vv-fields", np.concatenate([vec(x.p), vec(x.v), vec(x.value()), vec(x.deriv())]), np.tile(nv(a), 2)); c.near("vv-p", num(VV(p=kv)), nv(C(v))); c.near("vv-default", num(VV()), np.zeros(6))
    c.near("vv-Zero", num(VV.Zero()), np.zeros(6)); z = VV(x); z.ReverseSign(); c.near("vv-ReverseSign", num(z), -nv(a)); K.SetToZero(z); c.near("vv-SetToZero", num(z), np.zeros(6))
    for nm, want, f, args in (
        ("vv+vv", a + b, lambda p, q: p + q, (x, y)), ("vv-vv", a - b, lambda p, q: p - q, (x, y)), ("v+vv", C(v) + a, lambda p, q: p + q, (kv, x)),
        ("v-vv", C(v) - a, lambda p, q: p - q, (kv, x)), ("vv+v", a + C(v), lambda p, q: p + q, (x, kv)), ("vv-v", a - C(v), lambda p, q: p - q, (x, kv)),
        ("vv*vv", a.cross(b), lambda p, q: p * q, (x, y)), ("vv*v", a.cross(C(v)), lambda p, q: p * q, (x, kv)), ("v*vv", C(v).cross(a), lambda p, q: p * q, (kv, x)),
        ("s*vv", C(s) * a, lambda p: s * p, (x,)), ("vv*s", C(s) * a, lambda p: p * s, (x,)), ("dv*vv", sd * a, lambda p, q: p * q, (ks, x)),
        ("vv*dv", sd * a, lambda p, q: p * q, (x, ks)), ("vv/s", a / C(d), lambda p: p / d, (x,)), ("vv/dv", a / dd, lambda p, q: p / q, (x, kd)), ("-vv", -a, lambda p: -p, (x,)),
    ):
        op(c, nm, nv(want), f, *args, typ=VV)
    for nm, want, args in (("dot", a, (x, y)), ("dot-vv.v", a, (x, kv)), ("dot-v.vv", a, (kv, x))):
        w = b if nm == "dot" else C(v)
        op(c, nm, [a.x @ w.x, a.d @ w.x + a.x @ w.d], K.dot, *args, typ=K.doubleVel)
    n = np.linalg.norm(a.x)
    if n > 1e-2:
        op(c, "vv-Norm", [n, a.x @ a.d / n], lambda p: p.Norm(), x, typ=K.doubleVel)
    op(c, "vv-diff", nv(D((b.x - a.x) / dt, (b.d - a.d) / dt)), lambda p, q: K.diff(p, q, dt), x, y, typ=VV); op(c, "vv-diff-default", nv(b - a), K.diff, x, y)
    op(c, "vv-addDelta", nv(D(a.x + b.x * dt, a.d + b.d * dt)), lambda p, q: K.addDelta(p, q, dt), x, y, typ=VV)
    inplace(c, "vv-iadd", nv(a + b), x, y, iadd); inplace(c, "vv-isub", nv(a - b), x, y, isub)
    z = VV(x); i = c.k(0, 5); (z.p if i < 3 else z.v)[i % 3] += 0.5
    c.ok("vv-eq", x == VV(x) and not (x != VV(x)) and hash(x) == hash(VV(x)) and x != z and not (x == z)); c.ok("vv-Equal", K.Equal(x, z, eps=0.7) and not K.Equal(x, z, 0.3))
    still = VV(KV(a.x)); c.ok("vv-mixed-eq", still == KV(a.x) and KV(a.x) == still and not (still != KV(a.x)) and K.Equal(still, KV(a.x)) and K.Equal(KV(a.x), still, 1e-9))
    moving = VV(KV(a.x), KV(A([0, 0.5, 0]))); c.ok("vv-mixed-ne", moving != KV(a.x) and KV(a.x) != moving and not K.Equal(moving, KV(a.x), 0.3))
    # twists
    t, u = (a, b), (D(rvec(c), rvec(c)), D(rvec(c), rvec(c))); X, Y = KTV(*t), KTV(*u); TV = K.TwistVel; st = rtw(c); S = (C(st[:3]), C(st[3:])); kst = KT(st)
    c.near("tv-GetTwist", tw(X.GetTwist()), np.concatenate([a.x, b.x])); c.near("tv-GetTwistDot", tw(X.GetTwistDot()), np.concatenate([a.d, b.d]))
    c.near("tv-value", np.concatenate([tw(X.value()), tw(X.deriv())]), ntv(*t)); c.near("tv-ctor2", num(TV(p=X.value(), v=X.deriv())), ntv(*t)); c.near("tv-ctor1", num(TV(p=kst)), ntv(*S))
    c.near("tv-default", num(TV()), np.zeros(12)); c.near("tv-Zero", num(TV.Zero()), np.zeros(12))
    for nm, want, f, args in (
        ("tv+tv", [p + q for p, q in zip(t, u)], lambda p, q: p + q, (X, Y)), ("tv-tv", [p - q for p, q in zip(t, u)], lambda p, q: p - q, (X, Y)), ("-tv", [-p for p in t], lambda p: -p, (X,)),
        ("tv*s", [C(s) * p for p in t], lambda p: p * s, (X,)), ("s*tv", [C(s) * p for p in t], lambda p: s * p, (X,)), ("tv/s", [p / C(d) for p in t], lambda p: p / d, (X,)),
        ("tv*dv", [sd * p for p in t], lambda p, q: p * q, (X, ks)), ("dv*tv", [sd * p for p in t], lambda p, q: p * q, (ks, X)), ("tv/dv", [p / dd for p in t], lambda p, q: p / q, (X, kd)),
        ("tv-RefPoint", [t[0] + t[1].cross(u[0]), t[1]], lambda p, q: p.RefPoint(q), (X, KVV(u[0]))),
    ):
        op(c, nm, ntv(*want), f, *args, typ=TV)
    inplace(c, "tv-iadd", ntv(*[p + q for p, q in zip(t, u)]), X, Y, iadd); inplace(c, "tv-isub", ntv(*[p - q for p, q in zip(t, u)]), X, Y, isub)
    z = TV(X); z.ReverseSign(); c.near("tv-ReverseSign", num(z), -ntv(*t)); K.SetToZero(z); c.near("tv-SetToZero", num(z), np.zeros(12))
    z = TV(X); i = c.k(0, 11); w = z.vel if i < 6 else z.rot; (w.p if i % 6 < 3 else w.v)[i % 3] += 0.5
    c.ok("tv-eq", X == TV(X) and not (X != TV(X)) and hash(X) == hash(TV(X)) and X != z and not (X == z), "changed component %d" % i); c.ok("tv-Equal", K.Equal(X, z, 0.7) and not K.Equal(X, z, eps=0.3))
    c.ok("tv-mixed", TV(kst) == kst and kst == TV(kst) and not (TV(kst) != kst) and not (kst != TV(kst)) and K.Equal(kst, TV(kst)) and K.Equal(TV(kst), kst))
    # rotations
    m, w = rrot(c), rvec(c); m2, w2 = rrot(c), rvec(c); R, R2 = RD(m, w), RD(m2, w2); kr, kr2 = K.RotationVel(KR(m), KV(w)), K.RotationVel(R=KR(m2), w=KV(w2)); RV = K.RotationVel
    c.near("rv-fields", np.concatenate([rot(kr.R).ravel(), vec(kr.w), rot(kr.value()).ravel(), vec(kr.deriv())]), np.tile(nrv(R), 2), 1e-8)
    c.near("rv-R", num(RV(R=KR(m))), nrv(C(m))); c.near("rv-default", num(RV()), nrv(C(np.eye(3)))); c.near("rv-Identity", num(RV.Identity()), nrv(C(np.eye(3))))
    for nm, want, f, args, typ in (
        ("rv*rv", nrv(R @ R2), lambda p, q: p * q, (kr, kr2), RV), ("r*rv", nrv(C(m2) @ R), lambda p, q: p * q, (KR(m2), kr), RV), ("rv*r", nrv(R @ C(m2)), lambda p, q: p * q, (kr, KR(m2)), RV),
        ("rv-Inverse", nrv(R.T), lambda p: p.Inverse(), (kr,), RV), ("rv*vv", nv(R @ a), lambda p, q: p * q, (kr, x), VV), ("rv*v", nv(R @ C(v)), lambda p, q: p * q, (kr, kv), VV),
        ("r*vv", nv(C(m) @ a), lambda p, q: p * q, (KR(m), x), VV), ("rv-Inverse-vv", nv(R.T @ a), lambda p, q: p.Inverse(q), (kr, x), VV), ("rv-Inverse-v", nv(R.T @ C(v)), lambda p, q: p.Inverse(q), (kr, kv), VV),
        ("rv*tv", ntv(R @ t[0], R @ t[1]), lambda p, q: p * q, (kr, X), TV), ("rv*t", ntv(R @ S[0], R @ S[1]), lambda p, q: p * q, (kr, kst), TV),
        ("rv-Inverse-tv", ntv(R.T @ t[0], R.T @ t[1]), lambda p, q: p.Inverse(q), (kr, X), TV), ("rv-Inverse-t", ntv(R.T @ S[0], R.T @ S[1]), lambda p, q: p.Inverse(q), (kr, kst), TV),
        ("rv-UnitX", nv(D(R.x[:, 0], R.d[:, 0])), lambda p: p.UnitX(), (kr,), VV), ("rv-UnitY", nv(D(R.x[:, 1], R.d[:, 1])), lambda p: p.UnitY(), (kr,), VV), ("rv-UnitZ", nv(D(R.x[:, 2], R.d[:, 2])), lambda p: p.UnitZ(), (kr,), VV),
    ):
        op(c, nm, want, f, *args, typ=typ, tol=1e-8)
    th = K.doubleVel(c.u(-3, 3), c.num()); ang = D(th.t, th.grad)
    for i, nm in enumerate("XYZ"):
        e = np.eye(3)[i]; q = RD(rodr(e, th.t), e * th.grad)
        c.near("rv-Rot" + nm, num(getattr(RV, "Rot" + nm)(angle=th)), nrv(q), 1e-8, max(1, abs(th.grad)))
        z = RV(kr); getattr(z, "DoRot" + nm)(angle=th); c.near("rv-DoRot" + nm, num(z), nrv(R @ q), 1e-8, max(1, abs(th.grad), np.max(np.abs(w))))
    ax = v / np.linalg.norm(v) if np.linalg.norm(v) > 1e-3 else A([0, 0, 1.])
    q = nrv(RD(rodr(ax, th.t), ax * th.grad))
    c.near("rv-Rot", num(RV.Rot(rotvec=KV(ax * c.u(0.5, 2)), angle=th)), q, 1e-8, max(1, abs(th.grad))); c.near("rv-Rot2", num(RV.Rot2(rotvec=KV(ax), angle=th)), q, 1e-7, max(1, abs(th.grad)))
    z = RV(kr); i = c.k(0, 11)
    if i < 9: rr = z.R; rr[i // 3, i % 3] += 0.5
    else: z.w[i - 9] += 0.5
    c.ok("rv-eq", kr == RV(kr) and not (kr != RV(kr)) and hash(kr) == hash(RV(kr)) and kr != z and not (kr == z)); c.ok("rv-Equal", K.Equal(kr, z, 0.7) and not K.Equal(kr, z, eps=0.3))
    c.ok("rv-mixed", RV(KR(m)) == KR(m) and KR(m) == RV(KR(m)) and not (KR(m) != RV(KR(m))) and not (RV(KR(m)) != KR(m)) and K.Equal(KR(m), RV(KR(m))) and K.Equal(RV(KR(m)), KR(m)))
    # frames
    kf, kf2 = K.FrameVel(M=kr, p=x), K.FrameVel(kr2, y); FV = K.FrameVel; F1, F2 = (R, a), (R2, b)
    fmulv = lambda f, g: (f[0] @ g[0], f[0] @ g[1] + f[1]); finvv = lambda f: (f[0].T, -(f[0].T @ f[1])); st4 = rfrm(c); SF = (C(st4[:, :3]), C(st4[:, 3])); ksf = KF(st4)
    ftv = lambda f, q: ntv(f[0] @ q[0] + f[1].cross(f[0] @ q[1]), f[0] @ q[1])
    c.near("fv-Frame", num(FV(T=ksf)), nfv(*SF)); c.near("fv-default", num(FV()), nfv(C(np.eye(3)), C(np.zeros(3)))); c.near("fv-Identity", num(FV.Identity()), num(FV()))
    c.near("fv-Ft", num(FV(T=ksf, t=kst)), nfv(RD(st4[:, :3], st[3:]), D(st4[:, 3], st[:3])), 1e-8)
    c.near("fv-GetFrame", frm(kf.GetFrame()), fm(m, a.x)); c.near("fv-GetTwist", tw(kf.GetTwist()), np.concatenate([a.d, w])); c.near("fv-value", frm(kf.value()), fm(m, a.x)); c.near("fv-deriv", tw(kf.deriv()), np.concatenate([a.d, w]))
    for nm, want, f, args, typ in (
        ("fv*fv", nfv(*fmulv(F1, F2)), lambda p, q: p * q, (kf, kf2), FV), ("f*fv", nfv(*fmulv(SF, F1)), lambda p, q: p * q, (ksf, kf), FV), ("fv*f", nfv(*fmulv(F1, SF)), lambda p, q: p * q, (kf, ksf), FV),
        ("fv-Inverse", nfv(*finvv(F1)), lambda p: p.Inverse(), (kf,), FV), ("fv*vv", nv(R @ b + a), lambda p, q: p * q, (kf, y), VV), ("fv*v", nv(R @ C(v) + a), lambda p, q: p * q, (kf, kv), VV),
        ("fv-Inverse-vv", nv(R.T @ (b - a)), lambda p, q: p.Inverse(q), (kf, y), VV), ("fv-Inverse-v", nv(R.T @ (C(v) - a)), lambda p, q: p.Inverse(q), (kf, kv), VV),
        ("fv*tv", ftv(F1, u), lambda p, q: p * q, (kf, Y), TV), ("fv*t", ftv(F1, S), lambda p, q: p * q, (kf, kst), TV),
        ("fv-Inverse-tv", ftv(finvv(F1), u), lambda p, q: p.Inverse(q), (kf, Y), TV), ("fv-Inverse-t", ftv(finvv(F1), S), lambda p, q: p.Inverse(q), (kf, kst), TV),
    ):
        op(c, nm, want, f, *args, typ=typ, tol=1e-8, scale=max(1.0, max(np.max(np.abs(num(g))) for g in args)) ** 3)
    z = FV(kf); i = c.k(0, 17)
    if i < 9: z.M.R[i // 3, i % 3] += 0.5
    elif i < 12: z.M.w[i - 9] += 0.5
    elif i < 15: z.p.p[i - 12] += 0.5
    else: z.p.v[i - 15] += 0.5
    c.ok("fv-eq", kf == FV(kf) and not (kf != FV(kf)) and hash(kf) == hash(FV(kf)) and kf != z and not (kf == z), "component %d" % i); c.ok("fv-Equal", K.Equal(kf, z, 0.7) and not K.Equal(kf, z, eps=0.3))
    c.ok("fv-mixed", FV(ksf) == ksf and ksf == FV(ksf) and not (ksf != FV(ksf)) and not (FV(ksf) != ksf) and K.Equal(ksf, FV(ksf)) and K.Equal(FV(ksf), ksf))
    e = logr(m.T @ m2)
    small = np.trace(m.T @ m2) > -0.6
    if small:
        c.near("rv-diff", vec(K.diff(kr, kr2, dt).p), m @ e / dt, 1e-5); c.near("fv-diff", np.concatenate([vec(K.diff(kf, kf2, dt).vel.p), vec(K.diff(kf, kf2, dt).rot.p)]), np.concatenate([(b.x - a.x) / dt, m @ e / dt]), 1e-5, max(1, np.max(np.abs(b.x - a.x)) / dt))
        c.near("fv-diff-v", vec(K.diff(kf, kf2, dt).vel.v), (b.d - a.d) / dt, 1e-6)
    c.ok("rv-addDelta", isinstance(K.addDelta(kr, x, 1e-3), RV) and isinstance(K.addDelta(kf, X, 1e-3), FV))


# -------------------------------------------------------------- joint arrays, Jacobians, mass matrices
def r_arrays(c):
    n = c.k(0, 9); a, b = A([c.num() for _ in range(n)]), A([c.num() for _ in range(n)]); a = a.reshape(n); b = b.reshape(n)
    s = c.num(); d = c.u(0.3, 3) * c.pick([-1, 1])
    c.desc = "n=%d a=%s b=%s s=%r d=%r" % (n, a.tolist(), b.tolist(), s, d)
    x, y = KJ(a), KJ(b)
    c.ok("q-size", x.rows() == n and x.columns() == 1 and K.JntArray().rows() == 0); c.near("q-zero", jnt(K.JntArray(size=n)), np.zeros(n)); c.near("q-copy", jnt(K.JntArray(x)), a)
    bx, by = snap(x), snap(y)
    for nm, want, f in (("Add", a + b, lambda o: K.Add(src1=x, src2=y, dest=o)), ("Subtract", a - b, lambda o: K.Subtract(src1=x, src2=y, dest=o)), ("Multiply", a * s, lambda o: K.Multiply(src=x, factor=s, dest=o)),
                        ("Divide", a / d, lambda o: K.Divide(src=x, factor=d, dest=o))):
        o = K.JntArray(n); c.ok("q-" + nm + "-ret", f(o) is None); c.near("q-" + nm, jnt(o), want)
    c.ok("q-operands", (bx, by) == (snap(x), snap(y)), "an operand changed")
    z = K.JntArray(x); K.Add(z, y, z); c.near("q-alias", jnt(z), a + b); K.SetToZero(z); c.near("q-SetToZero", jnt(z), np.zeros(n))
    c.ok("q-eq", x == KJ(a)); c.ok("q-Equal", K.Equal(x, KJ(a)) and K.Equal(src1=x, src2=KJ(a), eps=1e-12))
    if n:
        i = c.k(0, n - 1); z = KJ(a); z[i] = a[i] + 0.5; c.ok("q-Equal-no", not K.Equal(x, z, 0.3) and K.Equal(x, z, 0.7) and not (x == z)); c.near("q-item", [z[k] for k in range(n)], a + 0.5 * np.eye(n)[i])
    m = c.k(0, 9); z = KJ(a); z.resize(size=m); c.ok("q-resize", z.rows() == m)
    # JntArrayVel
    av, bv = D(a, rnum(c, n)), D(b, rnum(c, n)); sd, dd = D(s, c.num()), D(d, c.num())
    KQ = lambda e: K.JntArrayVel(q=KJ(e.x), q_dot=KJ(e.d)); X, Y = KQ(av), KQ(bv); nq = lambda o: np.concatenate([jnt(o.q), jnt(o.qdot)])
    c.near("qv-ctor", nq(X), nv(av)); c.near("qv-value", np.concatenate([jnt(X.value()), jnt(X.deriv())]), nv(av)); c.near("qv-1", nq(K.JntArrayVel(KJ(a))), nv(C(a))); c.near("qv-size", nq(K.JntArrayVel(size=n)), np.zeros(2 * n))
    for nm, want, f in (("Add", av + bv, lambda o: K.Add(X, Y, o)), ("Add-q", av + C(b), lambda o: K.Add(X, y, o)), ("Subtract", av - bv, lambda o: K.Subtract(X, Y, o)), ("Subtract-q", av - C(b), lambda o: K.Subtract(X, y, o)),
                        ("Multiply", av * C(s), lambda o: K.Multiply(X, s, o)), ("Divide", av / C(d), lambda o: K.Divide(X, d, o)),
                        ("Multiply-dv", av * sd, lambda o: K.Multiply(X, K.doubleVel(s, float(sd.d)), o)), ("Divide-dv", av / dd, lambda o: K.Divide(X, K.doubleVel(d, float(dd.d)), o))):
        o = K.JntArrayVel(n); f(o); c.near("qv-" + nm, nq(o), nv(want), 1e-9, max(1.0, np.max(np.abs(nv(want))) if n else 1))
    c.near("qv-operands", nq(X), nv(av)); c.ok("qv-Equal", K.Equal(X, KQ(av)) and K.Equal(X, KQ(av), eps=1e-9))
    if n:
        Z = KQ(av); Z.qdot[n - 1] += 0.5; c.ok("qv-Equal-no", not K.Equal(X, Z, 0.3) and K.Equal(X, Z, 0.7))
    Z = KQ(av); K.SetToZero(Z); c.near("qv-SetToZero", nq(Z), np.zeros(2 * n)); Z.resize(size=m); c.ok("qv-resize", Z.q.rows() == m and Z.qdot.rows() == m)
    # Jacobian
    J = A([[c.num() for _ in range(n)] for _ in range(6)]).reshape(6, n); kj = K.Jacobian(nr_columns=n)
    for i in range(6):
        for j in range(n): kj[i, j] = J[i, j]
    c.ok("j-size", kj.rows() == 6 and kj.columns() == n); c.near("j-items", mat(kj), J); c.near("j-copy", mat(K.Jacobian(kj)), J)
    t = K.Twist(); K.MultiplyJacobian(jac=kj, src=x, dest=t); c.near("j-Multiply", tw(t), J @ a if n else np.zeros(6), 1e-9, max(1.0, np.max(np.abs(J)) * np.max(np.abs(a)) * n if n else 1))
    for j in range(n): c.near("j-getColumn", tw(kj.getColumn(j)), J[:, j])
    if n:
        j = c.k(0, n - 1); w = rtw(c); z = K.Jacobian(kj); z.setColumn(index=j, t=KT(w)); u = J.copy(); u[:, j] = w; c.near("j-setColumn", mat(z), u); c.near("j-setColumn-src", mat(kj), J)
        col = kj.getColumn(index=j); col[0] += 1; c.near("j-getColumn-copy", mat(kj), J)
    p, R, F = rvec(c), rrot(c), rfrm(c); sc = max(1.0, float(np.max(np.abs(J))) if n else 1.0) * max(1.0, np.max(np.abs(p)), np.max(np.abs(F)))
    cols = lambda f: np.stack([f(J[:, j]) for j in range(n)], 1) if n else np.zeros((6, 0))
    for nm, want, f, args in (("changeRefPoint", cols(lambda q: reft(q, p)), K.changeRefPoint, (KV(p),)), ("changeBase", cols(lambda q: rt(R, q)), K.changeBase, (KR(R),)), ("changeRefFrame", cols(lambda q: ft(F, q)), K.changeRefFrame, (KF(F),))):
        o = K.Jacobian(n); c.ok("j-" + nm + "-ret", f(kj, *args, o) is True); c.near("j-" + nm, mat(o), want, 1e-9, sc); z = K.Jacobian(kj); getattr(z, nm)(*args); c.near("j-" + nm + "-self", mat(z), want, 1e-9, sc)
        c.near("j-operand", mat(kj), J)
        if n:
            o = K.Jacobian(n + 1); c.ok("j-" + nm + "-badsize", f(kj, *args, o) is False)
    z = K.Jacobian(kj); K.SetToZero(z); c.near("j-SetToZero", mat(z), np.zeros((6, n))); z.resize(nr_columns=m); c.ok("j-resize", z.columns() == m and z.rows() == 6)
    # JntSpaceInertiaMatrix
    M1, M2 = A([[c.num() for _ in range(n)] for _ in range(n)]).reshape(n, n), A([[c.num() for _ in range(n)] for _ in range(n)]).reshape(n, n)
    def KM(q):
        o = K.JntSpaceInertiaMatrix(n)
        for i in range(n):
            for j in range(n): o[i, j] = q[i, j]
        return o
    h1, h2 = KM(M1), KM(M2)
    c.ok("h-size", h1.rows() == n and h1.columns() == n); c.near("h-items", mat(h1), M1); c.near("h-copy", mat(K.JntSpaceInertiaMatrix(h1)), M1)
    for nm, want, f in (("Add", M1 + M2, lambda o: K.Add(h1, h2, o)), ("Subtract", M1 - M2, lambda o: K.Subtract(h1, h2, o)), ("Multiply", M1 * s, lambda o: K.Multiply(src=h1, factor=s, dest=o)), ("Divide", M1 / d, lambda o: K.Divide(h1, d, o))):
        o = K.JntSpaceInertiaMatrix(n); f(o); c.near("h-" + nm, mat(o), want)
    o = K.JntArray(n); K.Multiply(src=h1, vec=x, dest=o); c.near("h-vec", jnt(o), M1 @ a, 1e-9, max(1.0, np.max(np.abs(M1)) * np.max(np.abs(a)) * n if n else 1))
    c.near("h-operand", mat(h1), M1); c.ok("h-eq", h1 == KM(M1) and K.Equal(h1, KM(M1)))
    if n:
        z = KM(M1); i, j = c.k(0, n - 1), c.k(0, n - 1); z[i, j] += 0.5; c.ok("h-ne", not (h1 == z) and not K.Equal(h1, z, 0.3) and K.Equal(h1, z, 0.7), "entry (%d,%d)" % (i, j))
    z = KM(M1); K.SetToZero(z); c.near("h-SetToZero", mat(z), np.zeros((n, n))); z.resize(new_size=m); c.ok("h-resize", z.rows() == m and z.columns() == m)


def rnum(c, n): return A([c.num() for _ in range(n)]).reshape(n)


# -------------------------------------------------------------- copies, pickles, views
def anyvalue(c):
    w = c.k(0, 10)
    v = lambda: KV(rvec(c))
    if w == 0: return v()
    if w == 1: return KT(rtw(c))
    if w == 2: return KW(rtw(c))
    if w == 3: return KR(rrot(c))
    if w == 4: return KF(rfrm(c))
    if w == 5: return K.VectorVel(v(), v())
    if w == 6: return K.TwistVel(K.VectorVel(v(), v()), K.VectorVel(v(), v()))
    if w == 7: return K.RotationVel(KR(rrot(c)), v())
    if w == 8: return K.FrameVel(K.RotationVel(KR(rrot(c)), v()), K.VectorVel(v(), v()))
    if w == 9: return K.doubleVel(c.num(), c.num())
    return K.Rotation(*[c.num() for _ in range(9)])     # any matrix may be stored in a Rotation


def poke(c, o):
    """change one stored number"""
    t = type(o).__name__
    if t == "Vector": o[c.k(0, 2)] += 1.0
    elif t in ("Twist", "Wrench"): o[c.k(0, 5)] += 1.0
    elif t == "Rotation": o[c.k(0, 2), c.k(0, 2)] += 1.0
    elif t == "Frame": o[c.k(0, 2), c.k(0, 3)] += 1.0
    elif t == "doubleVel": o.grad += 1.0
    elif t == "VectorVel": poke(c, c.pick([o.p, o.v]))
    elif t == "TwistVel": poke(c, c.pick([o.vel, o.rot]))
    elif t == "RotationVel": poke(c, c.pick([o.R, o.w]))
    elif t == "FrameVel": poke(c, c.pick([o.M, o.p]))


def r_persist(c):
    o = anyvalue(c); T = type(o).__name__; keep = values(o); c.desc = "%s %s" % (T, keep)
    c.cover(T)
    ways = [("ctor", lambda q: type(q)(q)), ("copy", copy.copy), ("deepcopy", copy.deepcopy), ("deepcopy-list", lambda q: copy.deepcopy([q, {"k": q}])[1]["k"])]
    if T != "doubleVel":
        for pr in range(2, pickle.HIGHEST_PROTOCOL + 1):
            ways.append(("pickle", lambda q, pr=pr: pickle.loads(pickle.dumps(q, pr))))
        ways.append(("pickle-nested", lambda q: pickle.loads(pickle.dumps({"a": [q, (q, 1)]}))["a"][1][0]))
    for nm, f in ways:
        z = f(o)
        c.ok(nm + "-" + T, type(z) is type(o) and z is not o and values(z) == keep, lambda: "%s of a %s gives %s" % (nm, T, values(z)))
        c.ok(nm + "-eq", z == o and not (z != o) and hash(z) == hash(o), "the %s of a %s is not equal to the original" % (nm, T))
        poke(c, z)
        c.ok(nm + "-independent", values(o) == keep and z != o, "changing the %s of a %s changed the original" % (nm, T))
    if T in ("Vector", "Twist", "Wrench", "Frame", "VectorVel", "TwistVel", "FrameVel", "RotationVel"):
        st = o.__getstate__()
        c.ok("state", isinstance(st, tuple))
        bad = c.pick([st + (1.0,), st[:-1], ()])
        z = type(o).__new__(type(o))
        c.raises("bad-state", Exception, z.__setstate__, bad)
    c.ok("repr", isinstance(repr(o), str) and len(repr(o)) > 0 and str(o) == repr(o))


def r_views(c):
    """members are references into their owner, both ways"""
    f = KF(rfrm(c)); v = rvec(c); m = rrot(c); i = c.k(0, 2); s = c.u()
    c.desc = "i=%d s=%r v=%s" % (i, s, v.tolist())
    p = f.p; p[i] = s; c.near("frame-p", f[i, 3], s); f[i, 3] = s + 1; c.near("frame-p-back", p[i], s + 1)
    M = f.M; M[i, 0] = s; c.near("frame-M", f[i, 0], s); f.p = KV(v); c.near("frame-set", vec(p), v)
    src = KV(v); f.p = src; src[i] += 1; c.near("frame-set-copy", vec(f.p), v)
    t = KT(rtw(c)); t.rot[i] = s; c.near("twist-rot", t[3 + i], s); t.vel[i] = -s; c.near("twist-vel", t[i], -s); t.vel += KV(v); c.near("twist-iadd", t[i], -s + v[i], 1e-9, max(1, abs(v[i])))
    w = KW(rtw(c)); w.force[i] = s; c.near("wrench-force", w[i], s); w.torque = KV(v); c.near("wrench-torque", w[3 + i], v[i])
    fv = K.FrameVel(K.RotationVel(KR(m), KV(v)), K.VectorVel(KV(v), KV(v)))
    fv.M.R[i, i] = s; fv.M.w[i] = s; fv.p.p[i] = s; fv.p.v[i] = s
    c.near("framevel", [fv.GetFrame()[i, i], fv.GetTwist()[3 + i], fv.GetFrame()[i, 3], fv.GetTwist()[i]], [s] * 4)
    tv = K.TwistVel(); tv.vel.p[i] = s; tv.rot.v[i] = s; c.near("twistvel", [tv.GetTwist()[i], tv.GetTwistDot()[3 + i]], [s, s])
    n = c.k(1, 7); qv = K.JntArrayVel(n); j = c.k(0, n - 1); qv.q[j] = s; qv.qdot[j] = -s; c.near("qv", [qv.value()[j], qv.deriv()[j]], [s, -s])
    a = qv.value(); a[j] = 9; c.near("value-copy", qv.q[j], s)
    g = f.GetFrame() if hasattr(f, "GetFrame") else K.Frame(f); g.p[i] += 1; c.ok("copy", f.p[i] != g.p[i])
    x = KF(rfrm(c)); keepp = vec(x.p); y = x.Inverse(); y.p[i] += 1; c.near("result-own", vec(x.p), keepp)


# -------------------------------------------------------------- joints, segments, chains and their solvers
JT = [K.Joint.RotAxis, K.Joint.RotX, K.Joint.RotY, K.Joint.RotZ, K.Joint.TransAxis, K.Joint.TransX, K.Joint.TransY, K.Joint.TransZ, K.Joint.Fixed]
NAMES = {K.Joint.RotAxis: "RotAxis", K.Joint.RotX: "RotX", K.Joint.RotY: "RotY", K.Joint.RotZ: "RotZ", K.Joint.TransAxis: "TransAxis", K.Joint.TransX: "TransX", K.Joint.TransY: "TransY", K.Joint.TransZ: "TransZ", K.Joint.Fixed: "Fixed"}


class MJ:
    """model of a joint: kind, axis, origin, scale, offset, rotor inertia"""
    def __init__(s, kind, ax, og, scale=1.0, off=0.0, inertia=0.0):
        s.kind, s.ax, s.og, s.scale, s.off, s.inertia = kind, A(ax, float), A(og, float), scale, off, inertia

    def pose(s, q):
        x = s.scale * q + s.off
        if s.kind == 0: return fm(np.eye(3), s.og)          # a fixed joint built by the shorthand has no origin
        if s.kind == 1: return fm(rodr(s.ax, x), s.og)
        return fm(np.eye(3), s.og + s.ax * x)

    def twist(s, qd):
        if s.kind == 0: return np.zeros(6)
        return np.concatenate([np.zeros(3), s.ax * s.scale * qd]) if s.kind == 1 else np.concatenate([s.ax * s.scale * qd, np.zeros(3)])


def rjoint(c, movable=False):
    t = c.pick(JT[:8] if movable else JT); sc, off, inr = c.pick([1.0, -1.0, c.u(0.3, 2)]), c.pick([0.0, c.u()]), c.pick([0.0, c.u(0, 2)])
    nm = "j%d" % c.k(0, 99); named = c.p(0.5); how = c.k(0, 2)
    extra = dict(scale=sc, offset=off, inertia=inr, damping=0.3, stiffness=0.4)
    if t in (K.Joint.RotAxis, K.Joint.TransAxis):
        ax, og = A([c.u() + 0.01, c.u(), c.u()]), A([c.u(), c.u(), c.u()])
        if how == 0:
            a = ([nm] if named else []) + [KV(og), KV(ax), t, sc, off, inr, 0.3, 0.4]; j = K.Joint(*a)
        else:
            kw = dict(origin=KV(og), axis=KV(ax), type=t, **extra)
            if named: kw["name"] = nm
            j = K.Joint(**kw)
        m = MJ(1 if t == K.Joint.RotAxis else 2, ax / np.linalg.norm(ax), og, sc, off, inr)
    else:
        i = {"X": 0, "Y": 1, "Z": 2}.get(str(t).split(".")[-1][-1], 0)
        if how == 0:
            a = ([nm] if named else []) + [t, sc, off, inr, 0.3, 0.4]; j = K.Joint(*a)
        elif how == 1:
            kw = dict(type=t, **extra)
            if named: kw["name"] = nm
            j = K.Joint(**kw)
        else:
            sc, off, inr = 1.0, 0.0, 0.0
            j = K.Joint(nm, t) if named else K.Joint(t)
        kind = 0 if t == K.Joint.Fixed else (1 if "Rot" in str(t) else 2)
        m = MJ(kind, np.eye(3)[i], np.zeros(3), sc, off, inr)
    m.name, m.type = (nm if named else "NoName"), t
    return j, m


def rinertia(c):
    mass = c.u(0.1, 3); cog = A([c.u(), c.u(), c.u()]); b = A([[c.u() for _ in range(3)] for _ in range(3)]); I = b @ b.T + 0.05 * np.eye(3)
    return K.RigidBodyInertia(m=mass, oc=KV(cog), Ic=K.RotationalInertia(I[0, 0], I[1, 1], I[2, 2], I[0, 1], I[0, 2], I[1, 2])), (mass, cog, I)


class MSeg:
    pass


def rsegment(c, movable=False):
    s = MSeg(); j, s.j = rjoint(c, movable); s.tip = fm(rrot(c), [c.u(), c.u(), c.u()]); I, s.I = rinertia(c); s.name = "s%d" % c.k(0, 999)
    kj, kt = j, KF(s.tip)
    w = c.k(0, 2)
    if w == 0: k = K.Segment(s.name, kj, kt, I)
    elif w == 1: k = K.Segment(name=s.name, I=I, f_tip=kt, joint=kj)
    else: k = K.Segment(kj, kt, I); s.name = "NoName"
    return k, s


def seg_pose(s, q):
    # the tip frame of a segment is given at q = 0: pose(q) = joint(q) * joint(0)^-1 * tip
    return fmul(fmul(s.j.pose(q), finv(s.j.pose(0))), s.tip)


def fk(segs, q, upto=None):
    f = fm(np.eye(3), np.zeros(3)); i = 0
    for s in segs[:upto]:
        mov = s.j.kind != 0
        f = fmul(f, seg_pose(s, q[i] if mov else 0.0)); i += mov
    return f


def jac(segs, q, upto=None):
    n = sum(s.j.kind != 0 for s in segs); J = np.zeros((6, n)); end = fk(segs, q, upto)[:, 3]
    f = fm(np.eye(3), np.zeros(3)); i = 0
    for s in segs[:upto]:
        if s.j.kind:
            ax = f[:, :3] @ s.j.ax * s.j.scale
            if s.j.kind == 1:
                o = f[:, :3] @ s.j.og + f[:, 3]; J[:, i] = np.concatenate([np.cross(ax, end - o), ax])
            else:
                J[:, i] = np.concatenate([ax, np.zeros(3)])
            f = fmul(f, seg_pose(s, q[i])); i += 1
        else:
            f = fmul(f, seg_pose(s, 0.0))
    return J


def masses(segs, q):
    n = sum(s.j.kind != 0 for s in segs); Hm = np.zeros((n, n)); P = []
    for k in range(len(segs)):
        F = fk(segs, q, k + 1); J = jac(segs, q, k + 1); mass, cog, I = segs[k].I
        r = F[:, :3] @ cog
        Jv = np.stack([J[:3, j] + np.cross(J[3:, j], r) for j in range(n)], 1) if n else np.zeros((3, 0)); Jw = J[3:, :]
        Iw = F[:, :3] @ I @ F[:, :3].T
        Hm += mass * Jv.T @ Jv + Jw.T @ Iw @ Jw; P.append((mass, F[:, 3] + r, Jv))
    i = 0
    for s in segs:
        if s.j.kind: Hm[i, i] += s.j.inertia; i += 1
    return Hm, P


def r_joints(c):
    j, m = rjoint(c); q, qd = c.u(-3, 3), c.u(-2, 2)
    c.desc = "%s %s ax=%s og=%s scale=%r off=%r q=%r" % (m.name, m.type, m.ax.tolist(), m.og.tolist(), m.scale, m.off, q)
    c.cover(NAMES[m.type])
    c.ok("name", j.getName() == m.name, j.getName()); c.ok("type", j.getType() == m.type); c.ok("typename", j.getTypeName() == NAMES[m.type], j.getTypeName())
    c.near("pose", frm(j.pose(q=q)), m.pose(q)); c.near("twist", tw(j.twist(q_dot=qd)), m.twist(qd))
    if m.kind: c.near("axis", vec(j.JointAxis()), m.ax)
    c.near("origin", vec(j.JointOrigin()), m.og); k = K.Joint(j); c.near("copy", frm(k.pose(q)), m.pose(q)); c.ok("repr", m.name in repr(j) or len(repr(j)) > 0)
    if c.p(0.3):
        bad = c.pick([K.Joint.RotX, K.Joint.TransZ, K.Joint.RotY]); c.raises("bad-axis-type", Exception, K.Joint, KV([0, 0, 0]), KV([0, 0, 1]), bad)
        badt = c.pick([K.Joint.RotAxis, K.Joint.TransAxis]); c.raises("bad-type", Exception, K.Joint, badt)
    # segment around it
    s, ms = rsegment(c); qq = c.u(-3, 3)
    c.ok("seg-name", s.getName() == ms.name); c.near("seg-pose", frm(s.pose(q=qq)), seg_pose(ms, qq)); c.near("seg-tip", frm(s.getFrameToTip()), ms.tip); c.ok("seg-joint", s.getJoint().getName() == ms.j.name and s.getJoint().getType() == ms.j.type)
    tip = seg_pose(ms, qq)[:, 3]; t = ms.j.twist(qd); arm = tip - ms.j.og
    c.near("seg-twist", tw(s.twist(q=qq, q_dot=qd)), np.concatenate([t[:3] + np.cross(t[3:], arm), t[3:]]))
    I = s.getInertia(); mass, cog, Ic = ms.I
    Io = Ic + mass * (cog @ cog * np.eye(3) - np.outer(cog, cog)); c.near("I-mass", I.getMass(), mass); c.near("I-cog", vec(I.getCOG()), cog)
    ri = I.getRotationalInertia(); c.near("I-rot", [ri[k] for k in range(9)], Io.ravel())
    I2, (m2, c2, Ic2) = rinertia(c); s.setInertia(I_in=I2); c.near("setInertia", s.getInertia().getMass(), m2); k2 = K.Segment(s); c.near("seg-copy", k2.getInertia().getMass(), m2)
    w = rtw(c); w /= max(1, np.max(np.abs(w)))
    Io2 = Ic2 + m2 * (c2 @ c2 * np.eye(3) - np.outer(c2, c2)); hh = m2 * c2
    mom = np.concatenate([m2 * w[:3] - np.cross(hh, w[3:]), Io2 @ w[3:] + np.cross(hh, w[:3])]); c.near("I*twist", tw(I2 * KT(w)), mom, 1e-9, 50)
    a, f = c.u(0.2, 3), rfrm(c); f[:, 3] /= max(1, np.max(np.abs(f[:, 3])))
    c.near("a*I", tw((a * I2) * KT(w)), a * mom, 1e-9, 50); c.near("I+I", tw((I2 + I2) * KT(w)), 2 * mom, 1e-9, 50)
    # moving an inertia to another frame keeps the kinetic energy
    X = KF(f); Ik = X * I2; tt = KT(w); e1 = K.dot(X * tt, Ik * (X * tt)); c.near("F*I-energy", e1, w @ mom, 1e-8, 200)
    Rk = KR(f[:, :3]); c.near("R*I-energy", K.dot(Rk * tt, (Rk * I2) * (Rk * tt)), w @ mom, 1e-8, 200)
    p = A([c.u(), c.u(), c.u()]); Ip = I2.RefPoint(p=KV(p)); c.near("I-RefPoint", K.dot(tt.RefPoint(KV(p)), Ip * tt.RefPoint(KV(p))), w @ mom, 1e-8, 200); c.near("I-RefPoint-cog", vec(Ip.getCOG()), c2 - p)
    r1 = K.RotationalInertia(Ixx=1, Iyy=2, Izz=3, Ixy=4, Ixz=5, Iyz=6); c.near("ri-kw", [r1[k] for k in range(9)], [1, 4, 5, 4, 2, 6, 5, 6, 3]); r2 = a * r1 + r1; c.near("ri-ops", [r2[k] for k in range(9)], (a + 1) * A([1, 4, 5, 4, 2, 6, 5, 6, 3.]))
    v = rvec(c); c.near("ri*v", vec(r1 * KV(v)), A([[1, 4, 5], [4, 2, 6], [5, 6, 3]]) @ v, 1e-9, max(1, 15 * np.max(np.abs(v)))); r1[3] = a; c.near("ri-set", r1[3], a); c.near("ri-Zero", [K.RotationalInertia.Zero()[k] for k in range(9)], np.zeros(9))
    c.near("I-Zero", K.RigidBodyInertia.Zero().getMass(), 0.0)


def rchain(c, nmin=1, nmax=8, movable=False):
    n = c.k(nmin, nmax); ch = K.Chain(); segs = []
    for _ in range(n):
        k, s = rsegment(c, movable); ch.addSegment(segment=k); segs.append(s)
    return ch, segs


def r_chains(c):
    ch, segs = rchain(c, 1, 8); n = sum(s.j.kind != 0 for s in segs); q, qd = A([c.u(-3, 3) for _ in range(n)]).reshape(n), A([c.u(-2, 2) for _ in range(n)]).reshape(n)
    c.desc = "%d segments, types %s, q=%s" % (len(segs), [str(s.j.type).split(".")[1] for s in segs], q.tolist())
    c.cover("nj%d" % n)
    c.ok("sizes", ch.getNrOfJoints() == n and ch.getNrOfSegments() == len(segs)); c.ok("names", [ch.getSegment(index=i).getName() for i in range(len(segs))] == [s.name for s in segs])
    ch2 = K.Chain(ch); ch2.addChain(chain=ch); c.ok("addChain", ch2.getNrOfSegments() == 2 * len(segs) and ch2.getNrOfJoints() == 2 * n and ch.getNrOfSegments() == len(segs))
    sc = 10.0
    pos = K.ChainFkSolverPos_recursive(chain=ch); F = K.Frame(); kq = KJ(q); r = pos.JntToCart(kq, F)
    c.ok("fk-ret", r == 0, r); c.near("fk", frm(F), fk(segs, q), 1e-9, sc); u = c.k(0, len(segs)); c.ok("fk-seg-ret", pos.JntToCart(q_in=kq, p_out=F, segmentNr=u) == 0); c.near("fk-seg", frm(F), fk(segs, q, u), 1e-9, sc)
    c.near("fk-operand", jnt(kq), q)
    bad = K.JntArray(n + 1); r = pos.JntToCart(bad, F); c.ok("fk-badsize", r < 0 and pos.getError() == r, "code %r" % r); c.ok("fk-strError", isinstance(pos.strError(r), str) and len(pos.strError(r)) > 3)
    c.ok("fk-badseg", pos.JntToCart(kq, F, len(segs) + 1) < 0)
    J = K.Jacobian(n); js = K.ChainJntToJacSolver(chain=ch); c.ok("jac-ret", js.JntToJac(kq, J) == 0); Jm = jac(segs, q); c.near("jac", mat(J), Jm, 1e-9, sc)
    c.ok("jac-seg-ret", js.JntToJac(q_in=kq, jac=J, seg_nr=u) == 0); c.near("jac-seg", mat(J), jac(segs, q, u), 1e-9, sc); c.ok("jac-badsize", js.JntToJac(kq, K.Jacobian(n + 1)) < 0)
    if n:
        lk = [c.p(0.4) for _ in range(n)]; r = js.setLockedJoints(locked_joints=lk); c.ok("lock-ret", r >= 0, r); free = [i for i in range(n) if not lk[i]]
        Jl = K.Jacobian(n); c.ok("lock-jac-ret", js.JntToJac(kq, Jl) == 0); g = mat(Jl)
        want = np.zeros((6, n)); want[:, :len(free)] = Jm[:, free]      # the free columns, packed to the left
        c.near("lock-jac", g, want, 1e-9, sc); c.ok("lock-badsize", js.setLockedJoints([True] * (n + 1)) < 0)
    vel = K.ChainFkSolverVel_recursive(chain=ch); kv = K.JntArrayVel(kq, KJ(qd)); G = K.FrameVel(); c.ok("fkv-ret", vel.JntToCart(q_in=kv, p_out=G) == 0); c.near("fkv", frm(G.GetFrame()), fk(segs, q), 1e-9, sc); c.near("fkv-t", tw(G.GetTwist()), Jm @ qd if n else np.zeros(6), 1e-8, sc * 4)
    # Jacobian derivative: central differences of the model
    if n:
        jd = K.ChainJntToJacDotSolver(chain=ch); JD = K.Jacobian(n); h = 1e-5; c.ok("jd-ret", jd.JntToJacDot(kv, JD) == 0); num_ = (jac(segs, q + h * qd) - jac(segs, q - h * qd)) / (2 * h); c.near("jd", mat(JD), num_, 1e-6, 100)
        t = K.Twist(); c.ok("jd-t-ret", jd.JntToJacDot(q_in=kv, jac_dot_q_dot=t, seg_nr=-1) == 0); c.near("jd-t", tw(t), num_ @ qd, 1e-6, 200)
        c.ok("jd-consts", (K.ChainJntToJacDotSolver.HYBRID, K.ChainJntToJacDotSolver.BODYFIXED, K.ChainJntToJacDotSolver.INERTIAL) == (0, 1, 2) and len({K.ChainJntToJacDotSolver.E_JAC_DOT_FAILED, K.ChainJntToJacDotSolver.E_JACSOLVER_FAILED, K.ChainJntToJacDotSolver.E_FKSOLVERPOS_FAILED}) == 3)
        w = c.k(0, 2); by = K.ChainJntToJacDotSolver(ch); by.setRepresentation(representation=w); [jd.setHybridRepresentation, jd.setBodyFixedRepresentation, jd.setInertialRepresentation][w]()
        a, b = K.Jacobian(n), K.Jacobian(n); jd.JntToJacDot(kv, a); by.JntToJacDot(kv, b); c.near("jd-repr", mat(a), mat(b), 1e-12, 100)
        def Jrep(qq):
            Fq = fk(segs, qq); Jq = jac(segs, qq)
            if w == 0: return Jq
            if w == 1: return np.stack([rt(Fq[:, :3].T, Jq[:, k]) for k in range(n)], 1)
            return np.stack([reft(Jq[:, k], -Fq[:, 3]) for k in range(n)], 1)
        c.near("jd-rep-value", mat(a), (Jrep(q + h * qd) - Jrep(q - h * qd)) / (2 * h), 1e-6, 300)
    # dynamics
    grav = A([c.u(-10, 10), c.u(-10, 10), c.u(-10, 10)]); dyn = K.ChainDynParam(ch, KV(grav)); Hm, P = masses(segs, q); M = K.JntSpaceInertiaMatrix(n); g = K.JntArray(n); co = K.JntArray(n)
    c.ok("mass-ret", dyn.JntToMass(q=kq, H=M) == 0); c.near("mass", mat(M), Hm, 1e-8, max(1, np.max(np.abs(Hm)) if n else 1))
    gw = -sum((m_ * Jv.T @ grav for m_, _, Jv in P), np.zeros(n)); c.ok("grav-ret", dyn.JntToGravity(q=kq, gravity=g) == 0); c.near("grav", jnt(g), gw, 1e-8, 500)
    c.ok("cor-ret", dyn.JntToCoriolis(q=kq, q_dot=KJ(qd), coriolis=co) == 0)
    if n:
        cw = coriolis(segs, q, qd); c.near("coriolis", jnt(co), cw, 2e-5, max(10, np.max(np.abs(cw))))
        qdd = A([c.u(-2, 2) for _ in range(n)]); ext = [rtw(c) / 1e6 if c.p(0.2) else A([c.u() for _ in range(6)]) for _ in segs]; rne = K.ChainIdSolver_RNE(chain=ch, grav=KV(grav)); tau = K.JntArray(n)
        wr = [KW(e) for e in ext]; c.ok("rne-ret", rne.CartToJnt(q=kq, q_dot=KJ(qd), q_dot_dot=KJ(qdd), f_ext=wr, torques=tau) == 0)
        # external wrenches act at the segment's own frame and in its axes
        fx = np.zeros(n)
        for k in range(len(segs)):
            Fk = fk(segs, q, k + 1); Jk = jac(segs, q, k + 1); fx += Jk.T @ rt(Fk[:, :3], ext[k])
        c.near("rne", jnt(tau), Hm @ qdd + cw + gw - fx, 2e-5, max(50, np.max(np.abs(cw)))); c.ok("rne-wr", all(np.array_equal(tw(a), b) for a, b in zip(wr, ext)))
        c.ok("rne-badsize", rne.CartToJnt(kq, KJ(qd), KJ(qdd), wr[:-1], tau) < 0); c.ok("dyn-badsize", dyn.JntToMass(K.JntArray(n + 1), M) < 0)
    # growing the chain: solvers notice, and catch up when told to
    k, s = rsegment(c, True); ch.addSegment(k); q3 = np.append(q, 0.3); r = js.JntToJac(KJ(q3), K.Jacobian(n + 1)); c.ok("grown-stale", r < 0, "code %r" % r)
    js.updateInternalDataStructures(); J = K.Jacobian(n + 1); c.ok("grown-jac-ret", js.JntToJac(KJ(q3), J) == 0)
    pos.updateInternalDataStructures(); c.ok("grown-ret", pos.JntToCart(KJ(q3), F) == 0); c.near("grown", frm(F), fk(segs + [s], q3), 1e-9, sc)


def coriolis(segs, q, qd):
    """C(q,qd) qd = dM/dt qd - 1/2 d(qd' M qd)/dq by differences of the model"""
    n = len(q); h = 1e-4
    def d(f, e):   # 4th order
        return (8 * (f(e * h) - f(-e * h)) - (f(2 * e * h) - f(-2 * e * h))) / (12 * h)
    Md = d(lambda x: masses(segs, q + x)[0], qd)
    g = A([qd @ d(lambda x: masses(segs, q + x)[0], np.eye(n)[i]) @ qd for i in range(n)])
    return Md @ qd - g / 2


def wellchain(c, n):
    ch = K.Chain(); segs = []
    for i in range(n):
        s = MSeg(); kd = c.pick([K.Joint.RotX, K.Joint.RotY, K.Joint.RotZ]); e = {"X": 0, "Y": 1, "Z": 2}[str(kd)[-1]]; s.j = MJ(1, np.eye(3)[e], np.zeros(3)); s.tip = fm(rrot(c), [c.u(0.2, 0.6), c.u(-0.3, 0.3), c.u(0.1, 0.5)])
        s.I = None; ch.addSegment(K.Segment("s%d" % i, K.Joint("j%d" % i, kd), KF(s.tip))); segs.append(s)
    return ch, segs


def r_inverse(c):
    n = c.pick([6, 6, 7, 8, 3]); ch, segs = wellchain(c, n); q = A([c.u(-2, 2) for _ in range(n)]); J = jac(segs, q); sv = np.linalg.svd(J, compute_uv=False)
    if sv[min(n, 6) - 1] < 0.05: c.cover("near-singular"); return
    qd = A([c.u() for _ in range(n)]); v = J @ qd; kq = KJ(q); c.desc = "n=%d q=%s" % (n, q.tolist()); c.cover("n%d" % n)
    pin = np.linalg.pinv(J)
    o = K.JntArray(n)
    s1 = K.ChainIkSolverVel_pinv(chain=ch, eps=1e-5, maxiter=150); c.ok("pinv-ret", s1.CartToJnt(q_in=kq, v_in=KT(v), q_dot_out=o) == 0); c.near("pinv", jnt(o), pin @ v, 1e-6)
    s2 = K.ChainIkSolverVel_pinv_givens(chain=ch); c.ok("givens-ret", s2.CartToJnt(kq, KT(v), o) >= 0); c.near("givens", J @ jnt(o), v, 1e-5)
    s3 = K.ChainIkSolverVel_wdls(chain=ch, maxiter=150, eps=1e-5); c.ok("wdls-ret", s3.CartToJnt(kq, KT(v), o) >= 0); c.near("wdls", jnt(o), pin @ v, 1e-5)
    c.near("wdls-sigmaMin", s3.getSigmaMin(), np.linalg.svd(J, compute_uv=False)[-1] if n >= 6 else s3.getSigmaMin(), 1e-6)
    sig = np.full(n, -1.0); r = s3.getSigma(sigma_out=sig); c.ok("wdls-sigma-ret", r == 0, r); c.near("wdls-sigma", np.sort(sig)[::-1][:min(n, 6)], sv[:min(n, 6)], 1e-6)
    short = np.zeros(n + 1); c.ok("wdls-sigma-badsize", s3.getSigma(short) < 0)
    lam, eps = c.u(0.01, 0.5), c.u(1e-4, 2); s3.setLambda(**{"lambda": lam}); s3.setEps(eps=eps); s3.setMaxIter(max_iter=200); c.near("wdls-get", [s3.getLambda(), s3.getEps()], [lam, eps]); c.ok("wdls-svd", s3.getSVDResult() == 0)
    W = np.diag([c.u(0.3, 2) for _ in range(6)]); Q = np.diag([c.u(0.3, 2) for _ in range(n)]); c.ok("wdls-W-ret", s3.setWeightTS(matrix=W) == 0 and s3.setWeightJS(matrix=Q) == 0)
    c.ok("wdls-W-badsize", s3.setWeightTS(np.eye(5)) < 0 and s3.setWeightJS(np.eye(n + 1)) < 0)
    s3.setLambda(0.0); s3.setEps(1e-12); c.ok("wdls-w-ret", s3.CartToJnt(kq, KT(v), o) >= 0); want = Q @ np.linalg.pinv(W @ J @ Q) @ W @ v; c.near("wdls-weighted", jnt(o), want, 1e-5)
    s4 = K.ChainIkSolverVel_pinv_nso(chain=ch, eps=1e-5, maxiter=150, alpha=0.3); c.near("nso-alpha", s4.getAlpha(), 0.3); s4.setAlpha(alpha=0.5); c.near("nso-alpha2", s4.getAlpha(), 0.5)
    op_ = A([c.u() for _ in range(n)]); we = A([c.u(0.1, 1) for _ in range(n)]); c.ok("nso-set", s4.setOptPos(opt_pos=KJ(op_)) == 0 and s4.setWeights(weights=KJ(we)) == 0); c.near("nso-get", np.concatenate([jnt(s4.getOptPos()), jnt(s4.getWeights())]), np.concatenate([op_, we]))
    cp = s4.getWeights(); cp[0] += 1; c.near("nso-get-copy", jnt(s4.getWeights()), we); c.ok("nso-badsize", s4.setOptPos(K.JntArray(n + 1)) < 0 and s4.setWeights(K.JntArray(n - 1)) < 0)
    c.ok("nso-ret", s4.CartToJnt(kq, KT(v), o) >= 0); c.near("nso-task", J @ jnt(o), v, 1e-6)
    for s, nm in ((s1, "pinv"), (s2, "givens"), (s3, "wdls"), (s4, "nso")):
        bad = K.JntArray(n + 1); c.ok("badsize-" + nm, s.CartToJnt(bad, KT(v), o) < 0 and s.CartToJnt(kq, KT(v), bad) < 0 and s.getError() < 0)
    # position
    goal = fk(segs, q); q0 = q + A([c.u(-0.15, 0.15) for _ in range(n)]); pos = K.ChainFkSolverPos_recursive(ch); F = K.Frame()
    lo, hi = KJ(q - 2.0), KJ(q + 2.0)
    L = A([1, 1, 1, 0.1, 0.1, 0.1]).reshape(6, 1)
    for nm, s in (("nr", K.ChainIkSolverPos_NR(chain=ch, fksolver=pos, iksolver=s1, maxiter=100, eps=1e-8)), ("nr_jl", K.ChainIkSolverPos_NR_JL(chain=ch, q_min=lo, q_max=hi, fksolver=pos, iksolver=s1, maxiter=200, eps=1e-8)),
                  ("lma", K.ChainIkSolverPos_LMA(chain=ch, L=L, eps=1e-7, maxiter=500, eps_joints=1e-15)), ("lma2", K.ChainIkSolverPos_LMA(chain=ch, eps=1e-7, maxiter=500, eps_joints=1e-15))):
        o = K.JntArray(n); k0 = KJ(q0); r = s.CartToJnt(q_init=k0, p_in=KF(goal), q_out=o); c.near(nm + "-operand", jnt(k0), q0)
        if r >= 0:
            pos.JntToCart(o, F); c.near(nm + "-goal", frm(F), goal, 1e-4); c.cover(nm + "-ok")
            if nm == "nr_jl": c.ok("nr_jl-limits", bool(np.all(jnt(o) >= q - 2.0) and np.all(jnt(o) <= q + 2.0)))
        else: c.cover(nm + "-gave-up")
        c.ok(nm + "-badsize", s.CartToJnt(K.JntArray(n + 1), KF(goal), o) < 0 and s.CartToJnt(k0, KF(goal), K.JntArray(n + 1)) < 0); c.ok(nm + "-error", s.getError() < 0)
    far = goal.copy(); far[0, 3] += 100; s = K.ChainIkSolverPos_NR(ch, pos, s1, 3, 1e-8); o = K.JntArray(n); c.ok("nr-unreachable", s.CartToJnt(KJ(q0), KF(far), o) < 0)


def r_trees(c):
    t = K.Tree(root_name="base") if c.p(0.5) else K.Tree(); root = "base" if repr(t).find("base") >= 0 else "root"; nodes = {root: []}; n = c.k(1, 10); nj = 0
    for i in range(n):
        k, s = rsegment(c); s.name = "n%d" % i; k = K.Segment(s.name, k.getJoint(), KF(s.tip), k.getInertia()); hook = c.pick(sorted(nodes))
        c.ok("add", t.addSegment(segment=k, hook_name=hook) is True); nodes[s.name] = nodes[hook] + [s]; nj += s.j.kind != 0
    c.desc = "%d segments, root %s" % (n, root)
    c.ok("sizes", t.getNrOfSegments() == n and t.getNrOfJoints() == nj); c.ok("add-unknown", t.addSegment(K.Segment("x"), "nowhere") is False); c.ok("add-dup", t.addSegment(K.Segment("n0"), root) is False and t.getNrOfSegments() == n)
    tip = c.pick([x for x in sorted(nodes) if x != root]); ch = t.getChain(chain_root=root, chain_tip=tip); path = nodes[tip]; m = sum(s.j.kind != 0 for s in path)
    c.ok("chain-size", ch.getNrOfSegments() == len(path) and ch.getNrOfJoints() == m); q = A([c.u(-2, 2) for _ in range(m)]).reshape(m); F = K.Frame(); c.ok("chain-fk-ret", K.ChainFkSolverPos_recursive(ch).JntToCart(KJ(q), F) == 0); c.near("chain-fk", frm(F), fk(path, q), 1e-9, 10)
    h = nodes[tip][-1].name; anc = c.pick([root] + [s.name for s in path]); sub = t.getChain(anc, tip); rest = path[len(nodes[anc]):]; c.ok("sub-size", sub.getNrOfSegments() == len(rest))
    mine, segs = rchain(c, 1, 4)
    # names must be new for the tree to accept the chain
    ch2 = K.Chain(); uniq = []
    for i, s in enumerate(segs):
        g = mine.getSegment(i); ch2.addSegment(K.Segment("c%d" % i, g.getJoint(), g.getFrameToTip(), g.getInertia())); uniq.append(s)
    c.ok("addChain", t.addChain(chain=ch2, hook_name=tip) is True and t.getNrOfSegments() == n + len(segs)); full = t.getChain(root, "c%d" % (len(segs) - 1)); c.ok("addChain-path", full.getNrOfSegments() == len(path) + len(segs))
    q = A([c.u(-2, 2) for _ in range(full.getNrOfJoints())]).reshape(-1); K.ChainFkSolverPos_recursive(full).JntToCart(KJ(q), F); c.near("addChain-fk", frm(F), fk(path + uniq, q), 1e-9, 15)
    t2 = K.Tree("root2"); t2.addSegment(K.Segment("z0", K.Joint(K.Joint.RotX)), "root2"); c.ok("addTree", t2.addTree(tree=K.Tree("e"), hook_name="z0") in (True, False)); t3 = K.Tree("q"); t3.addSegment(K.Segment("y0", K.Joint(K.Joint.RotZ)), "q"); c.ok("addTree-real", t2.addTree(t3, "z0") is True and t2.getNrOfSegments() >= 2 and t2.getNrOfJoints() == 2)
    # the tree and the chains taken from it are independent
    ch.addSegment(K.Segment("more")); c.ok("own", t.getNrOfSegments() == n + len(segs)); s0 = full.getSegment(0); s0.setInertia(K.RigidBodyInertia(77.0)); c.ok("own-seg", t.getChain(root, tip).getSegment(0).getInertia().getMass() != 77.0)


H.rule("vectors", 400, r_vectors)
H.rule("screws", 250, r_screws)
H.rule("rotations", 300, r_rotations)
H.rule("frames", 400, r_frames)
H.rule("velocities", 120, r_velocities)
H.rule("arrays", 150, r_arrays)
H.rule("persist", 600, r_persist)
H.rule("views", 300, r_views)
H.rule("joints", 300, r_joints)
H.rule("chains", 120, r_chains)
H.rule("inverse", 80, r_inverse)
H.rule("trees", 150, r_trees)
H.run()
