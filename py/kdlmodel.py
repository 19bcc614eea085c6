"""numpy models of the KDL values: conversion from/to PyKDL objects and the maths."""
import math
import numpy as np
import PyKDL as K

A = np.array


def vec(v): return A([v.x(), v.y(), v.z()])
def rot(r): return A([[r[i, j] for j in range(3)] for i in range(3)])
def frm(f): return A([[f[i, j] for j in range(4)] for i in range(3)])
def tw(t): return A([t[i] for i in range(6)])
def jnt(q): return A([q[i] for i in range(q.rows())])
def mat(m): return A([[m[i, j] for j in range(m.columns())] for i in range(m.rows())]).reshape(m.rows(), m.columns())


def KV(a): return K.Vector(float(a[0]), float(a[1]), float(a[2]))
def KR(m): return K.Rotation(*[float(m[i][j]) for i in range(3) for j in range(3)])
def KF(m): return K.Frame(KR(m), KV([r[3] for r in m]))
def KT(a): return K.Twist(KV(a[:3]), KV(a[3:]))
def KW(a): return K.Wrench(KV(a[:3]), KV(a[3:]))


def KJ(a):
    q = K.JntArray(len(a))
    for i, x in enumerate(a):
        q[i] = float(x)
    return q


def sk(a): return A([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0.]])


def rodr(ax, th):
    ax = A(ax, float); n = np.linalg.norm(ax)
    if n == 0: return np.eye(3)
    k = sk(ax / n)
    return np.eye(3) + math.sin(th) * k + (1 - math.cos(th)) * (k @ k)


def rx(t): return rodr([1, 0, 0], t)
def ry(t): return rodr([0, 1, 0], t)
def rz(t): return rodr([0, 0, 1], t)


def logr(m):
    """rotation vector of a rotation matrix, for angles below pi"""
    c = (np.trace(m) - 1) / 2
    w = A([m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1]]) / 2
    s = np.linalg.norm(w)
    th = math.atan2(s, c)
    return w * (th / s) if s > 1e-12 else w


def quat(m):
    """quaternion -> matrix is checked the other way round"""
    x, y, z, w = m
    return A([[w*w+x*x-y*y-z*z, 2*x*y-2*w*z, 2*x*z+2*w*y], [2*x*y+2*w*z, w*w-x*x+y*y-z*z, 2*y*z-2*w*x], [2*x*z-2*w*y, 2*y*z+2*w*x, w*w-x*x-y*y+z*z]])


def fm(R, p): return np.hstack([R, A(p).reshape(3, 1)])
def fmul(a, b): return fm(a[:, :3] @ b[:, :3], a[:, :3] @ b[:, 3] + a[:, 3])
def finv(a): return fm(a[:, :3].T, -a[:, :3].T @ a[:, 3])
def rt(R, t): return np.concatenate([R @ t[:3], R @ t[3:]])


def ft(F, t):
    r = F[:, :3] @ t[3:]
    return np.concatenate([F[:, :3] @ t[:3] + np.cross(F[:, 3], r), r])


def fw(F, w):
    f = F[:, :3] @ w[:3]
    return np.concatenate([f, F[:, :3] @ w[3:] + np.cross(F[:, 3], f)])


def reft(t, b): return np.concatenate([t[:3] + np.cross(t[3:], b), t[3:]])
def refw(w, b): return np.concatenate([w[:3], w[3:] + np.cross(w[:3], b)])


# ---- random values -------------------------------------------------------
def rvec(c): return A([c.num() for _ in range(3)])


def rrot(c):
    w = c.k(0, 5)
    if w == 0: return rodr([[1, 0, 0], [0, 1, 0], [0, 0, 1]][c.k(0, 2)], c.k(-4, 4) * math.pi / 4)
    return rodr([c.u() + 1e-3, c.u(), c.u()], c.u(-3.1, 3.1))


def rfrm(c): return fm(rrot(c), rvec(c))
def rtw(c): return A([c.num() for _ in range(6)])
