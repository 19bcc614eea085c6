// Independent reference model in long double: written from the documented
// semantics, sharing no code with the library under test.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <array>

namespace ref {
typedef long double R;
const R PI = 3.14159265358979323846264338327950288L;

struct V3 {
    R v[3];
    V3(R a = 0, R b = 0, R c = 0) { v[0] = a; v[1] = b; v[2] = c; }
    R& operator[](int i) { return v[i]; }
    R operator[](int i) const { return v[i]; }
};
inline V3 operator+(const V3& a, const V3& b) { return V3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 operator-(const V3& a, const V3& b) { return V3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 operator-(const V3& a) { return V3(-a[0], -a[1], -a[2]); }
inline V3 operator*(const V3& a, R s) { return V3(a[0] * s, a[1] * s, a[2] * s); }
inline V3 operator*(R s, const V3& a) { return a * s; }
inline V3 operator/(const V3& a, R s) { return V3(a[0] / s, a[1] / s, a[2] / s); }
inline R dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3& a, const V3& b) {
    return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
inline R norm(const V3& a) { return sqrtl(dot(a, a)); }
inline V3 unit(const V3& a) { return a / norm(a); }

struct M3 {
    R m[3][3];
    M3() { for (auto& r : m) for (R& x : r) x = 0; }
    static M3 I() { M3 a; for (int i = 0; i < 3; i++) a.m[i][i] = 1; return a; }
    R* operator[](int i) { return m[i]; }
    const R* operator[](int i) const { return m[i]; }
};
inline M3 operator*(const M3& a, const M3& b) {
    M3 c;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) c[i][j] += a[i][k] * b[k][j];
    return c;
}
inline V3 operator*(const M3& a, const V3& x) {
    V3 y;
    for (int i = 0; i < 3; i++) y[i] = a[i][0] * x[0] + a[i][1] * x[1] + a[i][2] * x[2];
    return y;
}
inline M3 operator+(const M3& a, const M3& b) { M3 c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i][j] = a[i][j] + b[i][j]; return c; }
inline M3 operator-(const M3& a, const M3& b) { M3 c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i][j] = a[i][j] - b[i][j]; return c; }
inline M3 operator*(const M3& a, R s) { M3 c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i][j] = a[i][j] * s; return c; }
inline M3 T(const M3& a) { M3 c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i][j] = a[j][i]; return c; }
inline M3 skew(const V3& v) {
    M3 a;
    a[0][1] = -v[2]; a[0][2] = v[1]; a[1][0] = v[2]; a[1][2] = -v[0]; a[2][0] = -v[1]; a[2][1] = v[0];
    return a;
}
inline R det(const M3& a) {
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) +
           a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
// rotation about unit axis k by angle t (Rodrigues)
inline M3 rot(const V3& k, R t) {
    M3 K = skew(k);
    return M3::I() + K * sinl(t) + (K * K) * (2 * sinl(t / 2) * sinl(t / 2));
}
inline M3 rotx(R t) { return rot(V3(1, 0, 0), t); }
inline M3 roty(R t) { return rot(V3(0, 1, 0), t); }
inline M3 rotz(R t) { return rot(V3(0, 0, 1), t); }
// angle of a rotation, accurate at 0 and pi
inline R angleOf(const M3& r) {
    V3 w(r[2][1] - r[1][2], r[0][2] - r[2][0], r[1][0] - r[0][1]);
    return atan2l(norm(w), r[0][0] + r[1][1] + r[2][2] - 1);
}
struct T4 {
    M3 M;
    V3 p;
    T4() : M(M3::I()) {}
    T4(const M3& m, const V3& q) : M(m), p(q) {}
};
inline T4 operator*(const T4& a, const T4& b) { return T4(a.M * b.M, a.M * b.p + a.p); }
inline V3 operator*(const T4& a, const V3& x) { return a.M * x + a.p; }
inline T4 inv(const T4& a) { M3 t = T(a.M); return T4(t, -(t * a.p)); }

// (linear velocity of reference point, angular velocity) or (force, moment)
struct S6 {
    V3 a, b;
    S6() {}
    S6(const V3& x, const V3& y) : a(x), b(y) {}
    R operator[](int i) const { return i < 3 ? a[i] : b[i - 3]; }
};
inline S6 operator+(const S6& x, const S6& y) { return S6(x.a + y.a, x.b + y.b); }
inline S6 operator-(const S6& x, const S6& y) { return S6(x.a - y.a, x.b - y.b); }
inline S6 operator*(const S6& x, R s) { return S6(x.a * s, x.b * s); }

enum JT { RotAxis, RotX, RotY, RotZ, TransAxis, TransX, TransY, TransZ, Fixed };
struct JointSpec {
    std::string name;
    JT type = Fixed;
    V3 origin, axis{0, 0, 1};
    R scale = 1, offset = 0, inertia = 0, damping = 0, stiffness = 0;
    V3 unitAxis() const {
        switch (type) {
        case RotX: case TransX: return V3(1, 0, 0);
        case RotY: case TransY: return V3(0, 1, 0);
        case RotZ: case TransZ: return V3(0, 0, 1);
        case RotAxis: case TransAxis: return unit(axis);
        default: return V3();
        }
    }
    bool rotational() const { return type == RotAxis || type == RotX || type == RotY || type == RotZ; }
    bool fixed() const { return type == Fixed; }
    bool hasOrigin() const { return type == RotAxis || type == TransAxis; }
    T4 pose(R q) const {
        if (fixed()) return T4();
        R t = scale * q + offset;
        V3 o = hasOrigin() ? origin : V3();
        if (rotational()) return T4(rot(unitAxis(), t), o);
        return T4(M3::I(), o + unitAxis() * t);
    }
};
struct SegSpec {
    std::string name;
    JointSpec j;
    T4 ftip;      // as given by the user: tip pose at q = 0
    R m = 0;      // mass
    V3 cog;       // in the tip frame
    M3 Ic;        // about the centre of gravity, axes of the tip frame
    T4 pose(R q) const { return j.pose(q) * inv(j.pose(0)) * ftip; }
};
typedef std::vector<SegSpec> ChainSpec;
inline int nj(const ChainSpec& c) { int n = 0; for (auto& s : c) n += !s.j.fixed(); return n; }

typedef std::vector<R> VecR;
typedef std::vector<VecR> MatR;

// pose of the tip of segment number `upto` (count of segments composed)
inline T4 fk(const ChainSpec& c, const VecR& q, int upto = -1) {
    if (upto < 0) upto = int(c.size());
    T4 t;
    int j = 0;
    for (int i = 0; i < upto; i++) {
        R qi = 0;
        if (!c[i].j.fixed()) qi = q[j++];
        t = t * c[i].pose(qi);
    }
    return t;
}
// geometric Jacobian from first principles (base frame, reference point = tip)
inline std::vector<S6> jac(const ChainSpec& c, const VecR& q, int upto = -1) {
    if (upto < 0) upto = int(c.size());
    V3 tip = fk(c, q, upto).p;
    std::vector<S6> J(nj(c));
    T4 t;
    int j = 0;
    for (int i = 0; i < upto; i++) {
        const JointSpec& js = c[i].j;
        R qi = 0;
        if (!js.fixed()) {
            qi = q[j];
            V3 ax = t.M * js.unitAxis() * js.scale;
            if (js.rotational()) J[j] = S6(cross(ax, tip - t * (js.hasOrigin() ? js.origin : V3())), ax);
            else J[j] = S6(ax, V3());
            j++;
        }
        t = t * c[i].pose(qi);
    }
    return J;
}
inline S6 jmul(const std::vector<S6>& J, const VecR& qd) {
    S6 t;
    for (size_t i = 0; i < J.size(); i++) t = t + J[i] * qd[i];
    return t;
}
// derivative d/dq_k of the Jacobian columns, closed form through differences in
// long double (h chosen so the error is ~1e-11 relative)
inline std::vector<S6> jacdotNum(const ChainSpec& c, const VecR& q, const VecR& qd, int upto = -1) {
    const R h = 1e-5L;
    VecR qp(q), qm(q), qp2(q), qm2(q);
    for (size_t i = 0; i < q.size(); i++) { qp[i] += h * qd[i]; qm[i] -= h * qd[i]; qp2[i] += 2 * h * qd[i]; qm2[i] -= 2 * h * qd[i]; }
    auto A = jac(c, qp, upto), B = jac(c, qm, upto), A2 = jac(c, qp2, upto), B2 = jac(c, qm2, upto);
    std::vector<S6> D(A.size());
    for (size_t i = 0; i < A.size(); i++) D[i] = ((A[i] - B[i]) * 8 - (A2[i] - B2[i])) * (1 / (12 * h));
    return D;
}

// joint-space mass matrix by summing body kinetic energies (no recursion)
inline MatR massMatrix(const ChainSpec& c, const VecR& q) {
    int n = nj(c);
    MatR M(n, VecR(n, 0));
    int j = 0;
    for (size_t s = 0; s < c.size(); s++) {
        T4 t = fk(c, q, int(s) + 1);
        auto J = jac(c, q, int(s) + 1);
        V3 rc = t.M * c[s].cog;
        M3 Iw = t.M * c[s].Ic * T(t.M);
        std::vector<V3> Jv(n), Jw(n);
        for (int i = 0; i < n; i++) { Jw[i] = J[i].b; Jv[i] = J[i].a + cross(J[i].b, rc); }
        for (int a = 0; a < n; a++)
            for (int b = 0; b < n; b++) M[a][b] += c[s].m * dot(Jv[a], Jv[b]) + dot(Jw[a], Iw * Jw[b]);
        if (!c[s].j.fixed()) { M[j][j] += c[s].j.inertia; j++; }
    }
    return M;
}
inline R potential(const ChainSpec& c, const VecR& q, const V3& g) {
    R u = 0;
    for (size_t s = 0; s < c.size(); s++) u -= c[s].m * dot(g, fk(c, q, int(s) + 1) * c[s].cog);
    return u;
}
inline VecR gravityTorque(const ChainSpec& c, const VecR& q, const V3& g) {
    int n = nj(c);
    VecR t(n, 0);
    for (size_t s = 0; s < c.size(); s++) {
        T4 x = fk(c, q, int(s) + 1);
        V3 rc = x.M * c[s].cog;
        auto J = jac(c, q, int(s) + 1);
        for (int i = 0; i < n; i++) t[i] -= c[s].m * dot(g, J[i].a + cross(J[i].b, rc));
    }
    return t;
}
// C(q,qd) qd = Mdot qd - 1/2 d/dq (qd' M qd), by 4th order differences
inline VecR coriolis(const ChainSpec& c, const VecR& q, const VecR& qd) {
    int n = nj(c);
    const R h = 1e-4L;
    auto shift = [&](int k, R s) {
        VecR x(q);
        if (k < 0) for (int i = 0; i < n; i++) x[i] += s * qd[i];
        else x[k] += s;
        return massMatrix(c, x);
    };
    auto apply = [&](const MatR& M, VecR& out) { out.assign(n, 0); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) out[i] += M[i][k] * qd[k]; };
    auto quad = [&](const MatR& M) { R s = 0; for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) s += qd[i] * M[i][k] * qd[k]; return s; };
    VecR a, b, a2, b2, res(n);
    apply(shift(-1, h), a); apply(shift(-1, -h), b); apply(shift(-1, 2 * h), a2); apply(shift(-1, -2 * h), b2);
    for (int i = 0; i < n; i++) {
        R md = (8 * (a[i] - b[i]) - (a2[i] - b2[i])) / (12 * h);
        R dT = (8 * (quad(shift(i, h)) - quad(shift(i, -h))) - (quad(shift(i, 2 * h)) - quad(shift(i, -2 * h)))) / (12 * h);
        res[i] = md - dT / 2;
    }
    return res;
}
// generalised forces of wrenches acting on the tips of the segments, expressed in the tip frames
inline VecR externalTorque(const ChainSpec& c, const VecR& q, const std::vector<S6>& f) {
    VecR t(nj(c), 0);
    for (size_t s = 0; s < c.size() && s < f.size(); s++) {
        T4 x = fk(c, q, int(s) + 1);
        auto J = jac(c, q, int(s) + 1);
        V3 F = x.M * f[s].a, N = x.M * f[s].b;
        for (size_t i = 0; i < J.size(); i++) t[i] += dot(J[i].a, F) + dot(J[i].b, N);
    }
    return t;
}
inline VecR matvec(const MatR& M, const VecR& x) { VecR y(M.size(), 0); for (size_t i = 0; i < M.size(); i++) for (size_t k = 0; k < x.size(); k++) y[i] += M[i][k] * x[k]; return y; }
// torques that produce qdd (g: gravity acceleration vector)
inline VecR invDyn(const ChainSpec& c, const VecR& q, const VecR& qd, const VecR& qdd, const V3& g, const std::vector<S6>& f) {
    VecR a = matvec(massMatrix(c, q), qdd), b = coriolis(c, q, qd), d = gravityTorque(c, q, g), e = externalTorque(c, q, f);
    for (size_t i = 0; i < a.size(); i++) a[i] += b[i] + d[i] - e[i];
    return a;
}
// solve A x = b with partial pivoting
inline bool solve(MatR A, VecR b, VecR& x) {
    int n = int(b.size());
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i;
        if (fabsl(A[p][k]) < 1e-300L) return false;
        std::swap(A[p], A[k]); std::swap(b[p], b[k]);
        for (int i = k + 1; i < n; i++) {
            R f = A[i][k] / A[k][k];
            for (int j = k; j < n; j++) A[i][j] -= f * A[k][j];
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0);
    for (int i = n - 1; i >= 0; i--) {
        R s = b[i];
        for (int j = i + 1; j < n; j++) s -= A[i][j] * x[j];
        x[i] = s / A[i][i];
    }
    return true;
}
// eigenvalues of a symmetric matrix (cyclic Jacobi), ascending
inline VecR symEig(MatR A, MatR* Vout = nullptr) {
    int n = int(A.size());
    MatR V(n, VecR(n, 0));
    for (int i = 0; i < n; i++) V[i][i] = 1;
    for (int sweep = 0; sweep < 100; sweep++) {
        R off = 0, dg = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (i == j ? dg : off) += A[i][j] * A[i][j];
        if (off <= 1e-38L * (dg + 1e-300L)) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            if (A[p][q] == 0) continue;
            R th = (A[q][q] - A[p][p]) / (2 * A[p][q]);
            R t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1));
            R c = 1 / sqrtl(t * t + 1), s = t * c;
            for (int k = 0; k < n; k++) { R a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
            for (int k = 0; k < n; k++) { R a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
            for (int k = 0; k < n; k++) { R a = V[k][p], b = V[k][q]; V[k][p] = c * a - s * b; V[k][q] = s * a + c * b; }
        }
    }
    std::vector<std::pair<R, int>> o;
    for (int i = 0; i < n; i++) o.push_back({A[i][i], i});
    std::sort(o.begin(), o.end());
    VecR e(n);
    MatR W(n, VecR(n));
    for (int i = 0; i < n; i++) { e[i] = o[i].first; for (int k = 0; k < n; k++) W[k][i] = V[k][o[i].second]; }
    if (Vout) *Vout = W;
    return e;
}
}  // namespace ref
