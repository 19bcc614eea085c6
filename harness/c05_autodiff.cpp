// C05: the automatic-differentiation scalars and motion types propagate exact
// derivatives.  Model: truncated power series (value, 1st, 2nd derivative) in
// long double; a rotating frame is the matrix-valued series it denotes.
#include "gen.hpp"
#include "framevel.hpp"
#include "frameacc.hpp"
#include "utilities/rall1d.h"
#include "utilities/rall2d.h"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
typedef ref::R R;
struct J { R v, d, e; J(R a = 0, R b = 0, R c = 0) : v(a), d(b), e(c) {} };
static J operator+(J a, J b) { return J(a.v + b.v, a.d + b.d, a.e + b.e); }
static J operator-(J a, J b) { return J(a.v - b.v, a.d - b.d, a.e - b.e); }
static J operator-(J a) { return J(-a.v, -a.d, -a.e); }
static J operator*(J a, J b) { return J(a.v * b.v, a.d * b.v + a.v * b.d, a.e * b.v + 2 * a.d * b.d + a.v * b.e); }
static J chain(R f, R f1, R f2, J x) { return J(f, f1 * x.d, f2 * x.d * x.d + f1 * x.e); }
static J inv(J x) { return chain(1 / x.v, -1 / (x.v * x.v), 2 / (x.v * x.v * x.v), x); }
static J operator/(J a, J b) { return a * inv(b); }
static J jsqrt(J x) { R s = sqrtl(x.v); return chain(s, 0.5L / s, -0.25L / (s * x.v), x); }
static J jatan2(J y, J x) {
    // d atan2 = (x dy - y dx)/(x^2+y^2)
    R r2 = x.v * x.v + y.v * y.v, n = x.v * y.d - y.v * x.d;
    R n1 = x.v * y.e - y.v * x.e, r1 = 2 * (x.v * x.d + y.v * y.d);
    return J(atan2l(y.v, x.v), n / r2, (n1 * r2 - n * r1) / (r2 * r2));
}
struct JV { J c[3]; J& operator[](int i) { return c[i]; } const J& operator[](int i) const { return c[i]; } };
static JV operator+(const JV& a, const JV& b) { JV o; for (int i = 0; i < 3; i++) o[i] = a[i] + b[i]; return o; }
static JV operator-(const JV& a, const JV& b) { JV o; for (int i = 0; i < 3; i++) o[i] = a[i] - b[i]; return o; }
static JV operator*(const JV& a, J s) { JV o; for (int i = 0; i < 3; i++) o[i] = a[i] * s; return o; }
static J dot(const JV& a, const JV& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static JV cross(const JV& a, const JV& b) { JV o; o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; return o; }
struct JM { J m[3][3]; };
static JM operator*(const JM& a, const JM& b) { JM o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) o.m[i][j] = o.m[i][j] + a.m[i][k] * b.m[k][j]; return o; }
static JV operator*(const JM& a, const JV& x) { JV o; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) o[i] = o[i] + a.m[i][k] * x[k]; return o; }
static JM tr(const JM& a) { JM o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.m[i][j] = a.m[j][i]; return o; }

// --- library value -> series
static J j(double x) { return J(x); }
static J j(const KDL::doubleVel& x) { return J(x.t, x.grad, 0); }
static J j(const KDL::doubleAcc& x) { return J(x.t, x.d, x.dd); }
static JV j(const KDL::Vector& a) { JV o; for (int i = 0; i < 3; i++) o[i] = J(a(i)); return o; }
static JV j(const KDL::VectorVel& a) { JV o; for (int i = 0; i < 3; i++) o[i] = J(a.p(i), a.v(i), 0); return o; }
static JV j(const KDL::VectorAcc& a) { JV o; for (int i = 0; i < 3; i++) o[i] = J(a.p(i), a.v(i), a.dv(i)); return o; }
static JM rotser(const ref::M3& M, const ref::V3& w, const ref::V3& dw) {
    ref::M3 W = ref::skew(w), D = W * M, DD = (ref::skew(dw) + W * W) * M;
    JM o; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) o.m[i][k] = J(M[i][k], D[i][k], DD[i][k]); return o;
}
static JM j(const KDL::Rotation& a) { return rotser(rm(a), ref::V3(), ref::V3()); }
static JM j(const KDL::RotationVel& a) { return rotser(rm(a.R), rv(a.w), ref::V3()); }
static JM j(const KDL::RotationAcc& a) { return rotser(rm(a.R), rv(a.w), rv(a.dw)); }
struct JF { JM M; JV p; };
static JF operator*(const JF& a, const JF& b) { return JF{a.M * b.M, a.M * b.p + a.p}; }
static JV operator*(const JF& a, const JV& x) { return a.M * x + a.p; }
static JF inv(const JF& a) { JM t = tr(a.M); JV z; return JF{t, z - t * a.p}; }
static JF j(const KDL::Frame& f) { return JF{j(f.M), j(f.p)}; }
static JF j(const KDL::FrameVel& f) { return JF{j(f.M), j(f.p)}; }
static JF j(const KDL::FrameAcc& f) { return JF{j(f.M), j(f.p)}; }
struct JT { JV vel, rot; };
static JT j(const KDL::Twist& t) { return JT{j(t.vel), j(t.rot)}; }
static JT j(const KDL::TwistVel& t) { return JT{j(t.vel), j(t.rot)}; }
static JT j(const KDL::TwistAcc& t) { return JT{j(t.vel), j(t.rot)}; }
static JT operator*(const JM& m, const JT& t) { return JT{m * t.vel, m * t.rot}; }
static JT operator*(const JF& f, const JT& t) { JV w = f.M * t.rot; return JT{f.M * t.vel + cross(f.p, w), w}; }

// --- comparison up to the order the type carries
struct Ord { int n; };
static R dv(J a, J b, int n) { R d = fabsl(a.v - b.v); if (!(fabsl(a.d - b.d) <= d)) d = fabsl(a.d - b.d); if (n > 1 && !(fabsl(a.e - b.e) <= d)) d = fabsl(a.e - b.e); return d; }
static R sz(J a, int n) { R m = std::max(fabsl(a.v), fabsl(a.d)); return n > 1 ? std::max(m, fabsl(a.e)) : m; }
struct Acc2 { R dev = 0, size = 0; void add(J a, J b, int n) { R d = dv(a, b, n); if (!(d <= dev)) dev = d; size = std::max(size, sz(b, n)); } };
static void cmp(Case& c, const J& g, const J& e, int n, const char* key, R extra = 0) {
    Acc2 a; a.add(g, e, n);
    c.okf(a.dev <= 1e-13L * (1 + a.size + extra), key, [&] { return fmt("got (%.15Lg,%.15Lg,%.15Lg) expected (%.15Lg,%.15Lg,%.15Lg)", g.v, g.d, g.e, e.v, e.d, e.e); });
}
static void cmp(Case& c, const JV& g, const JV& e, int n, const char* key) {
    Acc2 a; for (int i = 0; i < 3; i++) a.add(g[i], e[i], n);
    c.okf(a.dev <= 1e-12L * (1 + a.size), key, [&] { return fmt("deviation %.3Lg; x: got (%.12Lg,%.12Lg,%.12Lg) expected (%.12Lg,%.12Lg,%.12Lg)", a.dev, g[0].v, g[0].d, g[0].e, e[0].v, e[0].d, e[0].e); });
}
static void cmp(Case& c, const JM& g, const JM& e, int n, const char* key) {
    Acc2 a; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) a.add(g.m[i][k], e.m[i][k], n);
    c.okf(a.dev <= 1e-12L * (1 + a.size), key, [&] { return fmt("matrix series deviates by %.3Lg", a.dev); });
}
static void cmp(Case& c, const JF& g, const JF& e, int n, const char* key) { cmp(c, g.M, e.M, n, key); cmp(c, g.p, e.p, n, key); }
static void cmp(Case& c, const JT& g, const JT& e, int n, const char* key) { cmp(c, g.vel, e.vel, n, key); cmp(c, g.rot, e.rot, n, key); }

static double rnd(Case& c, double m = 2) { return c.r.uni(-m, m); }

// ---- scalars: a random program; every step is checked against the series of
// its actual operands, so no error accumulates
template <class S> struct Sc;
template <> struct Sc<KDL::doubleVel> { enum { n = 1 }; static KDL::doubleVel make(Case& c) { double a = rnd(c); return KDL::doubleVel(a, rnd(c)); } static const char* name() { return "rall1d"; } };
template <> struct Sc<KDL::doubleAcc> { enum { n = 2 }; static KDL::doubleAcc make(Case& c) { double a = rnd(c), b = rnd(c); return KDL::doubleAcc(a, b, rnd(c)); } static const char* name() { return "rall2d"; } };
typedef KDL::Rall1d<KDL::Rall1d<double>, KDL::Rall1d<double>, double> Nest;
static J j(const Nest& x) { return J(x.t.t, x.grad.t, x.grad.grad); }
template <> struct Sc<Nest> {
    enum { n = 2 };
    static Nest make(Case& c) { double a = rnd(c), b = rnd(c), d = rnd(c); return Nest(KDL::Rall1d<double>(a, b), KDL::Rall1d<double>(b, d)); }
    static const char* name() { return "nested"; }
};
template <class S> static bool finite(const S& x) { J y = j(x); return std::isfinite(double(y.v)) && std::isfinite(double(y.d)) && std::isfinite(double(y.e)); }
template <class S> static void functions(Case& c, S x, S y, int k, S& out, J& ex, R& extra, std::string& nm) {
    J X = j(x), Y = j(y);
    R v = X.v;
    extra = 0;
    switch (k) {
    case 0: out = exp(x); ex = chain(expl(v), expl(v), expl(v), X); nm = "exp"; break;
    case 1: out = log(x); ex = chain(logl(v), 1 / v, -1 / (v * v), X); nm = "log"; break;
    case 2: out = sin(x); ex = chain(sinl(v), cosl(v), -sinl(v), X); nm = "sin"; break;
    case 3: out = cos(x); ex = chain(cosl(v), -sinl(v), -cosl(v), X); nm = "cos"; break;
    case 4: { out = tan(x); R t = tanl(v); ex = chain(t, 1 + t * t, 2 * t * (1 + t * t), X); nm = "tan"; break; }
    case 5: out = sinh(x); ex = chain(sinhl(v), coshl(v), sinhl(v), X); nm = "sinh"; break;
    case 6: out = cosh(x); ex = chain(coshl(v), sinhl(v), coshl(v), X); nm = "cosh"; break;
    case 7: out = sqr(x); ex = X * X; nm = "sqr"; break;
    case 8: { static const double ms[] = {2, 3, 0.5, -1, -2.5, 1}; double m = ms[c.r.below(6)]; out = pow(x, m); ex = chain(powl(v, m), m * powl(v, m - 1), m * (m - 1) * powl(v, m - 2), X); nm = "pow"; break; }
    case 9: out = sqrt(x); ex = jsqrt(X); nm = "sqrt"; break;
    case 10: out = atan(x); ex = chain(atanl(v), 1 / (1 + v * v), -2 * v / ((1 + v * v) * (1 + v * v)), X); nm = "atan"; break;
    case 11: out = hypot(x, y); ex = jsqrt(X * X + Y * Y); nm = "hypot"; break;
    case 12: { out = asin(x); R w = 1 - v * v; ex = chain(asinl(v), 1 / sqrtl(w), v / (w * sqrtl(w)), X); nm = "asin"; break; }
    case 13: { out = acos(x); R w = 1 - v * v; ex = chain(acosl(v), -1 / sqrtl(w), -v / (w * sqrtl(w)), X); nm = "acos"; break; }
    case 14: { out = tanh(x); R t = tanhl(v); ex = chain(t, 1 - t * t, -2 * t * (1 - t * t), X); nm = "tanh"; break; }
    case 15: out = atan2(x, y); ex = jatan2(X, Y); nm = "atan2"; break;
    }
    // second-derivative terms can cancel: allow for their individual sizes
    extra = (fabsl(X.d) + fabsl(Y.d) + 1) * (fabsl(X.d) + fabsl(Y.d) + 1) * (1 + fabsl(ex.v)) + fabsl(X.e) + fabsl(Y.e);
    R cond = 1;
    if (k == 1 || k == 8 || k == 9) cond = 1 / (v * v);
    if (k == 12 || k == 13) cond = 1 / ((1 - v * v) * (1 - v * v));
    if (k == 4) cond = 1 / (cosl(v) * cosl(v) * cosl(v) * cosl(v));
    if (k == 11 || k == 15) { R q = v * v + Y.v * Y.v; cond = (1 + 1 / q) * (1 + 1 / q); }
    if (k == 14) cond = coshl(v) * coshl(v);
    extra *= 1 + cond;
}
static bool inDomain(int k, double v, double w) {
    switch (k) {
    case 0: case 5: case 6: return fabs(v) < 4;
    case 14: return fabs(v) < 3;
    case 1: case 8: case 9: return v > 0.05;
    case 4: return fabs(cos(v)) > 0.1;
    case 11: case 15: return v * v + w * w > 0.05;
    case 12: case 13: return fabs(v) < 0.95;
    default: return true;
    }
}
template <class S> static void unary(Case& c, S x, S y, bool nested) {
    int k = c.r.below(16);
    if (nested && (k == 8 || k == 11 || k == 15)) k = 2;
    (void)nested;
    S o; J ex; R extra; std::string nm;
    if (!inDomain(k, double(j(x).v), double(j(y).v))) return;
    functions(c, x, y, k, o, ex, extra, nm);
    cmp(c, j(o), ex, Sc<S>::n, (std::string(Sc<S>::name()) + "." + nm).c_str(), extra);
}
template <> void unary<Nest>(Case& c, Nest x, Nest y, bool) {
    J X = j(x); R v = X.v; Nest o; J ex; const char* nm;
    (void)y;
    switch (c.r.below(10)) {
    case 0: if (fabsl(v) > 4) return; o = exp(x); ex = chain(expl(v), expl(v), expl(v), X); nm = "nested.exp"; break;
    case 1: if (v < 0.05) return; o = log(x); ex = chain(logl(v), 1 / v, -1 / (v * v), X); nm = "nested.log"; break;
    case 2: o = sin(x); ex = chain(sinl(v), cosl(v), -sinl(v), X); nm = "nested.sin"; break;
    case 3: o = cos(x); ex = chain(cosl(v), -sinl(v), -cosl(v), X); nm = "nested.cos"; break;
    case 4: if (fabsl(v) > 4) return; o = sinh(x); ex = chain(sinhl(v), coshl(v), sinhl(v), X); nm = "nested.sinh"; break;
    case 5: if (fabsl(v) > 4) return; o = cosh(x); ex = chain(coshl(v), sinhl(v), coshl(v), X); nm = "nested.cosh"; break;
    case 6: o = sqr(x); ex = X * X; nm = "nested.sqr"; break;
    case 7: if (v < 0.05) return; o = sqrt(x); ex = jsqrt(X); nm = "nested.sqrt"; break;
    case 8: o = atan(x); ex = chain(atanl(v), 1 / (1 + v * v), -2 * v / ((1 + v * v) * (1 + v * v)), X); nm = "nested.atan"; break;
    default: if (fabsl(cosl(v)) < 0.1) return; o = tan(x); { R t = tanl(v); ex = chain(t, 1 + t * t, 2 * t * (1 + t * t), X); } nm = "nested.tan"; break;
    }
    R cond = 1 + (v > 0 ? 1 / (v * v) : 0) + 1 / powl(cosl(v), 4);
    cmp(c, j(o), ex, 2, nm, (1 + X.d * X.d + fabsl(X.e)) * (1 + fabsl(ex.v)) * cond);
    c.near(o.t.grad, o.grad.t, 1e-12 * (1 + fabs(o.grad.t)), "nested.mixed-partials-agree");
}
template <class S> static void arithmetic(Case& c) {
    S a = Sc<S>::make(c), b = Sc<S>::make(c);
    double s = c.r.sgn() * c.r.uni(0.1, 3);
    const int n = Sc<S>::n;
    c.desc = fmt("%s a=(%.6Lg,%.6Lg,%.6Lg)", Sc<S>::name(), j(a).v, j(a).d, j(a).e);
    cmp(c, j(a + b), j(a) + j(b), n, "add"); cmp(c, j(a - b), j(a) - j(b), n, "sub"); cmp(c, j(-a), -j(a), n, "neg");
    cmp(c, j(a * b), j(a) * j(b), n, "mul"); cmp(c, j(a + s), j(a) + J(s), n, "add-scalar"); cmp(c, j(s + a), j(a) + J(s), n, "scalar-add");
    cmp(c, j(a - s), j(a) - J(s), n, "sub-scalar"); cmp(c, j(s - a), J(s) - j(a), n, "scalar-sub");
    cmp(c, j(a * s), j(a) * J(s), n, "mul-scalar"); cmp(c, j(s * a), j(a) * J(s), n, "scalar-mul"); cmp(c, j(a / s), j(a) / J(s), n, "div-scalar");
    R bv = fabsl(j(b).v);
    R g = bv > 0.05 ? (1 + 1 / bv) * (1 + 1 / bv) * (1 + 1 / bv) * 30 : 0;
    if (bv > 0.05) { cmp(c, j(a / b), j(a) / j(b), n, "div", g); cmp(c, j(s / b), J(s) / j(b), n, "scalar-div", g); }
    { S x(a); x += b; cmp(c, j(x), j(a) + j(b), n, "add-assign"); } { S x(a); x -= b; cmp(c, j(x), j(a) - j(b), n, "sub-assign"); }
    if constexpr (!std::is_same<S, Nest>::value) { S x(a); x *= b; cmp(c, j(x), j(a) * j(b), n, "mul-assign"); } { S x(a); x *= s; cmp(c, j(x), j(a) * J(s), n, "mul-assign-scalar"); }
    { S x(a); x /= s; cmp(c, j(x), j(a) / J(s), n, "div-assign-scalar"); } { S x(a); x += s; cmp(c, j(x), j(a) + J(s), n, "add-assign-scalar"); }
    { S x(a); x -= s; cmp(c, j(x), j(a) - J(s), n, "sub-assign-scalar"); } { S x(a); x = s; cmp(c, j(x), J(s), n, "assign-scalar"); }
    if constexpr (!std::is_same<S, Nest>::value) if (bv > 0.05) { S x(a); x /= b; cmp(c, j(x), j(a) / j(b), n, "div-assign", g); }
    if constexpr (!std::is_same<S, Nest>::value) { S x(a); x *= x; cmp(c, j(x), j(a) * j(a), n, "mul-assign-self"); } { S x(a); x += x; cmp(c, j(x), j(a) * J(2), n, "add-assign-self"); } { S x(a); x -= x; cmp(c, j(x), J(0), n, "sub-assign-self"); }
    if constexpr (!std::is_same<S, Nest>::value) if (fabsl(j(a).v) > 0.05) { S x(a); x /= x; cmp(c, j(x), J(1), n, "div-assign-self", 1000); }
    cmp(c, j(S::Zero()), J(0), n, "zero"); cmp(c, j(S::Identity()), J(1), n, "identity");
    c.ok(Equal(a, S(a), 1e-9), "equal-self"); c.ok(!Equal(a, a + 1.0, 1e-3), "equal-differs");
}
template <class S> static void program(Case& c) {
    std::vector<S> reg;
    for (int i = 0; i < 4; i++) reg.push_back(Sc<S>::make(c));
    int n = c.r.range(4, 25);
    c.desc = fmt("%s, %d steps", Sc<S>::name(), n);
    for (int i = 0; i < n; i++) {
        S &a = reg[c.r.below(4)], &b = reg[c.r.below(4)], &o = reg[c.r.below(4)];
        unary<S>(c, a, b, false);
        J e; S r;
        R ex = (1 + fabsl(j(a).v) + fabsl(j(a).d) + fabsl(j(a).e)) * (1 + fabsl(j(b).v) + fabsl(j(b).d) + fabsl(j(b).e));
        int k = c.r.below(5);
        if (k == 3 && fabsl(j(b).v) < 0.1) k = 0;
        switch (k) {
        case 0: r = a + b; e = j(a) + j(b); break;
        case 1: r = a - b; e = j(a) - j(b); break;
        case 2: r = a * b; e = j(a) * j(b); break;
        case 3: r = a / b; e = j(a) / j(b); ex *= 1e4; break;
        default: r = sin(a) * b; { J s = chain(sinl(j(a).v), cosl(j(a).v), -sinl(j(a).v), j(a)); e = s * j(b); ex *= ex; }
        }
        cmp(c, j(r), e, Sc<S>::n, "step", ex);
        R m = sz(j(r), 2);
        o = m < 5 ? r : Sc<S>::make(c);
    }
}

// ---- motion types --------------------------------------------------------
template <class V> struct Mk;
struct Vel { typedef KDL::doubleVel S; typedef KDL::VectorVel V; typedef KDL::RotationVel Rt; typedef KDL::FrameVel F; typedef KDL::TwistVel Tw; enum { n = 1 }; };
struct Acc { typedef KDL::doubleAcc S; typedef KDL::VectorAcc V; typedef KDL::RotationAcc Rt; typedef KDL::FrameAcc F; typedef KDL::TwistAcc Tw; enum { n = 2 }; };
static KDL::Vector kvec(Case& c) { return kv(vec(c.r)); }
static void mk(Case& c, KDL::VectorVel& x) { KDL::Vector a = kvec(c); x = KDL::VectorVel(a, kvec(c)); }
static void mk(Case& c, KDL::VectorAcc& x) { KDL::Vector a = kvec(c), b = kvec(c); x = KDL::VectorAcc(a, b, kvec(c)); }
static void mk(Case& c, KDL::RotationVel& x) { KDL::Rotation a = km(rotation(c.r)); x = KDL::RotationVel(a, kvec(c)); }
static void mk(Case& c, KDL::RotationAcc& x) { KDL::Rotation a = km(rotation(c.r)); KDL::Vector b = kvec(c); x = KDL::RotationAcc(a, b, kvec(c)); }
static void mk(Case& c, KDL::FrameVel& x) { mk(c, x.M); mk(c, x.p); }
static void mk(Case& c, KDL::FrameAcc& x) { mk(c, x.M); mk(c, x.p); }
static void mk(Case& c, KDL::TwistVel& x) { mk(c, x.vel); mk(c, x.rot); }
static void mk(Case& c, KDL::TwistAcc& x) { mk(c, x.vel); mk(c, x.rot); }
static JT operator+(const JT& a, const JT& b) { return JT{a.vel + b.vel, a.rot + b.rot}; }
static JT operator-(const JT& a, const JT& b) { return JT{a.vel - b.vel, a.rot - b.rot}; }
static JT operator*(const JT& a, J s) { return JT{a.vel * s, a.rot * s}; }
template <class T> static void motion(Case& c) {
    const int n = T::n;
    typename T::S s = Sc<typename T::S>::make(c);
    typename T::V a, b; typename T::Rt P, Q; typename T::F F, G; typename T::Tw t, u;
    mk(c, a); mk(c, b); mk(c, P); mk(c, Q); mk(c, F); mk(c, G); mk(c, t); mk(c, u);
    KDL::Vector v = kvec(c); KDL::Rotation R0 = km(rotation(c.r)); KDL::Frame F0 = kframe(c.r); KDL::Twist t0 = kt(screw(c.r));
    double k = c.r.sgn() * c.r.uni(0.1, 3);
    c.desc = n == 1 ? "velocity types" : "acceleration types";
    JV z;
    // vectors
    cmp(c, j(a + b), j(a) + j(b), n, "vec-add"); cmp(c, j(a - b), j(a) - j(b), n, "vec-sub"); cmp(c, j(v + b), j(v) + j(b), n, "const-add"); cmp(c, j(v - b), j(v) - j(b), n, "const-sub");
    cmp(c, j(a + v), j(a) + j(v), n, "add-const"); cmp(c, j(a - v), j(a) - j(v), n, "sub-const"); cmp(c, j(-a), z - j(a), n, "vec-neg");
    cmp(c, j(a * b), cross(j(a), j(b)), n, "cross"); cmp(c, j(a * v), cross(j(a), j(v)), n, "cross-const"); cmp(c, j(v * b), cross(j(v), j(b)), n, "const-cross");
    cmp(c, j(a * k), j(a) * J(k), n, "vec-scale"); cmp(c, j(k * a), j(a) * J(k), n, "scale-vec"); cmp(c, j(a / k), j(a) * J(1 / R(k)), n, "vec-div");
    cmp(c, j(a * s), j(a) * j(s), n, "vec-scale-series"); cmp(c, j(s * a), j(a) * j(s), n, "series-scale-vec");
    if (fabsl(j(s).v) > 0.2) cmp(c, j(a / s), j(a) * inv(j(s)), n, "vec-div-series");
    cmp(c, j(R0 * a), j(R0) * j(a), n, "constrot-vec");
    cmp(c, j(dot(a, b)), dot(j(a), j(b)), n, "dot", 100); cmp(c, j(dot(a, v)), dot(j(a), j(v)), n, "dot-const", 100); cmp(c, j(dot(v, b)), dot(j(v), j(b)), n, "const-dot", 100);
    { typename T::V x(a); x += b; cmp(c, j(x), j(a) + j(b), n, "vec-add-assign"); x -= b; cmp(c, j(x), j(a), n, "vec-sub-assign"); x.ReverseSign(); cmp(c, j(x), z - j(a), n, "vec-reverse"); x = v; cmp(c, j(x), j(v), n, "vec-assign-const"); x = b; cmp(c, j(x), j(b), n, "vec-assign"); }
    cmp(c, j(T::V::Zero()), z, n, "vec-zero"); cmp(c, j(typename T::V(v)), j(v), n, "vec-from-const");
    R nn = ref::norm(rv(a.p));
    if (nn > 0.1) cmp(c, j(a.Norm()), jsqrt(dot(j(a), j(a))), n, "norm", 1e3);
    // rotations
    cmp(c, j(P * Q), j(P) * j(Q), n, "rot-compose"); cmp(c, j(R0 * Q), j(R0) * j(Q), n, "constrot-rot"); cmp(c, j(P * R0), j(P) * j(R0), n, "rot-constrot");
    cmp(c, j(P.Inverse()), tr(j(P)), n, "rot-inverse"); cmp(c, j(P * a), j(P) * j(a), n, "rot-vec"); cmp(c, j(P * v), j(P) * j(v), n, "rot-const");
    cmp(c, j(P.Inverse(a)), tr(j(P)) * j(a), n, "rot-inverse-vec"); cmp(c, j(P.Inverse(v)), tr(j(P)) * j(v), n, "rot-inverse-const");
    { typename T::Rt x(Q); x = P; cmp(c, j(x), j(P), n, "rot-assign"); x = R0; cmp(c, j(x), j(R0), n, "rot-assign-const"); cmp(c, j(typename T::Rt(R0)), j(R0), n, "rot-from-const"); cmp(c, j(T::Rt::Identity()), j(KDL::Rotation::Identity()), n, "rot-identity"); }
    cmp(c, j(P * P.Inverse()), j(KDL::Rotation::Identity()), n, "rot-inverse-law");
    // frames
    cmp(c, j(F * G), j(F) * j(G), n, "frame-compose"); cmp(c, j(F0 * G), j(F0) * j(G), n, "constframe-frame"); cmp(c, j(F * F0), j(F) * j(F0), n, "frame-constframe");
    cmp(c, j(F.Inverse()), inv(j(F)), n, "frame-inverse"); cmp(c, j(F * a), j(F) * j(a), n, "frame-vec"); cmp(c, j(F * v), j(F) * j(v), n, "frame-const");
    cmp(c, j(F.Inverse(a)), inv(j(F)) * j(a), n, "frame-inverse-vec"); cmp(c, j(F.Inverse(v)), inv(j(F)) * j(v), n, "frame-inverse-const");
    { typename T::F x(G); x = F; cmp(c, j(x), j(F), n, "frame-assign"); x = F0; cmp(c, j(x), j(F0), n, "frame-assign-const"); cmp(c, j(typename T::F(F0)), j(F0), n, "frame-from-const"); cmp(c, j(T::F::Identity()), j(KDL::Frame::Identity()), n, "frame-identity"); }
    eq(c, rt(F.GetFrame()), ref::T4(rm(F.M.R), rv(F.p.p)), 0, "get-frame"); eq(c, rs(F.GetTwist()), ref::S6(rv(F.p.v), rv(F.M.w)), 0, "get-twist");
    // twists
    cmp(c, j(t + u), j(t) + j(u), n, "twist-add"); cmp(c, j(t - u), j(t) - j(u), n, "twist-sub"); cmp(c, j(-t), j(t) * J(-1), n, "twist-neg");
    cmp(c, j(t * k), j(t) * J(k), n, "twist-scale"); cmp(c, j(k * t), j(t) * J(k), n, "scale-twist"); cmp(c, j(t / k), j(t) * J(1 / R(k)), n, "twist-div");
    cmp(c, j(t * s), j(t) * j(s), n, "twist-scale-series"); cmp(c, j(s * t), j(t) * j(s), n, "series-scale-twist");
    if (fabsl(j(s).v) > 0.2) cmp(c, j(t / s), j(t) * inv(j(s)), n, "twist-div-series");
    { typename T::Tw x(t); x += u; cmp(c, j(x), j(t) + j(u), n, "twist-add-assign"); x -= u; cmp(c, j(x), j(t), n, "twist-sub-assign"); x.ReverseSign(); cmp(c, j(x), j(t) * J(-1), n, "twist-reverse"); if constexpr (std::is_same<T, Vel>::value) { SetToZero(x); cmp(c, j(x), JT(), n, "twist-set-zero"); } cmp(c, j(T::Tw::Zero()), JT(), n, "twist-zero"); }
    { typename T::Tw x(t); JT e = j(t); e.vel = e.vel + cross(e.rot, j(a)); cmp(c, j(x.RefPoint(a)), e, n, "twist-refpoint"); }
    cmp(c, j(P * t), j(P) * j(t), n, "rot-twist"); cmp(c, j(P * t0), j(P) * j(t0), n, "rot-consttwist"); cmp(c, j(P.Inverse(t)), tr(j(P)) * j(t), n, "rot-inverse-twist"); cmp(c, j(P.Inverse(t0)), tr(j(P)) * j(t0), n, "rot-inverse-consttwist");
    cmp(c, j(F * t), j(F) * j(t), n, "frame-twist"); cmp(c, j(F * t0), j(F) * j(t0), n, "frame-consttwist"); cmp(c, j(F.Inverse(t)), inv(j(F)) * j(t), n, "frame-inverse-twist"); cmp(c, j(F.Inverse(t0)), inv(j(F)) * j(t0), n, "frame-inverse-consttwist");
    eq(c, rs(t.GetTwist()), ref::S6(rv(t.vel.p), rv(t.rot.p)), 0, "twist-value"); eq(c, rs(t.GetTwistDot()), ref::S6(rv(t.vel.v), rv(t.rot.v)), 0, "twist-derivative");
}
// elementary rotations with a moving angle, and finite displacement of motions
static JM rotAxis(const ref::V3& k, J th) {
    JM o; ref::M3 K = ref::skew(k), K2 = K * K;
    J s = chain(sinl(th.v), cosl(th.v), -sinl(th.v), th), d = chain(1 - cosl(th.v), sinl(th.v), cosl(th.v), th);
    for (int i = 0; i < 3; i++) for (int l = 0; l < 3; l++) o.m[i][l] = J(i == l) + J(K[i][l]) * s + J(K2[i][l]) * d;
    return o;
}
static KDL::Vector rnd3(Case& c) { return KDL::Vector(rnd(c), rnd(c), rnd(c)); }
static void velonly(Case& c) {
    KDL::doubleVel th(c.r.angle(), rnd(c));
    ref::V3 k = unitvec(c.r);
    double L = c.r.uni(0.2, 5);
    KDL::RotationVel P; mk(c, P);
    c.desc = fmt("theta=%.9g rate=%.9g", th.t, th.grad);
    ref::V3 ex(1, 0, 0), ey(0, 1, 0), ez(0, 0, 1);
    cmp(c, j(KDL::RotationVel::RotX(th)), rotAxis(ex, j(th)), 1, "rotx"); cmp(c, j(KDL::RotationVel::RotY(th)), rotAxis(ey, j(th)), 1, "roty"); cmp(c, j(KDL::RotationVel::RotZ(th)), rotAxis(ez, j(th)), 1, "rotz");
    cmp(c, j(KDL::RotationVel::Rot(kv(k * L), th)), rotAxis(k, j(th)), 1, "rot"); cmp(c, j(KDL::RotationVel::Rot2(kv(k), th)), rotAxis(k, j(th)), 1, "rot2");
    { auto x = P; x.DoRotX(th); cmp(c, j(x), j(P) * rotAxis(ex, j(th)), 1, "do-rotx"); } { auto x = P; x.DoRotY(th); cmp(c, j(x), j(P) * rotAxis(ey, j(th)), 1, "do-roty"); } { auto x = P; x.DoRotZ(th); cmp(c, j(x), j(P) * rotAxis(ez, j(th)), 1, "do-rotz"); }
    cmp(c, j(P.UnitX()), j(P) * j(KDL::Vector(1, 0, 0)), 1, "unit-x"); cmp(c, j(P.UnitY()), j(P) * j(KDL::Vector(0, 1, 0)), 1, "unit-y"); cmp(c, j(P.UnitZ()), j(P) * j(KDL::Vector(0, 0, 1)), 1, "unit-z");
    // diff / addDelta on motions: round trip, and each part in its own slot
    KDL::VectorVel a, b; mk(c, a); mk(c, b); KDL::RotationVel Q; mk(c, Q); KDL::FrameVel F(P, a), G(Q, b);
    double dt = c.r.chance(0.5) ? 1 : c.r.uni(0.2, 2);
    R ang = ref::angleOf(ref::T(rm(P.R)) * rm(Q.R));
    bool sing = ang < 2e-5 || 3.14159265358979L - ang < 2e-5;
    double tol = sing ? 2e-5 : 1e-9;
    { auto x = addDelta(a, diff(a, b, dt), dt); eq(c, rv(x.p), rv(b.p), 1e-12, "vec-roundtrip"); eq(c, rv(x.v), rv(b.v), 1e-12, "vec-roundtrip"); }
    { auto x = addDelta(P, diff(P, Q, dt), dt); eq(c, rm(x.R), rm(Q.R), tol, "rot-roundtrip"); eq(c, rv(x.w), rv(Q.w), 1e-12, "rot-roundtrip"); }
    { auto x = addDelta(F, diff(F, G, dt), dt); eq(c, rm(x.M.R), rm(G.M.R), tol, "frame-roundtrip"); eq(c, rv(x.M.w), rv(G.M.w), 1e-12, "frame-roundtrip"); eq(c, rv(x.p.p), rv(G.p.p), 1e-12, "frame-roundtrip"); eq(c, rv(x.p.v), rv(G.p.v), 1e-12, "frame-roundtrip"); }
    { KDL::TwistVel d = diff(F, G, dt); eq(c, rv(d.vel.p) * dt, rv(b.p) - rv(a.p), 1e-12, "frame-diff-translation"); eq(c, rv(d.rot.v) * dt, rv(Q.w) - rv(P.w), 1e-12, "frame-diff-rotation-rate"); }
    { KDL::doubleVel x(rnd(c), rnd(c)), y(rnd(c), rnd(c)); auto z = KDL::addDelta(x, KDL::diff(x, y, dt), dt); c.near(z.t, y.t, 1e-12, "scalar-roundtrip"); c.near(z.grad, y.grad, 1e-12, "scalar-roundtrip"); }
    // construction: from values alone a thing is at rest, by default it is the neutral element
    { KDL::Twist u = kt(screw(c.r)), w = kt(screw(c.r)); KDL::TwistVel x(u, w), y(u), z; eq(c, rs(x.value()), rs(u), 0, "twist-from-parts"); eq(c, rs(x.deriv()), rs(w), 0, "twist-from-parts"); eq(c, rs(y.value()), rs(u), 0, "twist-from-const"); eq(c, rs(y.deriv()), ref::S6(), 0, "twist-from-const"); eq(c, rs(z.value()), ref::S6(), 0, "default"); eq(c, rs(z.deriv()), ref::S6(), 0, "default"); }
    { KDL::Frame f(rnd3(c)); KDL::Twist u = kt(screw(c.r)), w = kt(screw(c.r)); KDL::FrameVel x(f, u); eq(c, rt(x.GetFrame()), rt(f), 0, "frame-from-parts"); eq(c, rs(x.GetTwist()), rs(u), 0, "frame-from-parts"); KDL::FrameAcc y(f, u, w); eq(c, rt(y.GetFrame()), rt(f), 0, "frame-from-parts"); eq(c, rs(y.GetTwist()), rs(u), 0, "frame-from-parts"); eq(c, rs(y.GetAccTwist()), rs(w), 0, "frame-from-parts"); }
    cmp(c, j(KDL::VectorVel()), j(KDL::Vector::Zero()), 1, "default"); cmp(c, j(KDL::RotationVel()), j(KDL::Rotation::Identity()), 1, "default"); cmp(c, j(KDL::FrameVel()), j(KDL::Frame::Identity()), 1, "default");
    cmp(c, j(KDL::VectorAcc()), j(KDL::Vector::Zero()), 2, "default"); cmp(c, j(KDL::RotationAcc()), j(KDL::Rotation::Identity()), 2, "default"); cmp(c, j(KDL::FrameAcc()), j(KDL::Frame::Identity()), 2, "default"); cmp(c, j(KDL::TwistAcc()), j(KDL::Twist::Zero()), 2, "default");
    c.ok(rv(F.value().p).v[0] == a.p.x() && F.deriv().vel.x() == a.v.x(), "value-deriv"); eq(c, rs(F.deriv()), ref::S6(rv(a.v), rv(P.w)), 0, "deriv");
}
int main(int argc, char** argv) {
    Harness H("C05", argc, argv);
    H.rule("arithmetic1", 60000, arithmetic<KDL::doubleVel>);
    H.rule("arithmetic2", 60000, arithmetic<KDL::doubleAcc>);
    H.rule("arithmeticN", 30000, arithmetic<Nest>);
    H.rule("program1", 20000, program<KDL::doubleVel>);
    H.rule("program2", 20000, program<KDL::doubleAcc>);
    H.rule("programN", 20000, program<Nest>);
    H.rule("velocity", 20000, motion<Vel>);
    H.rule("acceleration", 20000, motion<Acc>);
    H.rule("velonly", 30000, velonly);
    return H.finish();
}
