// C04: the planar types agree with the 3D types restricted to a plane.
#include "gen.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
static KDL::Vector2 v2(Case& c, double m = 3) { double a = coef(c.r, m); return KDL::Vector2(a, coef(c.r, m)); }
static ref::V3 up(const KDL::Vector2& v) { return ref::V3(v(0), v(1), 0); }
static ref::M3 up(const KDL::Rotation2& r) {
    // read through its action, never through its accessors
    KDL::Vector2 x = r * KDL::Vector2(1, 0), y = r * KDL::Vector2(0, 1);
    ref::M3 m = ref::M3::I();
    m[0][0] = x(0); m[1][0] = x(1); m[0][1] = y(0); m[1][1] = y(1);
    return m;
}
static ref::T4 up(const KDL::Frame2& f) { return ref::T4(up(f.M), up(f.p)); }
static void planar(Case& c) {
    KDL::Vector2 a = v2(c), b = v2(c);
    double k = c.r.sgn() * c.r.uni(0.1, 3), t = c.r.angle(), u = c.r.angle();
    double tol = 1e-14 * (4 + fabs(t) + fabs(u));
    c.desc = fmt("a=(%g,%g) t=%.12g", a(0), a(1), t);
    eq(c, up(a + b), up(a) + up(b), 1e-15, "add"); eq(c, up(a - b), up(a) - up(b), 1e-15, "sub"); eq(c, up(-a), -up(a), 0, "neg");
    eq(c, up(a * k), up(a) * k, 1e-14, "scale"); eq(c, up(k * a), up(a) * k, 1e-14, "scale-left"); eq(c, up(a / k), up(a) / k, 1e-13, "divide");
    { KDL::Vector2 x(a); x += b; eq(c, up(x), up(a) + up(b), 1e-15, "add-assign"); x -= a; eq(c, up(x), up(b), 1e-14, "sub-assign"); x.ReverseSign(); eq(c, up(x), -up(b), 1e-14, "reverse"); }
    { KDL::Vector2 x; x.x(k); x.y(t); c.ok(x(0) == k && x[1] == t && x.x() == k && x.y() == t, "accessors"); }
    double N = hypot(a(0), a(1));
    c.near(a.Norm(), N, N < 3e-6 ? 3e-6 : 1e-15 * N * 4, "norm");
    if (N > 1e-5) { double f = c.r.chance(0.5) ? c.r.uni(0.5, 2.5) : c.r.logu(1e-5, 1e5); if (fabs(f - 1) > 1e-6) { KDL::Vector2 w(a); double r = w.Normalize(N * f); if (f < 1) { c.near(r, N, 1e-14 * (1 + N), "normalize-eps.norm"); eq(c, up(w), up(a) / N, 1e-13, "normalize-eps"); } else c.ok(r == 0 && w(0) == 1 && w(1) == 0, "normalize-eps"); } }
    { KDL::Vector2 x(a); double n = x.Normalize(); if (N > 3e-6) { c.near(n, N, 1e-14, "normalize-norm"); eq(c, up(x), up(a) / N, 1e-14, "normalize"); } else c.ok(x(0) == 1 && x(1) == 0 && n == 0, "normalize-zero"); }
    double big = c.r.logu(1e100, 1e200);
    if (N > 1e-3) c.near(KDL::Vector2(a(0) * big, a(1) * big).Norm() / big, N, 1e-13 * N, "norm-no-overflow");
    { KDL::Vector2 x(a); SetToZero(x); c.ok(x(0) == 0 && x(1) == 0, "set-to-zero"); }
    KDL::Rotation2 R(t), S = KDL::Rotation2::Rot(u);
    ref::M3 r = ref::rotz(t), q = ref::rotz(u);
    eq(c, up(R), r, tol, "angle-ctor"); eq(c, up(S), q, tol, "Rot");
    eq(c, up(R * S), r * q, tol, "compose"); eq(c, up(R.Inverse()), ref::T(r), tol, "inverse");
    eq(c, up(R.Inverse(a)), ref::T(r) * up(a), tol * 4, "inverse-apply"); eq(c, up(R * a), r * up(a), tol * 4, "apply");
    { KDL::Rotation2 x(R); x.SetInverse(); eq(c, up(x), ref::T(r), tol, "set-inverse"); x.SetRot(u); eq(c, up(x), q, tol, "set-rot"); x.SetIdentity(); eq(c, up(x), ref::M3::I(), 0, "set-identity"); }
    eq(c, up(KDL::Rotation2::Identity()), ref::M3::I(), 0, "identity"); eq(c, up(KDL::Rotation2()), ref::M3::I(), 0, "default-is-identity");
    { KDL::Rotation2 x(cos(t), sin(t)); eq(c, up(x), r, tol, "cos-sin-ctor"); }
    double g = R.GetRot();
    c.ok(g >= -3.14159265358979324 && g <= 3.14159265358979324, "angle-range"); eq(c, ref::rotz(g), r, tol, "get-rot");
    ref::M3 acc = ref::M3::I();
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) acc[i][j] = R(i, j);
    eq(c, acc, r, tol, "rotation-element-access");
    KDL::Frame2 F(R, a), G(S, b);
    ref::T4 f(r, up(a)), h(q, up(b));
    tol *= 8;
    eq(c, up(F * G), f * h, tol, "frame-compose"); eq(c, up(F.Inverse()), ref::inv(f), tol, "frame-inverse");
    eq(c, up(F * b), f * up(b), tol, "frame-apply"); eq(c, up(F.Inverse(b)), ref::inv(f) * up(b), tol, "frame-inverse-apply");
    { KDL::Frame2 x(F); x.SetInverse(); eq(c, up(x), ref::inv(f), tol, "frame-set-inverse"); x.SetIdentity(); eq(c, up(x), ref::T4(), 0, "frame-set-identity"); }
    eq(c, up(KDL::Frame2(a)), ref::T4(ref::M3::I(), up(a)), 0, "frame-from-vector"); eq(c, up(KDL::Frame2(R)), ref::T4(r, ref::V3()), tol, "frame-from-rotation");
    eq(c, up(KDL::Frame2::Identity()), ref::T4(), 0, "frame-identity");
    const KDL::Frame2& CF = F;
    for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { c.near(CF(i, j), double(r[i][j]), tol, "frame-element-access"); c.near(F(i, j), double(r[i][j]), tol, "frame-element-access-nonconst"); } c.ok(CF(i, 2) == a(i) && F(i, 2) == a(i), "frame-element-position"); c.ok(CF(2, i) == 0 && F(2, i) == 0, "frame-last-row"); }
    c.ok(CF(2, 2) == 1 && F(2, 2) == 1, "frame-corner");
    c.ok(Equal(R, KDL::Rotation2(t)) && Equal(F, KDL::Frame2(F)) && Equal(a, a), "equal-self");
    c.ok(!Equal(F, KDL::Frame2(R, a + KDL::Vector2(0.1, 0))) && !Equal(F, KDL::Frame2(R * KDL::Rotation2(0.1), a)), "equal-different");
}
static void projections(Case& c) {
    KDL::Frame F = kframe(c.r);
    KDL::Vector v = kv(vec(c.r, 3)), o(9, 9, 9);
    KDL::Vector2 a = v2(c), b;
    c.desc = fmt("a=(%g,%g)", a(0), a(1));
    o.Set2DXY(a); eq(c, rv(o), ref::V3(a(0), a(1), 0), 0, "embed-xy");
    o = KDL::Vector(9, 9, 9); o.Set2DYZ(a); eq(c, rv(o), ref::V3(0, a(0), a(1)), 0, "embed-yz");
    o = KDL::Vector(9, 9, 9); o.Set2DZX(a); eq(c, rv(o), ref::V3(a(1), 0, a(0)), 0, "embed-zx");
    o = KDL::Vector(9, 9, 9); o.Set2DPlane(F, a); eq(c, rv(o), rt(F) * ref::V3(a(0), a(1), 0), 1e-13, "embed-plane");
    b.Set3DXY(v); c.ok(b(0) == v(0) && b(1) == v(1), "project-xy");
    b.Set3DYZ(v); c.ok(b(0) == v(1) && b(1) == v(2), "project-yz");
    b.Set3DZX(v); c.ok(b(0) == v(2) && b(1) == v(0), "project-zx");
    b.Set3DPlane(F, v); { ref::V3 e = ref::inv(rt(F)) * rv(v); c.near(b(0), double(e[0]), 1e-13, "project-plane-x"); c.near(b(1), double(e[1]), 1e-13, "project-plane-y"); }
    KDL::Vector w; KDL::Vector2 d;
    w.Set2DXY(a); d.Set3DXY(w); c.ok(d(0) == a(0) && d(1) == a(1), "xy-roundtrip");
    w.Set2DYZ(a); d.Set3DYZ(w); c.ok(d(0) == a(0) && d(1) == a(1), "yz-roundtrip");
    w.Set2DZX(a); d.Set3DZX(w); c.ok(d(0) == a(0) && d(1) == a(1), "zx-roundtrip");
}
// a chain of planar motions mirrored in 3D
static void programs(Case& c) {
    KDL::Frame2 F; ref::T4 f;
    int n = c.r.range(3, 40);
    for (int i = 0; i < n; i++) {
        double t = c.r.angle(); KDL::Vector2 a = v2(c, 1);
        KDL::Frame2 H(KDL::Rotation2(t), a); ref::T4 h(ref::rotz(t), up(a));
        switch (c.r.below(4)) {
        case 0: F = F * H; f = f * h; break;
        case 1: F = H * F; f = h * f; break;
        case 2: F = F.Inverse(); f = ref::inv(f); break;
        case 3: F.M = F.M * H.M.Inverse(); f.M = f.M * ref::T(h.M); break;
        }
    }
    c.desc = fmt("%d steps", n);
    eq(c, up(F), f, 1e-12 * n, "history");
    ref::M3 m = up(F.M);
    eq(c, m * ref::T(m), ref::M3::I(), 1e-13 * n, "orthonormal");
}
int main(int argc, char** argv) {
    Harness H("C04", argc, argv);
    H.rule("planar", 60000, planar);
    H.rule("projections", 40000, projections);
    H.rule("programs", 20000, programs);
    return H.finish();
}
