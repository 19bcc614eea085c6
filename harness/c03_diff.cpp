// C03: finite displacement operators, integration step and DH parametrisation.
#include "gen.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
static const double PI = 3.14159265358979323846;
// reference logarithm away from the singular angle pi
static ref::V3 logm(const ref::M3& r) {
    ref::V3 w(r[2][1] - r[1][2], r[0][2] - r[2][0], r[1][0] - r[0][1]);
    ref::R a = ref::angleOf(r), n = ref::norm(w);
    return n > 0 ? w * (a / n) : ref::V3();
}
static void rotdiff(Case& c) {
    KDL::Rotation A = km(rotation(c.r));
    double e = c.r.chance(0.3) ? c.r.logu(1e-12, 1e-2) : 0;
    ref::M3 d;
    switch (c.r.below(4)) {
    case 0: d = ref::rot(unitvec(c.r), e); c.cover("small"); break;
    case 1: d = ref::rot(unitvec(c.r), ref::PI - e); c.cover("half-turn"); break;
    default: d = rotation(c.r); c.cover("generic");
    }
    KDL::Rotation B = A * km(d);
    double dt = c.r.chance(0.4) ? 1 : c.r.pick(std::vector<double>{0.01, 0.5, 3, 2, -1});
    ref::M3 rel = ref::T(rm(A)) * rm(B);
    double th = double(ref::angleOf(rel)), sing = std::min(th, PI - th);
    double tol = sing < 2e-5 ? 1.3e-5 : 1e-12 + 8e-15 / sing;
    c.desc = fmt("angle %.12g dt %g", th, dt);
    KDL::Vector v = diff(A, B, dt);
    c.near(double(ref::norm(rv(v))) * fabs(dt), th, sing < 2e-5 ? 8e-6 : 1e-12, "rotation-distance");
    if (PI - th > 2e-5) eq(c, rv(v) * dt, rm(A) * logm(rel), tol, "rotation-diff-is-log");
    eq(c, rm(addDelta(A, v, dt)), rm(B), tol, "rotation-roundtrip");
    eq(c, rv(diff(A, B)), rv(v) * dt, 1e-12, "diff-dt");
    if (PI - th > 2e-5) eq(c, rv(diff(B, A, dt)), -rv(v), tol / fabs(dt) * 2, "rotation-antisymmetric");
    eq(c, rv(diff(A, A)), ref::V3(), 4e-6, "rotation-self");
    // frame version is the pair of the vector and rotation versions
    KDL::Frame FA(A, kv(vec(c.r))), FB(B, kv(vec(c.r)));
    KDL::Twist t = diff(FA, FB, dt);
    eq(c, rv(t.rot), rv(v), 1e-12 / fabs(dt), "frame-diff-rot");
    eq(c, rv(t.vel) * dt, rv(FB.p) - rv(FA.p), 1e-13, "frame-diff-vel");
    eq(c, rt(addDelta(FA, t, dt)), rt(FB), tol, "frame-roundtrip");
}
static void addd(Case& c) {
    KDL::Frame F = kframe(c.r);
    ref::S6 w = screw(c.r, c.r.chance(0.3) ? c.r.logu(1e-4, 1) : 3);
    KDL::Twist t = kt(w);
    double dt = c.r.chance(0.4) ? 1 : c.r.uni(-2, 2);
    c.desc = "w=" + s(w.b) + fmt(" dt=%g", dt);
    ref::R n = ref::norm(rv(t.rot)) * fabsl(dt);
    double tol = n < 4e-6 ? 4e-6 : 1e-13;
    ref::M3 ex = n > 0 ? ref::rot(ref::unit(rv(t.rot)), ref::norm(rv(t.rot)) * dt) : ref::M3::I();
    eq(c, rm(addDelta(F.M, t.rot, dt)), ex * rm(F.M), tol, "rotation-exp");
    KDL::Frame G = addDelta(F, t, dt);
    eq(c, rm(G.M), ex * rm(F.M), tol, "frame-rotation");
    eq(c, rv(G.p), rv(F.p) + rv(t.vel) * dt, 1e-13, "frame-position");
    ref::M3 m = rm(G.M);
    eq(c, m * ref::T(m), ref::M3::I(), 1e-14, "stays-orthonormal");
    KDL::Vector a = kv(vec(c.r)), b = kv(vec(c.r));
    double h = c.r.sgn() * c.r.uni(0.1, 3);
    eq(c, rv(diff(a, b, h)), (rv(b) - rv(a)) / h, 1e-13, "vector-diff");
    eq(c, rv(addDelta(a, b, h)), rv(a) + rv(b) * h, 1e-13, "vector-add");
    eq(c, rv(addDelta(a, diff(a, b, h), h)), rv(b), 1e-13, "vector-roundtrip");
    KDL::Twist t2 = kt(screw(c.r)); KDL::Wrench w1 = kw(screw(c.r)), w2 = kw(screw(c.r));
    eq(c, rs(diff(t, t2, h)), (rs(t2) - rs(t)) * (1 / ref::R(h)), 1e-12, "twist-diff");
    eq(c, rs(addDelta(t, t2, h)), rs(t) + rs(t2) * h, 1e-13, "twist-add");
    eq(c, rs(diff(w1, w2, h)), (rs(w2) - rs(w1)) * (1 / ref::R(h)), 1e-12, "wrench-diff");
    eq(c, rs(addDelta(w1, w2, h)), rs(w1) + rs(w2) * h, 1e-13, "wrench-add");
    double x = c.r.uni(-3, 3), y = c.r.uni(-3, 3);
    c.near(KDL::diff(x, y, h), (y - x) / h, 1e-12, "scalar-diff");
    c.near(KDL::addDelta(x, y, h), x + y * h, 1e-13, "scalar-add");
}
static void integrate(Case& c) {
    KDL::Frame F = kframe(c.r), F0 = F;
    KDL::Twist t = kt(screw(c.r, c.r.chance(0.3) ? c.r.logu(1e-3, 1) : 3));
    double f = c.r.logu(0.3, 1000);
    F.Integrate(t, f);
    ref::R n = ref::norm(rv(t.rot)) / f;
    ref::M3 ex = n > 0 ? ref::rot(ref::unit(rv(t.rot)), n) : ref::M3::I();
    double tol = n < 3e-6 || ref::norm(rv(t.rot)) < 3e-6 ? 4e-6 : 1e-13;
    c.cover(n < 1e-6 ? "no-rotation" : "rotation");
    c.desc = fmt("angle %.6Lg freq %.6g", n, f);
    eq(c, rm(F.M), rm(F0.M) * ex, tol, "body-rotation");
    eq(c, rv(F.p), rv(F0.p) + rm(F0.M) * rv(t.vel) / ref::R(f), 1e-13, "body-translation");
    // a long history stays a rigid transformation and closes a full turn
    if (c.r.chance(0.1)) {
        int N = c.r.range(8, 400);
        ref::V3 k = unitvec(c.r);
        KDL::Frame G = F0;
        for (int i = 0; i < N; i++) G.Integrate(KDL::Twist(KDL::Vector::Zero(), kv(k * (2 * ref::PI))), N);
        eq(c, rt(G), rt(F0), 1e-11, "full-turn-closes");
        ref::M3 m = rm(G.M);
        eq(c, m * ref::T(m), ref::M3::I(), 1e-12, "history-orthonormal");
    }
}
static void dh(Case& c) {
    double a = c.r.uni(-2, 2), al = c.r.angle(), d = c.r.uni(-2, 2), th = c.r.angle();
    double tol = 1e-14 * (4 + fabs(al) + fabs(th));
    c.desc = fmt("a=%g alpha=%g d=%g theta=%g", a, al, d, th);
    auto Tr = [](double x, double y, double z) { return ref::T4(ref::M3::I(), ref::V3(x, y, z)); };
    auto Rx = [](double t) { return ref::T4(ref::rotx(t), ref::V3()); };
    auto Rz = [](double t) { return ref::T4(ref::rotz(t), ref::V3()); };
    eq(c, rt(KDL::Frame::DH(a, al, d, th)), Rz(th) * Tr(0, 0, d) * Tr(a, 0, 0) * Rx(al), tol, "dh");
    eq(c, rt(KDL::Frame::DH_Craig1989(a, al, d, th)), Rx(al) * Tr(a, 0, 0) * Rz(th) * Tr(0, 0, d), tol, "dh-craig");
}
int main(int argc, char** argv) {
    Harness H("C03", argc, argv);
    H.rule("rotdiff", 80000, rotdiff);
    H.rule("adddelta", 60000, addd);
    H.rule("integrate", 60000, integrate);
    H.rule("dh", 40000, dh);
    return H.finish();
}
