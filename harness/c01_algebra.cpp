// C01: rigid-body algebra of Vector/Rotation/Frame/Twist/Wrench against the
// long-double model, plus the group laws on whole random expression sequences.
#include "gen.hpp"
#include "stiffness.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
static const double E = 1e-15;
static double mg(const ref::V3& a) { return 1 + double(ref::norm(a)); }
static KDL::Twist T(const ref::S6& s) { return kt(s); }

static void vectors(Case& c) {
    double mag = c.r.chance(0.2) ? c.r.logu(1e-3, 1e6) : 2;
    KDL::Vector a = kv(vec(c.r, mag)), b = kv(vec(c.r, mag)), cc = kv(vec(c.r, mag));
    ref::V3 A = rv(a), B = rv(b), C = rv(cc);
    double k = c.r.chance(0.1) ? 1 : c.r.sgn() * c.r.uni(0.1, 3), m = mag + 1;
    c.desc = fmt("a=") + s(A) + " b=" + s(B);
    c.cover(mag > 10 ? "large" : "ordinary");
    eq(c, rv(a + b), A + B, 4 * E * m, "add");
    eq(c, rv(a - b), A - B, 4 * E * m, "sub");
    eq(c, rv(-a), -A, 0, "neg");
    eq(c, rv(a * k), A * k, 8 * E * m * fabs(k), "scale-right");
    eq(c, rv(k * a), A * k, 8 * E * m * fabs(k), "scale-left");
    eq(c, rv(a / k), A / k, 8 * E * m / fabs(k), "divide");
    eq(c, rv(a * b), ref::cross(A, B), 16 * E * m * m, "cross");
    c.near(KDL::dot(a, b), double(ref::dot(A, B)), 16 * E * m * m, "dot");
    { KDL::Vector t(a); t += b; eq(c, rv(t), A + B, 4 * E * m, "add-assign"); t -= cc; eq(c, rv(t), A + B - C, 12 * E * m, "sub-assign"); }
    { KDL::Vector t(a); t += t; eq(c, rv(t), A * 2, 4 * E * m, "add-assign-self"); KDL::Vector u(b); u -= u; eq(c, rv(u), ref::V3(), 0, "sub-assign-self"); }
    { KDL::Vector t(a); t.ReverseSign(); eq(c, rv(t), -A, 0, "reverse"); }
    // vector identities
    eq(c, rv(a * (b * cc)), B * ref::dot(A, C) - C * ref::dot(A, B), 64 * E * m * m * m, "triple-product");
    c.near(KDL::dot(a, b * cc), KDL::dot(cc, a * b), 64 * E * m * m * m, "triple-scalar");
    // norm and normalize; the library's length resolution is epsilon = 1e-6
    double n = a.Norm(), N = double(ref::norm(A));
    c.near(n, N, N < 2e-6 ? 2e-6 : 8 * E * N, "norm");
    KDL::Vector u(a);
    double rn = u.Normalize();
    if (N > 2e-6) {
        c.near(rn, N, 8 * E * N, "normalize-returns-norm");
        eq(c, rv(u), ref::unit(A), 8 * E, "normalize");
        c.cover("normalize-regular");
    } else {
        c.near(u.Norm(), 1, 1e-12, "normalize-degenerate-unit");
        c.cover("normalize-degenerate");
    }
    // a threshold given by the caller is compared with the length, not with the components
    if (N > 1e-5) { double f = c.r.chance(0.5) ? c.r.uni(0.5, 2.5) : c.r.logu(1e-5, 1e5); if (fabs(f - 1) > 1e-6) { KDL::Vector w(a); double r = w.Normalize(N * f); if (f < 1) { c.near(r, N, 8 * E * N, "normalize-eps.norm"); eq(c, rv(w), ref::unit(A), 8 * E, "normalize-eps"); } else { c.near(r, 0, 0, "normalize-eps.norm"); eq(c, rv(w), ref::V3(1, 0, 0), 0, "normalize-eps"); } } }
    double big = c.r.logu(1e100, 1e200);
    KDL::Vector h(a.x() * big, a.y() * big, a.z() * big);
    if (N > 1e-3) c.near(h.Norm() / big, N, 1e-13 * N, "norm-no-overflow");
    KDL::Vector z(a);
    SetToZero(z);
    eq(c, rv(z), ref::V3(), 0, "set-to-zero");
    for (int i = 0; i < 3; i++) c.ok(a(i) == a.data[i] && a[i] == a.data[i], "index");
    c.ok(a.x() == a(0) && a.y() == a(1) && a.z() == a(2), "xyz");
    KDL::Vector w; w.x(1.5); w.y(-2); w.z(k); c.ok(w(0) == 1.5 && w(1) == -2 && w(2) == k, "set-xyz");
}

static void rotations(Case& c) {
    KDL::Rotation P = km(rotation(c.r)), Q = km(rotation(c.r)), S = km(rotation(c.r));
    ref::M3 p = rm(P), q = rm(Q), r = rm(S);
    KDL::Vector v = kv(vec(c.r));
    ref::V3 V = rv(v);
    c.desc = "P=" + s(p) + " v=" + s(V);
    eq(c, rm(P * Q), p * q, 8 * E, "compose");
    eq(c, rv(P * v), p * V, 8 * E * mg(V), "apply");
    eq(c, rm(P.Inverse()), ref::T(p), 0, "inverse-is-transpose");
    eq(c, rv(P.Inverse(v)), ref::T(p) * V, 8 * E * mg(V), "inverse-apply");
    { KDL::Rotation t(P); t.SetInverse(); eq(c, rm(t), ref::T(p), 0, "set-inverse"); }
    eq(c, rm((P * Q) * S), rm(P * (Q * S)), 16 * E, "associative");
    eq(c, rm(P * P.Inverse()), ref::M3::I(), 16 * E, "right-inverse");
    eq(c, rm(P.Inverse() * P), ref::M3::I(), 16 * E, "left-inverse");
    eq(c, rm((P * Q).Inverse()), rm(Q.Inverse() * P.Inverse()), 16 * E, "inverse-of-product");
    eq(c, rm(P * KDL::Rotation::Identity()), p, 0, "identity-right");
    eq(c, rm(KDL::Rotation::Identity() * P), p, 0, "identity-left");
    eq(c, rv((P * Q) * v), rv(P * (Q * v)), 16 * E * mg(V), "action");
    { KDL::Rotation t(P); t = t * t; eq(c, rm(t), p * p, 8 * E, "self-compose"); }
    { KDL::Rotation t(P.UnitX(), P.UnitY(), P.UnitZ()); eq(c, rm(t), p, 0, "column-ctor");
      KDL::Rotation u; u.UnitX(P.UnitX()); u.UnitY(P.UnitY()); u.UnitZ(P.UnitZ()); eq(c, rm(u), p, 0, "unit-setters"); }
    eq(c, rv(P * KDL::Vector(1, 0, 0)), rv(P.UnitX()), 4 * E, "unit-x");
    eq(c, rv(P * KDL::Vector(0, 1, 0)), rv(P.UnitY()), 4 * E, "unit-y");
    eq(c, rv(P * KDL::Vector(0, 0, 1)), rv(P.UnitZ()), 4 * E, "unit-z");
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.ok(((const KDL::Rotation&)P)(i, j) == P.data[3 * i + j], "index");
    { KDL::Rotation t(P); t(0, 1) = 3; t(2, 0) = -4; c.ok(t.data[1] == 3 && t.data[6] == -4, "index-write"); }
    // rotation preserves lengths, angles and handedness
    KDL::Vector w = kv(vec(c.r));
    c.near(KDL::dot(P * v, P * w), KDL::dot(v, w), 64 * E * mg(V) * mg(rv(w)), "isometry");
    eq(c, rv((P * v) * (P * w)), rv(P * (v * w)), 64 * E * mg(V) * mg(rv(w)), "cross-covariant");
}

// a long random program over the group operations, mirrored in the model:
// orthonormality and agreement must survive any history of operations
static void programs(Case& c) {
    int n = c.r.range(5, 60);
    KDL::Frame F = kframe(c.r);
    ref::T4 f = rt(F);
    KDL::Frame G = F;
    ref::T4 g = f;
    std::string ops;
    for (int i = 0; i < n; i++) {
        KDL::Frame H = kframe(c.r, 1);
        ref::T4 h = rt(H);
        int op = c.r.below(9);
        ops += char('0' + op);
        double a = c.r.angle();
        switch (op) {
        case 0: F = F * H; f = f * h; break;
        case 1: F = H * F; f = h * f; break;
        case 2: F = F.Inverse(); f = ref::inv(f); break;
        case 3: F = F * G.Inverse(); f = f * ref::inv(g); G = H; g = h; break;
        case 4: F.M.DoRotX(a); f.M = f.M * ref::rotx(a); break;
        case 5: F.M.DoRotY(a); f.M = f.M * ref::roty(a); break;
        case 6: F.M.DoRotZ(a); f.M = f.M * ref::rotz(a); break;
        case 7: F.p = H * F.p; f.p = h * f.p; break;
        case 8: F = KDL::Frame(F.M.Inverse(), H.Inverse(F.p)); f = ref::T4(ref::T(f.M), ref::inv(h) * f.p); break;
        }
        if (ref::norm(f.p) > 50) { F.p = KDL::Vector(); f.p = ref::V3(); }
    }
    c.desc = "ops " + ops;
    eq(c, rt(F), f, 1e-14 * (n + 10) * 60, "history");
    ref::M3 m = rm(F.M);
    eq(c, m * ref::T(m), ref::M3::I(), 1e-14 * (n + 10), "orthonormal");
    c.near(double(ref::det(m)), 1, 1e-14 * (n + 10), "determinant");
}

static void frames(Case& c) {
    KDL::Frame F = kframe(c.r), G = kframe(c.r), H = kframe(c.r);
    ref::T4 f = rt(F), g = rt(G);
    KDL::Vector v = kv(vec(c.r));
    ref::V3 V = rv(v);
    double m = 64 * E * 8;
    c.desc = "F=" + s(f.M) + s(f.p);
    eq(c, rt(F * G), f * g, m, "compose");
    eq(c, rv(F * v), f * V, m, "apply");
    eq(c, rt(F.Inverse()), ref::inv(f), m, "inverse");
    eq(c, rv(F.Inverse(v)), ref::inv(f) * V, m, "inverse-apply");
    eq(c, rt((F * G) * H), rt(F * (G * H)), m, "associative");
    eq(c, rt(F * F.Inverse()), ref::T4(), m, "right-inverse");
    eq(c, rt(F.Inverse() * F), ref::T4(), m, "left-inverse");
    eq(c, rt(F * KDL::Frame::Identity()), f, 0, "identity");
    eq(c, rt(KDL::Frame::Identity() * F), f, 0, "identity-left");
    eq(c, rt(KDL::Frame(F.M)), ref::T4(f.M, ref::V3()), 0, "from-rotation");
    eq(c, rt(KDL::Frame(F.p)), ref::T4(ref::M3::I(), f.p), 0, "from-vector");
    { KDL::Frame t(F); t = t * t; eq(c, rt(t), f * f, m, "self-compose"); }
    double d[16];
    F.Make4x4(d);
    const KDL::Frame& CF = F;
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) {
            double e = i == 3 ? (j == 3 ? 1 : 0) : j == 3 ? double(f.p[i]) : double(f.M[i][j]);
            c.ok(d[4 * i + j] == e, "make4x4");
            c.ok(CF(i, j) == e && F(i, j) == e, "homogeneous-index");
        }
}

static void screws(Case& c) {
    KDL::Frame F = kframe(c.r), G = kframe(c.r);
    ref::T4 f = rt(F);
    KDL::Twist t = T(screw(c.r)), t2 = T(screw(c.r));
    KDL::Wrench w = kw(screw(c.r)), w2 = kw(screw(c.r));
    ref::S6 a = rs(t), b = rs(w);
    KDL::Vector v = kv(vec(c.r)), v2 = kv(vec(c.r));
    ref::V3 V = rv(v);
    double m = 64 * E * 32, k = c.r.sgn() * c.r.uni(0.2, 3);
    c.desc = "t=" + s(a.a) + s(a.b) + " w=" + s(b.a) + s(b.b);
    // reference definitions
    auto ft = [](const ref::T4& x, const ref::S6& y) { ref::V3 w = x.M * y.b; return ref::S6(x.M * y.a + ref::cross(x.p, w), w); };
    auto fw = [](const ref::T4& x, const ref::S6& y) { ref::V3 q = x.M * y.a; return ref::S6(q, x.M * y.b + ref::cross(x.p, q)); };
    eq(c, rs(F * t), ft(f, a), m, "frame-twist");
    eq(c, rs(F * w), fw(f, b), m, "frame-wrench");
    eq(c, rs(F.Inverse(t)), ft(ref::inv(f), a), m, "frame-inverse-twist");
    eq(c, rs(F.Inverse(w)), fw(ref::inv(f), b), m, "frame-inverse-wrench");
    eq(c, rs(F.M * t), ref::S6(f.M * a.a, f.M * a.b), m, "rotation-twist");
    eq(c, rs(F.M * w), ref::S6(f.M * b.a, f.M * b.b), m, "rotation-wrench");
    eq(c, rs(F.M.Inverse(t)), ref::S6(ref::T(f.M) * a.a, ref::T(f.M) * a.b), m, "rotation-inverse-twist");
    eq(c, rs(F.M.Inverse(w)), ref::S6(ref::T(f.M) * b.a, ref::T(f.M) * b.b), m, "rotation-inverse-wrench");
    eq(c, rs(t.RefPoint(v)), ref::S6(a.a + ref::cross(a.b, V), a.b), m, "twist-refpoint");
    eq(c, rs(w.RefPoint(v)), ref::S6(b.a, b.b + ref::cross(b.a, V)), m, "wrench-refpoint");
    // laws
    eq(c, rs(F * (G * t)), rs((F * G) * t), m * 4, "twist-functorial");
    eq(c, rs(F * (G * w)), rs((F * G) * w), m * 4, "wrench-functorial");
    eq(c, rs(F.Inverse(F * t)), a, m * 4, "twist-roundtrip");
    eq(c, rs(F.Inverse(F * w)), b, m * 4, "wrench-roundtrip");
    eq(c, rs(t.RefPoint(v).RefPoint(v2)), rs(t.RefPoint(v + v2)), m, "twist-refpoint-additive");
    eq(c, rs(w.RefPoint(v).RefPoint(v2)), rs(w.RefPoint(v + v2)), m, "wrench-refpoint-additive");
    eq(c, rs(t.RefPoint(v).RefPoint(-v)), a, m, "twist-refpoint-inverse");
    // power is invariant under change of frame and of reference point
    double p = KDL::dot(t, w), pr = double(ref::dot(a.a, b.a) + ref::dot(a.b, b.b));
    c.near(p, pr, m, "power");
    c.near(KDL::dot(w, t), pr, m, "power-commutes");
    c.near(KDL::dot(F * t, F * w), pr, m * 16, "power-frame-invariant");
    c.near(KDL::dot(F.Inverse(t), F.Inverse(w)), pr, m * 16, "power-inverse-frame-invariant");
    c.near(KDL::dot(t.RefPoint(v), w.RefPoint(v)), pr, m * 16, "power-refpoint-invariant");
    c.near(KDL::dot(F.M * t, F.M * w), pr, m * 16, "power-rotation-invariant");
    // spatial cross products and their duality
    ref::S6 a2 = rs(t2);
    eq(c, rs(t * t2), ref::S6(ref::cross(a.b, a2.a) + ref::cross(a.a, a2.b), ref::cross(a.b, a2.b)), m, "twist-cross");
    eq(c, rs(t * w), ref::S6(ref::cross(a.b, b.a), ref::cross(a.b, b.b) + ref::cross(a.a, b.a)), m, "twist-cross-wrench");
    c.near(KDL::dot(t * t2, w) + KDL::dot(t2, t * w), 0, m * 16, "cross-duality");
    eq(c, rs(F * (t * t2)), rs((F * t) * (F * t2)), m * 16, "cross-covariant");
    // linear structure
    eq(c, rs(t + t2), a + a2, m, "twist-add"); eq(c, rs(t - t2), a - a2, m, "twist-sub");
    eq(c, rs(w + w2), b + rs(w2), m, "wrench-add"); eq(c, rs(w - w2), b - rs(w2), m, "wrench-sub");
    eq(c, rs(t * k), a * k, m, "twist-scale"); eq(c, rs(k * t), a * k, m, "twist-scale-left"); eq(c, rs(t / k), a * (1 / ref::R(k)), m, "twist-divide");
    eq(c, rs(w * k), b * k, m, "wrench-scale"); eq(c, rs(k * w), b * k, m, "wrench-scale-left"); eq(c, rs(w / k), b * (1 / ref::R(k)), m, "wrench-divide");
    eq(c, rs(-t), a * -1, 0, "twist-neg"); eq(c, rs(-w), b * -1, 0, "wrench-neg");
    { KDL::Twist x(t); x += t2; eq(c, rs(x), a + a2, m, "twist-add-assign"); x -= t; eq(c, rs(x), a2, m, "twist-sub-assign"); x.ReverseSign(); eq(c, rs(x), a2 * -1, m, "twist-reverse"); }
    { KDL::Wrench x(w); x += w2; eq(c, rs(x), b + rs(w2), m, "wrench-add-assign"); x -= w; eq(c, rs(x), rs(w2), m, "wrench-sub-assign"); x.ReverseSign(); eq(c, rs(x), rs(w2) * -1, m, "wrench-reverse"); }
    { KDL::Twist x(t); SetToZero(x); eq(c, rs(x), ref::S6(), 0, "twist-zero"); eq(c, rs(KDL::Twist::Zero()), ref::S6(), 0, "twist-Zero"); }
    { KDL::Wrench x(w); SetToZero(x); eq(c, rs(x), ref::S6(), 0, "wrench-zero"); eq(c, rs(KDL::Wrench::Zero()), ref::S6(), 0, "wrench-Zero"); }
    { // a diagonal stiffness maps a displacement to its load and back
        double d[6], e[6]; for (int i = 0; i < 6; i++) { d[i] = c.r.logu(1e-3, 1e3) * c.r.sgn(); e[i] = c.r.uni(-5, 5); }
        auto tolS = [](const ref::S6& o) { ref::R mx = 0; for (int i = 0; i < 3; i++) mx = std::max(mx, std::max(fabsl(o.a[i]), fabsl(o.b[i]))); return double(1e-15L * mx + 1e-300L); };
        ref::R amax = 0; for (int i = 0; i < 3; i++) amax = std::max(amax, std::max(fabsl(a.a[i]), fabsl(a.b[i])));
        const KDL::Stiffness K(d), L(e[0], e[1], e[2], e[3], e[4], e[5]); KDL::Stiffness S = K + L, Z; ref::S6 x, y, z; for (int i = 0; i < 3; i++) { x.a[i] = a.a[i] * d[i]; x.b[i] = a.b[i] * d[i + 3]; y.a[i] = b.a[i] / d[i]; y.b[i] = b.b[i] / d[i + 3]; z.a[i] = a.a[i] * (ref::R(d[i]) + e[i]); z.b[i] = a.b[i] * (ref::R(d[i + 3]) + e[i + 3]); }
        eq(c, rs(K * t), x, tolS(x), "stiffness-load"); eq(c, rs(K.Inverse(w)), y, tolS(y), "stiffness-inverse"); eq(c, rs(K.Inverse(K * t)), a, tolS(a), "stiffness-roundtrip"); eq(c, rs(S * t), z, tolS(x) + 5e-15 * double(amax), "stiffness-sum"); eq(c, rs(Z * t), ref::S6(), 0, "stiffness-default");
        for (int i = 0; i < 6; i++) { Z[i] = d[i]; c.ok(K[i] == d[i] && L[i] == e[i], "stiffness-index"); } eq(c, rs(Z * t), x, tolS(x), "stiffness-write");
    }
    for (int i = 0; i < 6; i++) {
        const KDL::Twist& ct = t; const KDL::Wrench& cw = w;
        c.ok(ct(i) == double(a[i]) && t[i] == double(a[i]) && ct[i] == double(a[i]), "twist-index");
        c.ok(cw(i) == double(b[i]) && w[i] == double(b[i]) && cw[i] == double(b[i]), "wrench-index");
        KDL::Twist x; x(i) = 7; KDL::Wrench y; y(i) = 7;
        c.ok((i < 3 ? x.vel(i) : x.rot(i - 3)) == 7 && (i < 3 ? y.force(i) : y.torque(i - 3)) == 7, "screw-index-write");
    }
}

// physical meaning: the twist of a rigid motion moves every body point correctly
static void motion(Case& c) {
    KDL::Frame F = kframe(c.r);
    KDL::Twist t = T(screw(c.r));   // reference point at the origin of F, expressed in the world
    KDL::Vector pt = kv(vec(c.r)), wpt = F * pt;
    KDL::Vector vp = t.RefPoint(wpt - F.p).vel;
    const double h = 1e-6;
    ref::V3 w = rv(t.rot);
    ref::M3 R = ref::norm(w) > 0 ? ref::rot(ref::unit(w), ref::norm(w) * h) : ref::M3::I();
    ref::M3 Rm = ref::T(R);
    ref::V3 d = rm(F.M) * rv(pt);
    ref::V3 num = ((R * d + rv(t.vel) * h) - (Rm * d - rv(t.vel) * h)) / (2 * h);
    eq(c, rv(vp), num, 1e-9, "point-velocity");
    // a force at a point gives the moment r x f about any reference
    KDL::Vector fo = kv(vec(c.r)), at = kv(vec(c.r)), ab = kv(vec(c.r));
    KDL::Wrench w0(fo, KDL::Vector::Zero());
    KDL::Wrench w1 = w0.RefPoint(ab - at);
    eq(c, rv(w1.torque), ref::cross(rv(at) - rv(ab), rv(fo)), 1e-13, "moment-of-force");
    c.desc = "pt=" + s(rv(pt));
}

static void randoms(Case& c) {
    KDL::Rotation R; KDL::Frame F; KDL::Vector v; KDL::Twist t; KDL::Wrench w;
    srand(unsigned(c.r.next()));
    KDL::random(R); KDL::random(F); KDL::random(v); KDL::random(t); KDL::random(w);
    ref::M3 m = rm(R), m2 = rm(F.M);
    eq(c, m * ref::T(m), ref::M3::I(), 1e-14, "random-rotation-orthonormal");
    eq(c, m2 * ref::T(m2), ref::M3::I(), 1e-14, "random-frame-orthonormal");
    c.near(double(ref::det(m)), 1, 1e-14, "random-rotation-handed");
    KDL::posrandom(R);
    m = rm(R);
    eq(c, m * ref::T(m), ref::M3::I(), 1e-14, "posrandom-rotation-orthonormal");
    c.desc = s(m);
}

int main(int argc, char** argv) {
    Harness H("C01", argc, argv);
    H.rule("vectors", 60000, vectors);
    H.rule("rotations", 40000, rotations);
    H.rule("frames", 30000, frames);
    H.rule("screws", 40000, screws);
    H.rule("programs", 15000, programs);
    H.rule("motion", 20000, motion);
    H.rule("randoms", 5000, randoms);
    return H.finish();
}
