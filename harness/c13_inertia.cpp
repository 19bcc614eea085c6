// C13: rigid body and articulated body inertias act on twists as the bodies
// they describe, whatever frame or reference point they are expressed in.
#include "gen.hpp"
#include "articulatedbodyinertia.hpp"
#include "rotationalinertia.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
// a body given by point masses: momentum from first principles
struct Cloud { std::vector<ref::R> m; std::vector<ref::V3> p;
    ref::S6 momentum(const ref::S6& t) const { ref::S6 h; for (size_t i = 0; i < m.size(); i++) { ref::V3 l = (t.a + ref::cross(t.b, p[i])) * m[i]; h = h + ref::S6(l, ref::cross(p[i], l)); } return h; }
    ref::R mass() const { ref::R s = 0; for (auto x : m) s += x; return s; }
    ref::V3 com() const { ref::V3 c; for (size_t i = 0; i < m.size(); i++) c = c + p[i] * m[i]; return mass() ? c / mass() : ref::V3(); }
    ref::M3 inertia(const ref::V3& about) const { ref::M3 I; for (size_t i = 0; i < m.size(); i++) { ref::M3 K = ref::skew(p[i] - about); I = I + (ref::T(K) * K) * m[i]; } return I; } };
static Cloud cloud(Case& c) { Cloud k; int n = c.r.range(1, 6); for (int i = 0; i < n; i++) { k.m.push_back(c.r.chance(0.1) ? 0.0 : c.r.uni(0.01, 4)); k.p.push_back(vec(c.r, 1.5)); } return k; }
static RigidBodyInertia rbi(const Cloud& k) { return RigidBodyInertia(double(k.mass()), kv(k.com()), kinertia(k.inertia(k.com()))); }
static ref::S6 shift(const ref::S6& w, const ref::V3& p) { return ref::S6(w.a, w.b - ref::cross(p, w.a)); }   // wrench: same force, moment about p
static ref::S6 tw(const ref::S6& t, const ref::V3& p) { return ref::S6(t.a + ref::cross(t.b, p), t.b); }
static ref::S6 turn(const ref::M3& M, const ref::S6& s) { return ref::S6(M * s.a, M * s.b); }
static ref::M3 em(const Eigen::Matrix3d& m) { ref::M3 o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[i][j] = m(i, j); return o; }
static void rigid(Case& c) {
    Cloud k = cloud(c), k2 = cloud(c); c.desc = fmt("%zu point masses, total %.3Lg", k.m.size(), k.mass());
    RigidBodyInertia I = rbi(k), I2 = rbi(k2);
    double tol = 1e-13 * (20 + 20 * double(k.mass() + k2.mass()));
    c.near(I.getMass(), double(k.mass()), tol, "mass"); if (k.mass() > 1e-3) eq(c, rv(I.getCOG()), k.com(), 1e-12, "cog"); eq(c, rv(I.getSpatialMomentum()), k.com() * k.mass(), tol, "first-moment");
    { RotationalInertia J = I.getRotationalInertia(); ref::M3 o; for (int i = 0; i < 9; i++) o[i / 3][i % 3] = J.data[i]; eq(c, o, k.inertia(ref::V3()), tol, "rotational"); }
    ref::T4 f = rt(kframe(c.r)); Frame F = kf(f); ref::V3 p = rv(kv(vec(c.r))); double s = coef(c.r, 3);
    RigidBodyInertia IF = F * I, IR = F.M * I, IP = I.RefPoint(kv(p)), IS = s * I, IA = I + I2;
    ArticulatedBodyInertia A(I), A2(I2), AF = F * A, AR = F.M * A, AP = A.RefPoint(kv(p)), AS = s * A, AA = A + A2, AD = A - A2, AM = A + I2, AN = A - I2, AC(double(k.mass()), kv(k.com()), kinertia(k.inertia(k.com())));
    for (int r = 0; r < 4; r++) {
        ref::S6 t; if (r) t = rs(kt(screw(c.r))); else if (c.r.chance(0.5)) t.a[c.r.below(3)] = 1; else t.b[c.r.below(3)] = 1;
        Twist T = kt(t); ref::S6 h = k.momentum(t), h2 = k2.momentum(t);
        eq(c, rs(I * T), h, tol, "momentum"); eq(c, rs(A * T), h, tol, "articulated.momentum"); eq(c, rs(AC * T), h, tol, "articulated.ctor");
        eq(c, rs(IS * T), h * s, tol * 3, "scale"); eq(c, rs(AS * T), h * s, tol * 3, "articulated.scale");
        eq(c, rs(IA * T), h + h2, tol, "sum"); eq(c, rs(AA * T), h + h2, tol, "articulated.sum"); eq(c, rs(AD * T), h - h2, tol, "articulated.difference"); eq(c, rs(AM * T), h + h2, tol, "articulated.sum-rigid"); eq(c, rs(AN * T), h - h2, tol, "articulated.difference-rigid");
        // the same motion and momentum seen from elsewhere: transform the cloud, not the matrix
        Cloud kf_ = k, kr = k, kp = k; for (auto& x : kf_.p) x = f * x; for (auto& x : kr.p) x = f.M * x; for (auto& x : kp.p) x = x - p;
        eq(c, rs(IF * T), kf_.momentum(t), tol * 10, "frame"); eq(c, rs(IR * T), kr.momentum(t), tol, "rotate"); eq(c, rs(IP * T), kp.momentum(t), tol * 10, "refpoint");
        eq(c, rs(AF * T), kf_.momentum(t), tol * 10, "articulated.frame"); eq(c, rs(AR * T), kr.momentum(t), tol, "articulated.rotate"); eq(c, rs(AP * T), kp.momentum(t), tol * 10, "articulated.refpoint");
    }
    c.near(IF.getMass(), double(k.mass()), tol, "frame.mass"); c.near(IP.getMass(), double(k.mass()), tol, "refpoint.mass"); c.near(IA.getMass(), double(k.mass() + k2.mass()), tol, "sum.mass");
    if (k.mass() > 1e-3) { eq(c, rv(IF.getCOG()), f * k.com(), 1e-12, "frame.cog"); eq(c, rv(IP.getCOG()), k.com() - p, 1e-12, "refpoint.cog"); }
    Twist t0 = kt(screw(c.r)); eq(c, rs(RigidBodyInertia::Zero() * t0), ref::S6(), 0, "zero"); eq(c, rs(RigidBodyInertia() * t0), ref::S6(), 0, "zero.default"); eq(c, rs(ArticulatedBodyInertia::Zero() * t0), ref::S6(), 0, "zero.articulated"); eq(c, rs(ArticulatedBodyInertia() * t0), ref::S6(), 0, "zero.articulated.default");
    { double d[6]; for (double& x : d) x = c.r.uni(-2, 2); RotationalInertia R0, R1(d[0]), R2(d[0], d[1]), R3(d[0], d[1], d[2]), R4(d[0], d[1], d[2], d[3]), R5(d[0], d[1], d[2], d[3], d[4]), R6(d[0], d[1], d[2], d[3], d[4], d[5]); const RotationalInertia* r[7] = {&R0, &R1, &R2, &R3, &R4, &R5, &R6}; static const int at[9] = {0, 3, 4, 3, 1, 5, 4, 5, 2};
      for (int n = 0; n < 7; n++) { ref::M3 m; for (int i = 0; i < 9; i++) m[i / 3][i % 3] = at[i] < n ? d[at[i]] : 0; ref::V3 w(c.r.uni(-2, 2), c.r.uni(-2, 2), c.r.uni(-2, 2)); eq(c, rv(*r[n] * kv(w)), m * w, 1e-14, "rotational-from-parts"); bool same = true; for (int i = 0; i < 9; i++) same = same && r[n]->data[i] == double(m[i / 3][i % 3]); c.okf(same, "rotational-from-parts", [&] { return fmt("%d values given", n); }); } }
    eq(c, rv(RigidBodyInertia::Zero().getCOG()), ref::V3(), 0, "zero.cog");
}
// a general symmetric 6x6 (as arises inside articulated body recursions)
static void articulated(Case& c) {
    Eigen::Matrix3d M, H, I; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { M(i, j) = c.r.uni(-2, 2); H(i, j) = c.r.uni(-2, 2); I(i, j) = c.r.uni(-2, 2); }
    M = (M + M.transpose()).eval(); I = (I + I.transpose()).eval(); c.desc = fmt("M00 %.3g", M(0, 0));
    ArticulatedBodyInertia A(M, H, I); ref::M3 m = em(M), h = em(H), in = em(I);
    auto mul = [&](const ref::S6& t) { return ref::S6(m * t.a + ref::T(h) * t.b, in * t.b + h * t.a); };
    ref::T4 f = rt(kframe(c.r)); Frame F = kf(f); ref::V3 p = rv(kv(vec(c.r)));
    ArticulatedBodyInertia AF = F * A, AR = F.M * A, AP = A.RefPoint(kv(p));
    for (int r = 0; r < 4; r++) {
        ref::S6 t = rs(kt(screw(c.r)));
        eq(c, rs(A * kt(t)), mul(t), 1e-12, "apply");
        // t seen in the new frame; go back, apply, come forward
        ref::M3 Rt = ref::T(f.M);
        ref::S6 tb = turn(Rt, tw(t, f.p)), wb = mul(tb), w = turn(f.M, wb); w = shift(w, -f.p);
        eq(c, rs(AF * kt(t)), w, 3e-11, "frame"); eq(c, rs(AR * kt(t)), turn(f.M, mul(turn(Rt, t))), 1e-12, "rotate"); eq(c, rs(AP * kt(t)), shift(mul(tw(t, -p)), p), 3e-11, "refpoint");
    }
    eq(c, em(AF.M), ref::T(em(AF.M)), 1e-12, "symmetric.M"); eq(c, em(AF.I), ref::T(em(AF.I)), 1e-10, "symmetric.I");
}
static void rotational(Case& c) {
    double d[6]; for (double& x : d) x = coef(c.r, 3); RotationalInertia I(d[0], d[1], d[2], d[3], d[4], d[5]); double e[6]; for (double& x : e) x = coef(c.r, 3); RotationalInertia J(e[0], e[1], e[2], e[3], e[4], e[5]);
    auto mat = [](const double* q) { ref::M3 m; m[0][0] = q[0]; m[1][1] = q[1]; m[2][2] = q[2]; m[0][1] = m[1][0] = q[3]; m[0][2] = m[2][0] = q[4]; m[1][2] = m[2][1] = q[5]; return m; };
    c.desc = fmt("Ixx %.3g Iyy %.3g Izz %.3g", d[0], d[1], d[2]); ref::V3 w = rv(kv(vec(c.r))); double s = coef(c.r);
    eq(c, rv(I * kv(w)), mat(d) * w, 1e-13, "apply"); eq(c, rv((s * I) * kv(w)), (mat(d) * w) * s, 1e-12, "scale"); eq(c, rv((I + J) * kv(w)), (mat(d) + mat(e)) * w, 1e-12, "sum"); eq(c, rv(RotationalInertia::Zero() * kv(w)), ref::V3(), 0, "zero");
}
int main(int argc, char** argv) {
    Harness H("C13", argc, argv);
    H.rule("rigid", 12000, rigid);
    H.rule("articulated", 12000, articulated);
    H.rule("rotational", 4000, rotational);
    return H.finish();
}
