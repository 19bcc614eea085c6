// C02: every rotation parametrisation denotes the documented rotation, and the
// extraction functions invert it, in range, everywhere including singularities.
#include "gen.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
static const double PI = 3.14159265358979323846;
static const double E = 1e-15;
static double clampc(double x) { return x; }

static void elementary(Case& c) {
    double a = c.r.angle();
    c.desc = fmt("angle %.17g", a);
    double t = 4 * E * (1 + fabs(a));
    eq(c, rm(KDL::Rotation::RotX(a)), ref::rotx(a), t, "rotx");
    eq(c, rm(KDL::Rotation::RotY(a)), ref::roty(a), t, "roty");
    eq(c, rm(KDL::Rotation::RotZ(a)), ref::rotz(a), t, "rotz");
    ref::V3 ax = unitvec(c.r);
    KDL::Vector k = kv(ax);
    eq(c, rm(KDL::Rotation::Rot2(k, a)), ref::rot(ref::unit(rv(k)), a), 8 * E * (1 + fabs(a)), "rot2");
    double L = c.r.chance(0.3) ? c.r.logu(1e-4, 1e8) : c.r.uni(0.1, 10);
    KDL::Vector kk = k * L;
    eq(c, rm(KDL::Rotation::Rot(kk, a)), ref::rot(ref::unit(rv(kk)), a), 8 * E * (1 + fabs(a)), "rot-unnormalised-axis");
    // documented: identity when the axis is too small to be used
    eq(c, rm(KDL::Rotation::Rot(KDL::Vector::Zero(), a)), ref::M3::I(), 0, "rot-zero-axis-is-identity");
    // rotation vector
    eq(c, rm(KDL::Rot(k * a)), ref::rot(ref::unit(rv(k)), a), 8 * E * (1 + fabs(a)) + (fabs(a) < 4e-6 ? 4e-6 : 0), "rotation-vector");
    KDL::Rotation R = km(rotation(c.r)), X = R;
    X.DoRotX(a); eq(c, rm(X), rm(R) * ref::rotx(a), 2 * t, "do-rotx");
    X = R; X.DoRotY(a); eq(c, rm(X), rm(R) * ref::roty(a), 2 * t, "do-roty");
    X = R; X.DoRotZ(a); eq(c, rm(X), rm(R) * ref::rotz(a), 2 * t, "do-rotz");
}

static void constructors(Case& c) {
    double r = c.r.angle(), p = c.r.angle(), y = c.r.angle();
    double t = 8 * E * (3 + fabs(r) + fabs(p) + fabs(y));
    c.desc = fmt("angles %.17g %.17g %.17g", r, p, y);
    eq(c, rm(KDL::Rotation::RPY(r, p, y)), ref::rotz(y) * ref::roty(p) * ref::rotx(r), t, "rpy");
    eq(c, rm(KDL::Rotation::EulerZYX(y, p, r)), ref::rotz(y) * ref::roty(p) * ref::rotx(r), t, "zyx");
    eq(c, rm(KDL::Rotation::EulerZYZ(r, p, y)), ref::rotz(r) * ref::roty(p) * ref::rotz(y), t, "zyz");
    eq(c, rm(KDL::Rotation::RPY(r + PI, PI - p, y + PI)), rm(KDL::Rotation::RPY(r, p, y)), 4 * t, "rpy-invariant");
    eq(c, rm(KDL::Rotation::EulerZYZ(r + PI, -p, y - PI)), rm(KDL::Rotation::EulerZYZ(r, p, y)), 4 * t, "zyz-invariant");
    // unit quaternion of a known axis-angle
    ref::V3 k = unitvec(c.r);
    ref::R h = r / 2;
    eq(c, rm(KDL::Rotation::Quaternion(double(k[0] * sinl(h)), double(k[1] * sinl(h)), double(k[2] * sinl(h)), double(cosl(h)))),
       ref::rot(k, r), 16 * E * (1 + fabs(r)), "quaternion");
}

// a rotation biased to the singularities of every parametrisation
static ref::M3 nasty(Case& c) {
    double e = c.r.chance(0.5) ? 0 : c.r.sgn() * c.r.logu(1e-16, 1e-2);
    switch (c.r.below(7)) {
    case 0: c.cover("gimbal-rpy"); return ref::rotz(c.r.angle()) * ref::roty(c.r.sgn() * ref::PI / 2 + e) * ref::rotx(c.r.angle());
    case 1: c.cover("gimbal-zyz"); return ref::rotz(c.r.angle()) * ref::roty((c.r.below(2) ? ref::PI : 0) + e) * ref::rotz(c.r.angle());
    case 2: c.cover("near-pi"); return ref::rot(unitvec(c.r), ref::PI + e);
    case 3: c.cover("near-identity"); return ref::rot(unitvec(c.r), e);
    case 4: { c.cover("near-120"); return ref::rot(unitvec(c.r), 2 * ref::PI / 3 + e); }   // trace 0: quaternion branch switch
    case 5: { // axes with (nearly) equal largest components, rotated by pi
        c.cover("pi-tied-axes");
        ref::V3 a(c.r.sgn(), c.r.sgn() * (1 + e), c.r.chance(0.5) ? 0 : c.r.sgn());
        if (c.r.chance(0.5)) std::swap(a[0], a[2]);
        return ref::rot(ref::unit(a), ref::PI);
    }
    default: c.cover("generic"); return rotation(c.r);
    }
}

static void extract(Case& c) {
    ref::M3 m = nasty(c);
    KDL::Rotation R = km(m);
    c.desc = "R=" + s(rm(R));
    double a, b, g;
    // roll pitch yaw
    R.GetRPY(a, b, g);
    c.ok(a >= -PI && a <= PI && g >= -PI && g <= PI && b >= -PI / 2 && b <= PI / 2, "rpy-range", fmt("%.17g %.17g %.17g", a, b, g));
    double cp = hypot(R.data[0], R.data[3]);
    // conditioning of the extraction: rounding of the entries divided by cos(pitch)
    double tol = 1e-14 + (cp < 4e-12 ? 3e-11 : 8e-16 / cp);
    eq(c, rm(KDL::Rotation::RPY(a, b, g)), rm(R), tol, "rpy-inverse");
    if (cp < 1e-13) c.ok(a == 0, "rpy-gimbal-roll-zero", fmt("roll %.17g", a));
    double z1, z2, z3;
    R.GetEulerZYX(z1, z2, z3);
    c.ok(z1 == g && z2 == b && z3 == a, "zyx-is-rpy");
    // ZYZ
    R.GetEulerZYZ(a, b, g);
    c.ok(a >= -PI && a <= PI && g >= -PI && g <= PI && b >= 0 && b <= PI, "zyz-range", fmt("%.17g %.17g %.17g", a, b, g));
    double sb = hypot(R.data[2], R.data[5]);
    tol = 1e-14 + (sb < 3e-6 ? 6e-6 : 8e-16 / sb);
    eq(c, rm(KDL::Rotation::EulerZYZ(a, b, g)), rm(R), tol, "zyz-inverse");
    if (sb < 1e-7) c.ok(g == 0, "zyz-gimbal-gamma-zero", fmt("gamma %.17g", g));
    // quaternion
    double x, y, z, w;
    R.GetQuaternion(x, y, z, w);
    c.near(sqrt(x * x + y * y + z * z + w * w), 1, 1e-14, "quaternion-unit");
    eq(c, rm(KDL::Rotation::Quaternion(x, y, z, w)), rm(R), 2e-14, "quaternion-inverse");
    // axis-angle; the routine resolves the two singular configurations to `eps`
    double eps = c.r.chance(0.7) ? 1e-6 : c.r.logu(1e-6, 1e-3);
    KDL::Vector ax;
    double th = eps == 1e-6 ? R.GetRotAngle(ax) : R.GetRotAngle(ax, eps);
    double tr = double(ref::angleOf(rm(R)));
    c.ok(th >= 0 && th <= PI + 1e-15, "angle-range", fmt("%.17g", th));
    c.near(double(ref::norm(rv(ax))), 1, 20 * eps, "axis-unit");
    double sing = std::min(tr, PI - tr);
    tol = sing < 20 * eps ? 12 * eps : 1e-13 + 1e-15 / sing;
    c.near(th, tr, sing < 20 * eps ? 8 * eps : 1e-13, "angle");
    eq(c, rm(KDL::Rotation::Rot2(ax, th)), rm(R), tol, "axis-angle-inverse");
    if (tr < 1e-9) c.ok(th == 0 && ax.z() == 1, "axis-at-identity-is-z", s(rv(ax)));
    if (PI - tr < 1e-9) c.ok(ax.z() > -1e-5 && fabs(th - PI) < 1e-15, "axis-at-pi-has-positive-z", s(rv(ax)));
    KDL::Vector rot = R.GetRot();
    double tr2 = sing < 2e-5 ? 1.2e-5 : 1e-13 + 4e-15 / sing;
    eq(c, sing < 2e-5 && PI - tr < 1 ? rm(KDL::Rotation::Rot(rot, rot.Norm())) : rm(KDL::Rot(rot)), rm(R), tr2, "rotvec-inverse");
    c.near(double(ref::norm(rv(rot))), tr, sing < 2e-5 ? 8e-6 : 1e-13, "rotvec-length-is-angle");
}

// extraction is left inverse of construction inside the documented ranges
static void principal(Case& c) {
    double r = c.r.uni(-PI, PI), p = c.r.uni(-PI / 2, PI / 2), y = c.r.uni(-PI, PI), a, b, g;
    c.desc = fmt("%.17g %.17g %.17g", r, p, y);
    double m = std::min({PI - fabs(r), PI - fabs(y)});
    if (cos(p) > 1e-3 && m > 1e-6) {
        KDL::Rotation::RPY(r, p, y).GetRPY(a, b, g);
        double t = 2e-15 / cos(p) + 1e-14;
        c.near(a, r, t, "roll"); c.near(b, p, t, "pitch"); c.near(g, y, t, "yaw");
        KDL::Rotation::EulerZYX(r, p, y).GetEulerZYX(a, b, g);
        c.near(a, r, t, "zyx-alpha"); c.near(b, p, t, "zyx-beta"); c.near(g, y, t, "zyx-gamma");
    }
    double be = c.r.uni(0, PI);
    if (sin(be) > 1e-3 && m > 1e-6) {
        KDL::Rotation::EulerZYZ(r, be, y).GetEulerZYZ(a, b, g);
        double t = 2e-15 / sin(be) + 1e-14;
        c.near(a, r, t, "zyz-alpha"); c.near(b, be, t, "zyz-beta"); c.near(g, y, t, "zyz-gamma");
    }
    ref::V3 k = unitvec(c.r);
    double th = c.r.uni(1e-3, PI - 1e-3);
    KDL::Vector ax;
    double got = KDL::Rotation::Rot(kv(k), th).GetRotAngle(ax);
    double t = 1e-14 + 2e-15 / sin(th);
    c.near(got, th, t, "rot-angle");
    eq(c, rv(ax), k, t, "rot-axis");
    eq(c, rv(KDL::Rotation::Rot(kv(k), th).GetRot()), k * th, 4 * t, "rot-vector");
    // quaternion up to the double cover
    ref::R h = th / 2, q[4] = {k[0] * sinl(h), k[1] * sinl(h), k[2] * sinl(h), cosl(h)};
    double o[4];
    KDL::Rotation::Rot(kv(k), th).GetQuaternion(o[0], o[1], o[2], o[3]);
    double dp = 0, dm = 0;
    for (int i = 0; i < 4; i++) { dp = std::max(dp, double(fabsl(o[i] - q[i]))); dm = std::max(dm, double(fabsl(o[i] + q[i]))); }
    c.ok(std::min(dp, dm) < 1e-14, "quaternion-cover", fmt("%g %g", dp, dm));
}

// exhaustive: all products of quarter turns (the 24 proper cube rotations and
// their half-turn neighbours) through every extraction
static void cube(Case& c) {
    int i = int(c.idx);
    int a = i % 8, b = (i / 8) % 8, g = (i / 64) % 8;
    ref::M3 m = ref::rotz(a * ref::PI / 4) * ref::roty(b * ref::PI / 4) * ref::rotx(g * ref::PI / 4);
    KDL::Rotation R = i >= 512 ? KDL::Rotation::RPY(g * PI / 4, b * PI / 4, a * PI / 4) : km(m);
    c.desc = s(rm(R));
    double x, y, z, w;
    R.GetRPY(x, y, z); eq(c, rm(KDL::Rotation::RPY(x, y, z)), m, 1e-11, "rpy");
    R.GetEulerZYZ(x, y, z); eq(c, rm(KDL::Rotation::EulerZYZ(x, y, z)), m, 1e-11, "zyz");
    R.GetQuaternion(x, y, z, w); eq(c, rm(KDL::Rotation::Quaternion(x, y, z, w)), m, 2e-14, "quaternion");
    KDL::Vector v; double t = R.GetRotAngle(v); eq(c, rm(KDL::Rotation::Rot2(v, t)), m, 1e-11, "axis-angle");
    KDL::Vector rv_ = R.GetRot(); eq(c, rm(KDL::Rot(rv_)), m, 1e-11, "rotvec");
}

int main(int argc, char** argv) {
    Harness H("C02", argc, argv);
    H.rule("elementary", 60000, elementary);
    H.rule("constructors", 60000, constructors);
    H.rule("extract", 200000, extract);
    H.rule("principal", 60000, principal);
    H.rule("cube", 1024, cube, false);
    return H.finish();
}
