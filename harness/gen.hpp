// Generators and conversions between the library's types and the reference.
#pragma once
#include "ref.hpp"
#include "chain.hpp"
#include "frames.hpp"
#include "frames_io.hpp"
#include "jntarray.hpp"
#include "jntarrayvel.hpp"
#include "jacobian.hpp"
#include "tree.hpp"
#include "rigidbodyinertia.hpp"

namespace gen {
using vh::Case;
using vh::Rng;
inline ref::V3 rv(const KDL::Vector& v) { return ref::V3(v.data[0], v.data[1], v.data[2]); }
inline ref::M3 rm(const KDL::Rotation& m) { ref::M3 o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[i][j] = m.data[3 * i + j]; return o; }
inline ref::T4 rt(const KDL::Frame& f) { return ref::T4(rm(f.M), rv(f.p)); }
inline ref::S6 rs(const KDL::Twist& t) { return ref::S6(rv(t.vel), rv(t.rot)); }
inline ref::S6 rs(const KDL::Wrench& t) { return ref::S6(rv(t.force), rv(t.torque)); }
inline KDL::Vector kv(const ref::V3& v) { return KDL::Vector(double(v[0]), double(v[1]), double(v[2])); }
inline KDL::Rotation km(const ref::M3& m) {
    return KDL::Rotation(double(m[0][0]), double(m[0][1]), double(m[0][2]), double(m[1][0]), double(m[1][1]), double(m[1][2]),
                         double(m[2][0]), double(m[2][1]), double(m[2][2]));
}
inline KDL::Frame kf(const ref::T4& t) { return KDL::Frame(km(t.M), kv(t.p)); }
inline KDL::Twist kt(const ref::S6& s) { return KDL::Twist(kv(s.a), kv(s.b)); }
inline KDL::Wrench kw(const ref::S6& s) { return KDL::Wrench(kv(s.a), kv(s.b)); }
inline ref::VecR rq(const KDL::JntArray& q) { ref::VecR v(q.rows()); for (unsigned i = 0; i < q.rows(); i++) v[i] = q(i); return v; }
inline KDL::JntArray kq(const ref::VecR& q) { KDL::JntArray v(q.size()); for (unsigned i = 0; i < q.size(); i++) v(i) = double(q[i]); return v; }

inline std::string s(const ref::V3& v) { return vh::fmt("(%.10Lg,%.10Lg,%.10Lg)", v[0], v[1], v[2]); }
inline std::string s(const ref::M3& m) { std::string o = "["; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o += vh::fmt("%.10Lg%s", m[i][j], j < 2 ? "," : (i < 2 ? ";" : "]")); return o; }
inline std::string s(const ref::VecR& q) { std::string o = "{"; for (auto x : q) o += vh::fmt("%.10Lg ", x); return o + "}"; }
inline std::string s(const KDL::JntArray& q) { return s(rq(q)); }

inline ref::R dist(const ref::V3& a, const ref::V3& b) { ref::R d = 0; for (int i = 0; i < 3; i++) { ref::R x = fabsl(a[i] - b[i]); if (!(x <= d)) d = x; } return d; }
inline ref::R dist(const ref::M3& a, const ref::M3& b) { ref::R d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ref::R x = fabsl(a[i][j] - b[i][j]); if (!(x <= d)) d = x; } return d; }
inline ref::R dist(const ref::T4& a, const ref::T4& b) { ref::R x = dist(a.M, b.M), y = dist(a.p, b.p); return !(x <= y) ? x : y; }
inline ref::R dist(const ref::S6& a, const ref::S6& b) { ref::R x = dist(a.a, b.a), y = dist(a.b, b.b); return !(x <= y) ? x : y; }

// oracle comparisons: scale-relative tolerance
inline bool eq(Case& c, const ref::V3& got, const ref::V3& exp, double tol, const std::string& key, const std::string& m = "") {
    ref::R d = dist(got, exp);
    return c.okf(d <= tol, key, [&] { return vh::fmt("deviation %.3Lg > %.3g: got ", d, tol) + s(got) + " expected " + s(exp) + " " + m; });
}
inline bool eq(Case& c, const ref::M3& got, const ref::M3& exp, double tol, const std::string& key, const std::string& m = "") {
    ref::R d = dist(got, exp);
    return c.okf(d <= tol, key, [&] { return vh::fmt("deviation %.3Lg > %.3g: got ", d, tol) + s(got) + " expected " + s(exp) + " " + m; });
}
inline bool eq(Case& c, const ref::T4& got, const ref::T4& exp, double tol, const std::string& key, const std::string& m = "") {
    ref::R d = dist(got, exp);
    return c.okf(d <= tol, key, [&] { return vh::fmt("deviation %.3Lg > %.3g: got ", d, tol) + s(got.M) + s(got.p) + " expected " + s(exp.M) + s(exp.p) + " " + m; });
}
inline bool eq(Case& c, const ref::S6& got, const ref::S6& exp, double tol, const std::string& key, const std::string& m = "") {
    ref::R d = dist(got, exp);
    return c.okf(d <= tol, key, [&] { return vh::fmt("deviation %.3Lg > %.3g: got ", d, tol) + s(got.a) + s(got.b) + " expected " + s(exp.a) + s(exp.b) + " " + m; });
}

// ---- generators -------------------------------------------------------
inline double coef(Rng& r, double mag = 2) {
    switch (r.below(10)) {
    case 0: return 0;
    case 1: return r.sgn();
    default: return r.uni(-mag, mag);
    }
}
inline ref::V3 vec(Rng& r, double mag = 2) {
    switch (r.below(12)) {
    case 0: return ref::V3();
    case 1: { ref::V3 v; v[r.below(3)] = r.uni(-mag, mag); return v; }
    default: return ref::V3(r.uni(-mag, mag), r.uni(-mag, mag), r.uni(-mag, mag));
    }
}
inline ref::V3 unitvec(Rng& r) {
    if (r.chance(0.2)) { ref::V3 v; v[r.below(3)] = r.sgn(); return v; }
    for (;;) {
        ref::V3 v(r.normal(), r.normal(), r.normal());
        if (ref::norm(v) > 1e-3L) return ref::unit(v);
    }
}
inline ref::M3 rotation(Rng& r) {
    switch (r.below(10)) {
    case 0: return ref::M3::I();
    case 1: { ref::V3 a; a[r.below(3)] = 1; static const double k[] = {0.5, 1, 1.5}; return ref::rot(a, k[r.below(3)] * ref::PI); }
    case 2: return ref::rot(unitvec(r), ref::PI);
    case 3: return ref::rot(unitvec(r), r.logu(1e-9, 1e-2));
    default: return ref::rot(unitvec(r), r.uni(-3.14159, 3.14159));
    }
}
inline ref::T4 frame(Rng& r, double mag = 2) { ref::M3 m = rotation(r); return ref::T4(m, vec(r, mag)); }
// a frame as the library would receive it: orthonormal to double precision
inline KDL::Frame kframe(Rng& r, double mag = 2) { return kf(frame(r, mag)); }
inline ref::S6 screw(Rng& r, double mag = 2) { ref::V3 a = vec(r, mag); return ref::S6(a, vec(r, mag)); }

struct ChainOpt {
    int minSeg = 1, maxSeg = 7;
    double pFixed = 0.15, pTrans = 0.3, pScale = 0.4;
    bool inertia = true;     // bodies with mass
    bool rotorInertia = false;
    bool pureRevolute = false;
    bool physical = false;   // every moving segment has a well conditioned mass
    double mag = 1.0;
};
inline ref::JointSpec joint(Rng& r, const ChainOpt& o, const std::string& name) {
    ref::JointSpec j;
    j.name = name;
    double u = r.u01();
    if (u < o.pFixed) j.type = ref::Fixed;
    else if (!o.pureRevolute && u < o.pFixed + o.pTrans) { static const ref::JT t[] = {ref::TransAxis, ref::TransX, ref::TransY, ref::TransZ}; j.type = t[r.below(4)]; }
    else { static const ref::JT t[] = {ref::RotAxis, ref::RotX, ref::RotY, ref::RotZ}; j.type = t[r.below(4)]; }
    if (j.hasOrigin()) { j.origin = vec(r, o.mag); j.axis = unitvec(r) * r.uni(0.2, 3); }
    if (r.chance(o.pScale)) j.scale = r.pick(std::vector<double>{-1, 2, 0.5, -0.3, 1.7});
    if (r.chance(o.pScale)) j.offset = r.uni(-2, 2);
    if (o.rotorInertia && !j.fixed() && r.chance(0.5)) j.inertia = r.uni(0, 0.5);
    if (r.chance(0.3)) { j.damping = r.uni(0, 1); j.stiffness = r.uni(0, 1); }
    // make every parameter representable in double
    for (int i = 0; i < 3; i++) { j.origin[i] = double(j.origin[i]); j.axis[i] = double(j.axis[i]); }
    return j;
}
inline void body(Rng& r, ref::SegSpec& s, double mmin = 0.1) {
    s.m = r.uni(mmin, 3);
    s.cog = vec(r, 0.5);
    // physically consistent inertia: a cloud of point masses about the cog
    ref::M3 I;
    int n = 4;
    for (int k = 0; k < n; k++) {
        ref::V3 d(r.uni(-0.4, 0.4), r.uni(-0.4, 0.4), r.uni(-0.4, 0.4));
        ref::M3 K = ref::skew(d);
        I = I + (ref::T(K) * K) * (s.m / n);
    }
    for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) I[i][j] = double(I[i][j] / 2 + I[j][i] / 2); I[i][i] += 0.01; I[i][i] = double(I[i][i]); s.cog[i] = double(s.cog[i]); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) I[i][j] = I[j][i];
    s.Ic = I;
    s.m = double(s.m);
}
inline ref::SegSpec segment(Rng& r, const ChainOpt& o, const std::string& name) {
    ref::SegSpec s;
    s.name = name;
    s.j = joint(r, o, name + "_j");
    s.ftip = frame(r, o.mag);
    if (o.inertia && (o.physical || r.chance(0.85))) body(r, s);
    return s;
}
inline ref::ChainSpec chain(Rng& r, const ChainOpt& o = ChainOpt()) {
    ref::ChainSpec c;
    int n = o.maxSeg >= 6 && o.maxSeg <= 12 ? r.size(o.minSeg, o.maxSeg, 2 * o.maxSeg + 4) : r.range(o.minSeg, o.maxSeg);
    for (int i = 0; i < n; i++) c.push_back(segment(r, o, "s" + std::to_string(i)));
    return c;
}
inline KDL::Joint kjoint(const ref::JointSpec& j) {
    static const KDL::Joint::JointType t[] = {KDL::Joint::RotAxis, KDL::Joint::RotX, KDL::Joint::RotY, KDL::Joint::RotZ,
        KDL::Joint::TransAxis, KDL::Joint::TransX, KDL::Joint::TransY, KDL::Joint::TransZ, KDL::Joint::Fixed};
    double sc = double(j.scale), of = double(j.offset), in = double(j.inertia), da = double(j.damping), st = double(j.stiffness);
    if (j.hasOrigin()) return KDL::Joint(j.name, kv(j.origin), kv(j.axis), t[j.type], sc, of, in, da, st);
    return KDL::Joint(j.name, t[j.type], sc, of, in, da, st);
}
inline KDL::RotationalInertia kinertia(const ref::M3& I) {
    return KDL::RotationalInertia(double(I[0][0]), double(I[1][1]), double(I[2][2]), double(I[0][1]), double(I[0][2]), double(I[1][2]));
}
inline KDL::RigidBodyInertia kbody(const ref::SegSpec& s) { return KDL::RigidBodyInertia(double(s.m), kv(s.cog), kinertia(s.Ic)); }
inline KDL::Segment ksegment(const ref::SegSpec& s) { return KDL::Segment(s.name, kjoint(s.j), kf(s.ftip), kbody(s)); }
inline KDL::Chain kchain(const ref::ChainSpec& c) { KDL::Chain k; for (auto& s : c) k.addSegment(ksegment(s)); return k; }
inline ref::VecR joints(Rng& r, int n, double mag = 3.2) {
    ref::VecR q(n);
    if (r.below(16) == 0) mag *= 4;   // several turns, long strokes
    for (auto& x : q) { x = r.chance(0.1) ? (r.chance(0.15) ? (r.chance(0.5) ? 1 : -1) * r.logu(1e-9, 1e-3) : 0.0) : r.uni(-mag, mag); }   // at rest, nearly at rest, anywhere
    return q;
}
inline std::string describe(const ref::ChainSpec& c) {
    static const char* tn[] = {"RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"};
    std::string o = "chain:";
    for (auto& s : c) o += vh::fmt(" %s(k=%.3Lg,o=%.3Lg)", tn[s.j.type], s.j.scale, s.j.offset);
    return o;
}

// ---- trees ---------------------------------------------------------------
struct TreeSpec {
    std::vector<ref::SegSpec> segs;   // in insertion order
    std::vector<int> parent;          // index of parent segment, -1 = root
    std::vector<int> qnr;             // joint number, -1 for fixed
    int n = 0;
    std::string root = "root";
    std::vector<int> path(int i) const { std::vector<int> p; for (; i >= 0; i = parent[i]) p.insert(p.begin(), i); return p; }
    ref::ChainSpec chainTo(int i) const { ref::ChainSpec c; for (int k : path(i)) c.push_back(segs[k]); return c; }
    ref::VecR sub(int i, const ref::VecR& q) const { ref::VecR v; for (int k : path(i)) if (qnr[k] >= 0) v.push_back(q[qnr[k]]); return v; }
    int find(const std::string& nm) const { for (size_t i = 0; i < segs.size(); i++) if (segs[i].name == nm) return int(i); return -1; }
};
inline TreeSpec treespec(Rng& r, const ChainOpt& o, int minSeg, int maxSeg) {
    TreeSpec t;
    int n = r.size(minSeg, maxSeg, 2 * maxSeg + 6);
    double branch = r.u01(); bool star = r.below(12) == 0;
    for (int i = 0; i < n; i++) {
        // names chosen so that the map order differs from insertion order
        t.segs.push_back(segment(r, o, std::string(1, char('a' + r.below(26))) + "_" + std::to_string(i)));
        t.parent.push_back(i == 0 || star ? -1 : (r.chance(branch) ? r.range(-1, i - 1) : i - 1));
        t.qnr.push_back(t.segs.back().j.fixed() ? -1 : t.n++);
    }
    return t;
}
inline KDL::Tree ktree(const TreeSpec& t) {
    KDL::Tree k(t.root);
    for (size_t i = 0; i < t.segs.size(); i++)
        k.addSegment(ksegment(t.segs[i]), t.parent[i] < 0 ? t.root : t.segs[t.parent[i]].name);
    return k;
}
}  // namespace gen
