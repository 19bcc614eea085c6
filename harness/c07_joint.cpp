// C07: joints and segments: pose and twist laws, construction, accessors.
#include "gen.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static const char* tname[] = {"RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"};
static const Joint::JointType jtype[] = {Joint::RotAxis, Joint::RotX, Joint::RotY, Joint::RotZ, Joint::TransAxis, Joint::TransX, Joint::TransY, Joint::TransZ, Joint::Fixed};
static ref::JointSpec spec(Case& c) {
    ChainOpt o; o.pFixed = 0.1; o.pTrans = 0.4; o.pScale = 0.6; o.rotorInertia = true;
    return joint(c.r, o, "j" + std::to_string(c.r.below(100)));
}
static double qval(Case& c) { switch (c.r.below(6)) { case 0: return 0; case 1: return c.r.angle(); case 2: return c.r.uni(-50, 50); default: return c.r.uni(-3.2, 3.2); } }
static void checkJoint(Case& c, const Joint& k, const ref::JointSpec& j, const std::string& nm, const char* tag) {
    std::string T(tag);
    c.ok(k.getName() == nm, T + "name"); c.ok(k.getType() == jtype[j.type], T + "type"); c.okf(k.getTypeName() == tname[j.type], T + "typename", [&] { return k.getTypeName(); });
    c.near(k.getScale(), double(j.scale), 0, T + "scale"); c.near(k.getOffset(), double(j.offset), 0, T + "offset"); c.near(k.getInertia(), double(j.inertia), 0, T + "inertia");
    c.near(k.getDamping(), double(j.damping), 0, T + "damping"); c.near(k.getStiffness(), double(j.stiffness), 0, T + "stiffness");
    eq(c, rv(k.JointAxis()), j.unitAxis(), 1e-15, T + "axis");
    eq(c, rv(k.JointOrigin()), j.hasOrigin() ? j.origin : ref::V3(), 0, T + "origin");
    for (int i = 0; i < 3; i++) {
        double q = qval(c), qd = c.r.uni(-3, 3);
        double tol = 1e-14 * (10 + fabs(q) * fabs(double(j.scale)));
        eq(c, rt(k.pose(q)), j.pose(q), tol, T + "pose", fmt("q=%.10g", q));
        ref::V3 a = j.unitAxis() * (j.scale * qd);
        eq(c, rs(k.twist(qd)), j.fixed() ? ref::S6() : (j.rotational() ? ref::S6(ref::V3(), a) : ref::S6(a, ref::V3())), 1e-14, T + "twist");
    }
}
static void joints1(Case& c) {
    ref::JointSpec j = spec(c);
    c.desc = fmt("%s scale=%.3Lg offset=%.3Lg", tname[j.type], j.scale, j.offset);
    Joint k = kjoint(j);
    c.cover(tname[j.type]);
    checkJoint(c, k, j, j.name, "");
    double sc = double(j.scale), of = double(j.offset), in = double(j.inertia), da = double(j.damping), st = double(j.stiffness);
    // the constructor without a name, and defaults
    Joint u = j.hasOrigin() ? Joint(kv(j.origin), kv(j.axis), jtype[j.type], sc, of, in, da, st) : Joint(jtype[j.type], sc, of, in, da, st);
    checkJoint(c, u, j, "NoName", "unnamed.");
    ref::JointSpec d = j; d.scale = 1; d.offset = d.inertia = d.damping = d.stiffness = 0;
    Joint v = j.hasOrigin() ? Joint(j.name, kv(j.origin), kv(j.axis), jtype[j.type]) : Joint(j.name, jtype[j.type]);
    checkJoint(c, v, d, j.name, "defaults.");
    Joint w(v); checkJoint(c, w, d, j.name, "copy."); w = k; checkJoint(c, w, j, j.name, "assign."); w = *&w; checkJoint(c, w, j, j.name, "self-assign.");
    // a constructor used with a type it cannot represent says so
    bool th = false;
    try { if (j.hasOrigin()) Joint(j.name, jtype[j.type], sc, of); else Joint(j.name, kv(ref::V3(1, 2, 3)), kv(ref::V3(0, 0, 1)), jtype[j.type], sc); } catch (const std::exception& e) { th = e.what() != nullptr; }
    c.ok(th, "wrong-constructor-throws");
    th = false;
    try { if (j.hasOrigin()) Joint(jtype[j.type], sc, of); else Joint(kv(ref::V3(1, 2, 3)), kv(ref::V3(0, 0, 1)), jtype[j.type], sc); } catch (const std::exception& e) { th = e.what() != nullptr; }
    c.ok(th, "wrong-unnamed-constructor-throws");
}
static ref::S6 segTwist(const ref::SegSpec& s, ref::R q, ref::R qd) {
    if (s.j.fixed()) return ref::S6();
    ref::T4 p = s.pose(q);
    ref::V3 a = s.j.unitAxis() * (s.j.scale * qd);
    if (!s.j.rotational()) return ref::S6(a, ref::V3());
    ref::V3 o = s.j.hasOrigin() ? s.j.origin : ref::V3();
    return ref::S6(cross(a, p.p - o), a);
}
static void checkSegment(Case& c, const Segment& k, const ref::SegSpec& s, const std::string& nm, const char* tag) {
    std::string T(tag);
    c.ok(k.getName() == nm, T + "name");
    eq(c, rt(k.pose(0)), s.ftip, 1e-13, T + "pose-at-zero");
    eq(c, rt(k.getFrameToTip()), s.ftip, 1e-13, T + "frame-to-tip");
    for (int i = 0; i < 3; i++) {
        double q = qval(c), qd = c.r.uni(-3, 3);
        double tol = 1e-13 * (1 + fabs(q));
        eq(c, rt(k.pose(q)), s.pose(q), tol, T + "pose", fmt("q=%.10g", q));
        eq(c, rs(k.twist(q, qd)), segTwist(s, q, qd), tol * 10, T + "twist", fmt("q=%.10g qd=%.10g", q, qd));
    }
    c.near(k.getInertia().getMass(), double(s.m), 0, T + "mass");
    if (s.m > 0) eq(c, rv(k.getInertia().getCOG()), s.cog, 1e-14, T + "cog");
}
static void segments1(Case& c) {
    ref::SegSpec s;
    s.name = "seg" + std::to_string(c.r.below(100));
    s.j = spec(c);
    s.ftip = frame(c.r, 2);
    s.ftip = rt(kf(s.ftip));
    if (c.r.chance(0.7)) body(c.r, s);
    c.desc = fmt("%s scale=%.3Lg offset=%.3Lg", tname[s.j.type], s.j.scale, s.j.offset);
    Segment k = ksegment(s);
    checkSegment(c, k, s, s.name, "");
    c.ok(k.getJoint().getName() == s.j.name && k.getJoint().getType() == jtype[s.j.type], "joint");
    Segment u(kjoint(s.j), kf(s.ftip), kbody(s));
    checkSegment(c, u, s, "NoName", "unnamed.");
    Segment cp(k); checkSegment(c, cp, s, s.name, "copy.");
    Segment as; as = k; checkSegment(c, as, s, s.name, "assign."); as = *&as; checkSegment(c, as, s, s.name, "self-assign.");
    // changing one property leaves the others, and the copies, alone
    ref::SegSpec t = s; t.ftip = rt(kf(frame(c.r, 2)));
    cp.setFrameToTip(kf(t.ftip)); checkSegment(c, cp, t, s.name, "retipped."); checkSegment(c, k, s, s.name, "original.");
    ref::SegSpec m = s; body(c.r, m); as.setInertia(kbody(m)); checkSegment(c, as, m, s.name, "reweighted.");
    ref::SegSpec def; def.name = "NoName"; checkSegment(c, Segment(), def, "NoName", "default.");
    // twist is the time derivative of pose
    if (!s.j.fixed()) {
        ref::R q = qval(c), h = 1e-5L;
        ref::T4 A = rt(k.pose(double(q + h))), B = rt(k.pose(double(q - h)));
        ref::R hh = ref::R(double(q + h)) - ref::R(double(q - h));
        ref::V3 dp = (A.p - B.p) / hh;
        ref::M3 W = ((A.M - B.M) * (1 / hh)) * ref::T(rm(k.pose(double(q)).M));
        ref::S6 num(dp, ref::V3((W[2][1] - W[1][2]) / 2, (W[0][2] - W[2][0]) / 2, (W[1][0] - W[0][1]) / 2));
        eq(c, rs(k.twist(double(q), 1.0)), num, 2e-8, "twist-is-derivative");
    }
}
int main(int argc, char** argv) {
    Harness H("C07", argc, argv);
    H.rule("joints", 40000, joints1);
    H.rule("segments", 40000, segments1);
    return H.finish();
}
