// C33: once built and updated, KDL computes without touching the heap: a monitor on
// malloc/free/operator new is armed around single calls of the library.
#include "solvers.hpp"
#include "allocmon.hpp"
#include "frameacc.hpp"
#include "framevel.hpp"
#include "jntarrayacc.hpp"
#include "jntspaceinertiamatrix.hpp"
#include "articulatedbodyinertia.hpp"
#include "stiffness.hpp"
#include "path_circle.hpp"
#include "path_composite.hpp"
#include "path_cyclic_closed.hpp"
#include "path_line.hpp"
#include "path_point.hpp"
#include "path_roundedcomposite.hpp"
#include "rotational_interpolation_sa.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_stationary.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treejnttojacsolver.hpp"
#include "utilities/error.h"
#include "utilities/ldl_solver_eigen.hpp"
#include "utilities/svd_HH.hpp"
#include "utilities/svd_eigen_HH.hpp"
#include "utilities/svd_eigen_Macie.hpp"
#include "velocityprofile_dirac.hpp"
#include "velocityprofile_rect.hpp"
#include "velocityprofile_spline.hpp"
#include "velocityprofile_trap.hpp"
#include "velocityprofile_traphalf.hpp"
using namespace gen; using namespace sol;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static std::string whence() {    // where in the sources the first heap operation was
    std::string a = allocmon::where(), cmd = "addr2line -iCe /proc/" + std::to_string(getpid()) + "/exe", o; std::istringstream is(a); std::string w; while (is >> w) if (w[0] == '0') cmd += " " + w;
    if (FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r")) { char b[600]; while (fgets(b, sizeof b, f)) { std::string l = b; if (l.find("orocos_kdl/src") != std::string::npos && o.size() < 500) o += l.substr(l.rfind('/') + 1, l.size() - l.rfind('/') - 2) + " < "; } pclose(f); }
    return o;
}
static volatile double sink_;
template <class T> static void keep(const T& t) { sink_ = double(reinterpret_cast<const volatile unsigned char&>(t)); }
// arm the monitor for one call
template <class F> static void quiet(Case& c, const std::string& key, F&& f) {
    { allocmon::Watch w; f(); }
    long a = allocmon::allocs, d = allocmon::frees, b = allocmon::bytes;
    c.okf(a == 0 && d == 0, key, [&] { return fmt("%ld allocations (%ld bytes) and %ld releases during the call; first at ", a, b, d) + whence(); });
}
static ref::ChainSpec arm(Case& c, int minj = 1) {
    ChainOpt o; o.minSeg = 1; o.maxSeg = c.r.chance(0.7) ? 8 : 20; o.pFixed = c.r.chance(0.5) ? 0 : 0.2; o.rotorInertia = true; ref::ChainSpec sp; do sp = chain(c.r, o); while (ref::nj(sp) < minj);
    if (c.r.chance(0.5)) for (auto& s : sp) { s.name += "_with_a_name_that_has_to_live_on_the_heap"; s.j.name += "_with_a_name_that_has_to_live_on_the_heap"; }
    c.desc = describe(sp).substr(0, 300); return sp;
}
// ---- chain solvers: through calls, refusals, changed settings, changed chains
static void chains(Case& c) {
    ref::ChainSpec sp = arm(c); Chain ch = kchain(sp); Cfg cf = cfg(c.r, ref::nj(sp)); const auto& kd = kinds(); std::string kind = kd[c.idx / 8 % kd.size()]; Solver S = make(kind, ch, cf); S.apply(cf); bool fresh = true, changed = false;
    for (int st = 0; st < 10; st++) {
        double u = c.r.u01();
        if (u < 0.1) { // settings of the right size
            unsigned nc = cf.nc; auto old = cf; cf = cfg(c.r, ref::nj(sp)); cf.nc = nc; cf.eps = old.eps; cf.positer = old.positer; cf.g = old.g; cf.freq = old.freq; cf.gain = old.gain; cf.filt = old.filt; if (kind == "jac" || kind == "jacdot" || kind == "fkpos") S.apply(cf); else quiet(c, "settings." + kind, [&] { S.apply(cf); }); continue; }
        if (u < 0.22) { sp = arm(c); ch = kchain(sp); update(S); unsigned nc = cf.nc; cf = cfg(c.r, ref::nj(sp)); cf.nc = nc; S.apply(cf); changed = fresh = true; continue; }
        Op& o = S.ops[c.r.below(S.ops.size())]; Args a = args(c.r, sp, cf, o.jdot); std::string nm = kind + "." + o.name;
        if (u < 0.35 && !o.slots.empty()) { auto& sl = o.slots[c.r.below(o.slots.size())]; sl.set(a, sl.size(a) + 1); int rc = 0; quiet(c, "refused." + nm, [&] { rc = o.call(a); }); c.cover("refused"); continue; }
        int rc = 0; quiet(c, nm, [&] { rc = o.call(a); }); c.cover(nm + (rc < 0 ? " failed" : fresh ? changed ? " first after an update" : " first" : " again")); fresh = false;
        if (S.s) quiet(c, "strError", [&] { keep(*S.s->strError(S.s->getError())); });
    }
    int n = ref::nj(sp);
    if (kind == "wdls") { auto* x = static_cast<ChainIkSolverVel_wdls*>(S.hold.get()); Eigen::VectorXd sg(std::min(n, 6)); quiet(c, "wdls.getters", [&] { x->getSigma(sg); keep(x->getNrZeroSigmas()); keep(x->getSigmaMin()); keep(x->getLambda()); keep(x->getLambdaScaled()); keep(x->getSVDResult()); }); }
    if (kind == "hd") { auto* x = static_cast<ChainHdSolver_Vereshchagin*>(S.hold.get()); if (int(sp.size()) == n) { std::vector<Twist> t(n + 1); JntArray tt(n); Eigen::VectorXd nu(cf.nc); quiet(c, "hd.getters", [&] { x->getTransformedLinkAcceleration(t); x->getTotalTorque(tt); x->getContraintForceMagnitude(nu); }); } }
    if (kind == "est") { auto* x = static_cast<ChainExternalWrenchEstimator*>(S.hold.get()); JntArray t(n); quiet(c, "est.getters", [&] { x->getEstimatedJntTorque(t); }); }
    if (kind == "lma") { auto* h = static_cast<std::shared_ptr<ChainIkSolverPos>*>(nullptr); (void)h; auto* x = dynamic_cast<ChainIkSolverPos_LMA*>(S.s); Eigen::VectorXd q = Eigen::VectorXd::Random(n); quiet(c, "lma.parts", [&] { x->compute_fwdpos(q); x->compute_jacobian(q); }); }
}
// ---- the elements solvers are built from
static void elements(Case& c) {
    ref::ChainSpec sp = arm(c, 0); Chain ch = kchain(sp); TreeSpec ts; do ts = treespec(c.r, ChainOpt(), 1, 12); while (ts.n == 0); if (c.r.chance(0.5)) for (auto& s : ts.segs) s.name += "_with_a_name_that_has_to_live_on_the_heap"; Tree T = ktree(ts);
    for (unsigned i = 0; i < ch.getNrOfSegments(); i++) { double q = c.r.uni(-3, 3); quiet(c, "segment", [&] { const Segment& s = ch.getSegment(i); keep(s.pose(q)); keep(s.twist(q, q)); const Joint& j = s.getJoint(); keep(j.pose(q)); keep(j.twist(q)); keep(j.JointAxis()); keep(j.JointOrigin()); keep(j.getInertia()); keep(s.getFrameToTip()); keep(s.getInertia().getCOG()); keep(s.getInertia().getRotationalInertia()); }); }
    std::string nm = ts.segs[c.r.below(ts.segs.size())].name, none = "no such segment at all"; quiet(c, "tree", [&] { auto it = T.getSegment(nm); keep(GetTreeElementSegment(it->second).pose(0.3)); keep(GetTreeElementQNr(it->second)); keep(T.getSegment(none) == T.getSegments().end()); keep(T.getNrOfJoints()); keep(T.getRootSegment()->first.size()); for (auto& k : GetTreeElementChildren(it->second)) keep(k->first.size()); });
    quiet(c, "chain", [&] { keep(ch.getNrOfJoints()); keep(ch.getNrOfSegments()); });
}
static void trees(Case& c) {
    ChainOpt o; o.pFixed = 0.2; TreeSpec t; do t = treespec(c.r, o, 1, c.r.chance(0.8) ? 9 : 20); while (t.n == 0); bool longn = c.r.chance(0.3); if (longn) for (auto& s : t.segs) { s.name += "_with_a_name_that_has_to_live_on_the_heap"; s.j.name += "_with_a_name_that_has_to_live_on_the_heap"; }
    Tree T = ktree(t); int n = t.n, m = std::min(int(t.segs.size()), c.r.range(1, 4)); std::set<int> u; while (int(u.size()) < m) u.insert(c.r.below(t.segs.size())); std::vector<std::string> ends; for (int i : u) ends.push_back(t.segs[i].name); c.desc = fmt("tree of %zu segments, %d joints, %d end points", t.segs.size(), n, m);
    JntArray lo(n), hi(n), vm(n), out(n), q, qd, qdd; for (int i = 0; i < n; i++) { lo(i) = -c.r.uni(0.5, 4); hi(i) = c.r.uni(0.5, 4); vm(i) = c.r.uni(0.1, 1); }
    TreeFkSolverPos_recursive fk(T); TreeJntToJacSolver js(T); TreeIdSolver_RNE id(T, kv(vec(c.r, 10))); TreeIkSolverVel_wdls ik(T, ends); ik.setLambda(c.r.uni(0.05, 0.5)); TreeIkSolverPos_NR_JL nr(T, ends, lo, hi, fk, ik, c.r.range(1, 30), 1e-4); TreeIkSolverPos_Online on(n, ends, lo, hi, vm, 1, 1, fk, ik);
    for (int st = 0; st < 6; st++) {
        q = kq(joints(c.r, n, 2)); qd = kq(joints(c.r, n, 2)); qdd = kq(joints(c.r, n, 2)); std::string nm = t.segs[c.r.below(t.segs.size())].name; Frame F; Jacobian J(n); Twists v; Frames fr; WrenchMap w; for (auto& e : ends) { v[e] = kt(screw(c.r)); fr[e] = kframe(c.r, 1); } if (c.r.chance(0.7)) for (auto& s : t.segs) if (c.r.chance(0.4)) w[s.name] = kw(screw(c.r));
        bool bad = c.r.chance(0.15); std::string k = bad ? "refused." : ""; if (bad) q = JntArray(n + 1); out = JntArray(q.rows());
        // the name of the segment is passed by value: longer names are copied by the caller
        if (!longn) { quiet(c, k + "fk", [&] { fk.JntToCart(q, F, nm); }); quiet(c, k + "nr", [&] { nr.CartToJnt(q, fr, out); }); quiet(c, k + "online", [&] { on.CartToJnt(q, fr, out); }); }
        quiet(c, k + "jac", [&] { js.JntToJac(q, J, nm); }); if (!bad || c.r.chance(0.5)) quiet(c, k + "id", [&] { id.CartToJnt(q, qd, qdd, w, out); });
        JntArray o2(n); quiet(c, k + "ikvel", [&] { ik.CartToJnt(q, v, o2); }); if (!bad && c.r.chance(0.3)) { Twists v2 = v; v2["no"] = Twist(); quiet(c, "refused.unknown", [&] { ik.CartToJnt(q, v2, o2); }); }
    }
    c.cover(fmt("end points %d", m));
}
// ---- joint arrays and friends
static void containers(Case& c) {
    int n = c.r.range(1, c.r.chance(0.8) ? 9 : 40); auto J = [&] { return kq(joints(c.r, n, 3)); }; JntArray a = J(), b = J(), d(n); double s = c.r.uni(0.2, 3); JntArrayVel av(J(), J()), bv(J(), J()), dv(n); JntArrayAcc aa(J(), J(), J()), ba(J(), J(), J()), da(n); doubleVel sv; sv.t = s; sv.grad = c.r.uni(-2, 2); doubleAcc sa(s, c.r.uni(-2, 2), c.r.uni(-2, 2));
    c.desc = fmt("%d joints", n); Jacobian Ja(n), Jb(n), Jd(n); for (int i = 0; i < n; i++) { Ja.setColumn(i, kt(screw(c.r))); Jb.setColumn(i, kt(screw(c.r))); } JntSpaceInertiaMatrix H(n), G(n), K(n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) H(i, k) = c.r.uni(-1, 1); Frame F = kframe(c.r); Twist t; Eigen::MatrixXd Jm(6, n);
    quiet(c, "jntarray", [&] { Add(a, b, d); Subtract(a, b, d); Multiply(a, s, d); Divide(a, s, d); Add(a, d, d); Multiply(d, s, d); MultiplyJacobian(Ja, a, t); keep(Equal(a, b)); keep(a == b); SetToZero(d); d = a; keep(d.rows()); keep(d(0)); });
    quiet(c, "jntarrayvel", [&] { Add(av, bv, dv); Add(av, b, dv); Subtract(av, bv, dv); Subtract(av, b, dv); Multiply(av, s, dv); Multiply(av, sv, dv); Divide(av, s, dv); Divide(av, sv, dv); Multiply(dv, sv, dv); Divide(dv, sv, dv); keep(Equal(av, bv)); SetToZero(dv); dv = av; });
    quiet(c, "jntarrayacc", [&] { Add(aa, ba, da); Add(aa, bv, da); Add(aa, b, da); Subtract(aa, ba, da); Subtract(aa, bv, da); Subtract(aa, b, da); Multiply(aa, s, da); Multiply(aa, sv, da); Multiply(aa, sa, da); Divide(aa, s, da); Divide(aa, sv, da); Divide(aa, sa, da); Multiply(da, sa, da); Divide(da, sa, da); keep(Equal(aa, ba)); SetToZero(da); da = aa; });
    quiet(c, "jacobian", [&] { changeBase(Ja, F.M, Jd); changeRefPoint(Ja, F.p, Jd); changeRefFrame(Ja, F, Jd); Jd.changeBase(F.M); Jd.changeRefPoint(F.p); Jd.changeRefFrame(F); keep(Ja.getColumn(n - 1)); Jd.setColumn(0, t); keep(Equal(Ja, Jb)); keep(Ja == Jb); SetToZero(Jd); Jd = Ja; keep(Jd(5, n - 1)); keep(Jd.columns()); });
    quiet(c, "inertiamatrix", [&] { Add(H, G, K); Subtract(H, G, K); Multiply(H, s, K); Divide(H, s, K); Multiply(H, a, d); Add(H, K, K); keep(Equal(H, G)); keep(H == G); SetToZero(K); K = H; keep(K(n - 1, 0)); });
    // resizing to the same size is no work
    quiet(c, "same-size", [&] { d.resize(n); dv.resize(n); da.resize(n); Jd.resize(n); K.resize(n); });
    Eigen::MatrixXd A = Eigen::MatrixXd::Random(n, n), Q(n, n), L(n, n), V(n, n), U(6, n), B = Eigen::MatrixXd::Random(6, n), W = Eigen::MatrixXd::Identity(n, n), B2(6, 6); A = A * A.transpose() + Eigen::MatrixXd::Identity(n, n); Eigen::VectorXd v = Eigen::VectorXd::Random(n), D(n), x(n), tmp(n), S(n); 
    quiet(c, "ldl", [&] { ldl_solver_eigen(A, v, L, D, tmp, x); }); quiet(c, "svd_eigen", [&] { svd_eigen_HH(B, U, S, V, tmp, 100); });
    { std::vector<JntArray> Us(6, JntArray(n)), Vs(n, JntArray(n)); JntArray w(n); SVD_HH hh(Ja); quiet(c, "svd_hh", [&] { hh.calculate(Ja, Us, w, Vs, 100); }); }
}
// ---- geometry
static void geometry(Case& c) {
    Frame F = kframe(c.r), G = kframe(c.r); Vector v = kv(vec(c.r)), w = kv(vec(c.r)); Twist t = kt(screw(c.r)), u = kt(screw(c.r)); Wrench f = kw(screw(c.r)); double s = c.r.uni(0.2, 2), a, b, g, x, y, z, q; FrameVel FV(F, t); TwistVel tv(t, u); doubleVel dv; dv.t = s; dv.grad = 1; FrameAcc FA(F, t, u); Rotation R;
    RotationalInertia I(1, 2, 3, .1, .2, .3); RigidBodyInertia B(2, v, I); ArticulatedBodyInertia AB(B); Vector2 v2(s, 2); Rotation2 r2(s); Frame2 f2(r2, v2);
    quiet(c, "frames", [&] { keep(F * G); keep(F.Inverse()); keep(F.Inverse(v)); keep(F * v); keep(F * t); keep(F.Inverse(t)); keep(F * f); keep(F.Inverse(f)); keep(v * w); keep(dot(v, w)); keep(v.Norm()); keep(t.RefPoint(v)); keep(f.RefPoint(v)); keep(t * u); keep(t * f); keep(dot(t, f)); keep(v + w - v * s / s); keep(Equal(F, G)); keep(F == G); Vector n = v; n.Normalize(); n.ReverseSign(); keep(F(2, 3)); });
    quiet(c, "rotations", [&] { R = F.M * G.M; keep(R); keep(R.Inverse()); R.GetRPY(a, b, g); R.GetEulerZYX(a, b, g); R.GetEulerZYZ(a, b, g); R.GetQuaternion(x, y, z, q); keep(Rotation::Quaternion(x, y, z, q)); keep(Rotation::RPY(a, b, g)); keep(Rotation::EulerZYX(a, b, g)); keep(Rotation::EulerZYZ(a, b, g)); keep(Rotation::Rot(v, a)); keep(R.GetRot()); Vector ax; keep(R.GetRotAngle(ax)); R.DoRotX(a); R.DoRotY(a); R.DoRotZ(a); R.SetInverse(); });
    quiet(c, "differences", [&] { keep(diff(F, G)); keep(diff(v, w)); keep(diff(F.M, G.M)); keep(diff(t, u)); keep(addDelta(F, t)); keep(addDelta(F.M, v)); keep(addDelta(v, w)); F.Integrate(t, 100); keep(Frame::DH(s, 1, s, 1)); keep(Frame::DH_Craig1989(s, 1, s, 1)); });
    quiet(c, "velocities", [&] { keep(FV * FV); keep(FV.Inverse()); keep(FV * tv); keep(FV.GetTwist()); keep(FV.deriv()); keep(FV.M * FV.p); keep(dot(FV.p, FV.p)); keep(sin(dv) * cos(dv) / sqrt(dv)); keep(RotationVel::Rot(v, dv)); keep(FV.p.Norm()); keep(diff(FV, FV)); keep(addDelta(FV, tv)); keep(Equal(FV, FV)); });
    quiet(c, "accelerations", [&] { keep(FA * FA); keep(FA.Inverse()); keep(FA.M * FA.p); keep(FA.GetTwist()); keep(FA.GetAccTwist()); keep(Equal(FA, FA)); });
    quiet(c, "inertia", [&] { keep(F * B); keep(F.M * B); keep(B.RefPoint(v)); keep(B * t); keep(B + B); keep(s * B); keep(F * AB); keep(AB * t); keep(AB + AB); keep(AB - B); keep(I * v); keep(B.getRotationalInertia()); });
    Stiffness K; quiet(c, "planar", [&] { keep(f2 * f2); keep(f2.Inverse()); keep(r2 * v2); keep(r2.GetRot()); keep(v2.Norm()); for (int i = 0; i < 6; i++) K[i] = s; keep(K * t); keep(K.Inverse(f)); });
    c.desc = fmt("frames scaled by %.3g", s);
}
// ---- motion along paths in time
typedef RotationalInterpolation_SingleAxis SA;
static Path* path(Case& c, int depth, int* kind = nullptr) {
    int k = c.r.below(depth ? 6 : 3); if (kind) *kind = k; double eq = c.r.uni(0.1, 2); Frame a = kframe(c.r, 1);
    switch (k) {
    case 0: return new Path_Line(a, kframe(c.r, 1), new SA(), eq);
    case 1: { V: Vector x = kv(unitvec(c.r)), y = kv(unitvec(c.r)); if ((x * y).Norm() < 0.2) goto V; return new Path_Circle(a, a.p + x, a.p + x + y, kframe(c.r).M, c.r.uni(0.2, 6), new SA(), eq); }
    case 2: return new Path_Point(a);
    case 3: { auto* q = new Path_Composite(); for (int i = c.r.range(1, 4); i > 0; i--) q->Add(path(c, depth - 1)); return q; }
    case 4: return new Path_Cyclic_Closed(path(c, depth - 1), c.r.range(1, 4));
    default: { auto* q = new Path_RoundedComposite(0.05, eq, new SA()); Vector p; for (int i = 0; i < 4; i++) { q->Add(Frame(kframe(c.r).M, p)); p = p + kv(unitvec(c.r)); if (i % 2) p = p + Vector(2, 0, 0); } q->Finish(); return q; }
    }
}
static void motion(Case& c) {
    std::unique_ptr<Path> p; int kind = 0; try { p.reset(path(c, 2, &kind)); } catch (const Error_MotionPlanning&) { c.abandoned = true; return; } double L = p->PathLength();
    for (int i = 0; i < 3; i++) { double s = c.r.uni(0, L); quiet(c, fmt("path %d", kind), [&] { keep(p->Pos(s)); keep(p->Vel(s, 1)); keep(p->Acc(s, 1, 1)); keep(p->PathLength()); keep(p->getIdentifier()); }); }
    int pk = c.r.below(5); VelocityProfile* v; double T = c.r.uni(0.5, 20); if (pk == 0) v = new VelocityProfile_Trap(1, 1); else if (pk == 1) v = new VelocityProfile_TrapHalf(1, 1, c.r.chance(0.5)); else if (pk == 2) v = new VelocityProfile_Rectangular(1); else if (pk == 3) v = new VelocityProfile_Dirac(); else v = new VelocityProfile_Spline();
    quiet(c, fmt("profile %d", pk), [&] { v->SetProfile(0, L); v->SetProfileDuration(0, L, T); keep(v->Duration()); keep(v->Pos(T / 3)); if (pk != 3) keep(v->Vel(T / 3)); if (pk < 2 || pk == 4) keep(v->Acc(T / 3)); });   // jumps have no derivative (throws)
    RotationalInterpolation_SingleAxis sa; Rotation A = kframe(c.r).M, B = kframe(c.r).M; quiet(c, "interpolation", [&] { sa.SetStartEnd(A, B); keep(sa.Pos(0.1)); keep(sa.Vel(0.1, 1)); keep(sa.Acc(0.1, 1, 1)); keep(sa.Angle()); });
    std::unique_ptr<Trajectory> t(new Trajectory_Segment(p.release(), v)); if (c.r.chance(0.5)) { auto* q = new Trajectory_Composite(); q->Add(t.release()); q->Add(new Trajectory_Stationary(1, Frame(A))); t.reset(q); }
    double D = t->Duration(); for (int i = 0; i < 3; i++) { double s = c.r.uni(-0.1 * D, 1.1 * D); quiet(c, "trajectory", [&] { keep(t->Pos(s)); keep(t->Duration()); if (pk != 3) keep(t->Vel(s)); if (pk < 2 || pk == 4) keep(t->Acc(s)); }); }
    c.desc = fmt("path of kind %d, length %.4g, profile of kind %d", kind, L, pk);
}
int main(int argc, char** argv) {
    Harness H("C33", argc, argv); allocmon::init();
    // the monitor itself has to see what it is there for
    H.rule("monitor", 8, [](Case& c) { int n = c.r.range(1, 50); volatile double k; { allocmon::Watch w; std::vector<double> x(n); k = x[n - 1]; Eigen::VectorXd y = Eigen::VectorXd::Zero(n); k = k + y(0); void* volatile p = malloc(n); free(p); } (void)k; c.okf(allocmon::allocs == 3 && allocmon::frees == 3, "sees", [] { return fmt("%ld allocations, %ld releases of 3", allocmon::allocs, allocmon::frees); }); }, false);
    H.rule("chains", 6000, chains); H.rule("elements", 1500, elements); H.rule("trees", 2000, trees); H.rule("containers", 1500, containers); H.rule("geometry", 1500, geometry); H.rule("motion", 3000, motion);
    return H.finish();
}
