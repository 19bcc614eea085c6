// C28: threads that use their own objects, or share objects they only read, do not
// disturb each other: no data race (ThreadSanitizer) and the very same answers as alone.
#include <thread>
#include <atomic>
#include <unistd.h>
#include <cstring>
#include "solvers.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treejnttojacsolver.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
#include "kinfam_io.hpp"
#include "frames_io.hpp"
#include "utilities/error.h"
#include "utilities/error_stack.h"
#include "utilities/svd_eigen_HH.hpp"
#include "utilities/svd_HH.hpp"
#include "utilities/ldl_solver_eigen.hpp"
#include "path_line.hpp"
#include "path_circle.hpp"
#include "path_composite.hpp"
#include "path_roundedcomposite.hpp"
#include "path_cyclic_closed.hpp"
#include "rotational_interpolation_sa.hpp"
#include "velocityprofile_trap.hpp"
#include "velocityprofile_traphalf.hpp"
#include "velocityprofile_rect.hpp"
#include "velocityprofile_spline.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_stationary.hpp"
using namespace gen; using namespace sol;
using vh::Case; using vh::Harness; using vh::fmt; using vh::Rng;
typedef RotationalInterpolation_SingleAxis SA;
// ---- threads in lockstep at the start, and held up at random between their steps ----
static std::atomic<int> gate{0}; static std::atomic<unsigned> ticket{0};
struct Log { std::vector<unsigned> at; Out out; bool threw = false; };
typedef std::function<void(Rng&, Out&, int step)> Work;
static void worker(const Work& w, uint64_t seed, int steps, int n, bool hold, Log& l) {
    Rng r(seed); Rng pause(seed ^ 0x55); gate.fetch_add(1, std::memory_order_relaxed); while (gate.load(std::memory_order_relaxed) < n) { }   // relaxed: adds no ordering that would hide races
    for (int i = 0; i < steps; i++) { if (hold) { int u = pause.below(8); if (u == 0) sched_yield(); else if (u == 1) usleep(pause.below(200)); else if (u == 2) for (volatile int k = pause.below(3000); k > 0; k = k - 1) { } } l.at.push_back(ticket.fetch_add(1, std::memory_order_relaxed)); try { w(r, l.out, i); } catch (...) { l.threw = true; } l.at.push_back(ticket.fetch_add(1, std::memory_order_relaxed)); }
}
// the same work at the same time, and then one after another
static void together(Case& c, const std::vector<std::pair<std::string, std::function<Work()>>>& jobs, int steps) {
    int n = int(jobs.size()); std::vector<uint64_t> seed; for (int i = 0; i < n; i++) seed.push_back(c.r.next()); std::vector<Log> par(n), ser(n); gate = 0; ticket = 0;
    { std::vector<std::thread> t; for (int i = 0; i < n; i++) t.emplace_back([&, i] { Work w = jobs[i].second(); worker(w, seed[i], steps, n, true, par[i]); }); for (auto& x : t) x.join(); }
    for (int i = 0; i < n; i++) { gate = n; std::thread([&] { Work w = jobs[i].second(); worker(w, seed[i], steps, 0, false, ser[i]); }).join(); }
    for (int i = 0; i < n; i++) { c.okf(!par[i].threw || ser[i].threw, "threw", [&] { return jobs[i].first; }); c.okf(same(par[i].out, ser[i].out), "as-alone", [&] { return jobs[i].first + " with " + jobs[(i + 1) % n].first + ": " + differ(par[i].out, ser[i].out); }); }
    // what was seen: how the steps of the threads interleaved
    std::vector<std::pair<unsigned, int>> ev; for (int i = 0; i < n; i++) for (unsigned t : par[i].at) ev.push_back({t, i}); std::sort(ev.begin(), ev.end()); int sw = 0; uint64_t h = 7; for (size_t k = 0; k < ev.size(); k++) { h = vh::mix(h ^ ev[k].second); if (k && ev[k].second != ev[k - 1].second) sw++; } c.cover(sw < n ? "interleaving: none" : sw < 3 * n ? "interleaving: some" : "interleaving: fine"); c.cover(fmt("interleaving class %02x", unsigned(h & 255)));
    for (auto& j : jobs) c.cover(j.first);
}
static ref::ChainSpec arm(Rng& r, int minj = 1) { ChainOpt o; o.minSeg = 1; o.maxSeg = 6; o.pFixed = r.chance(0.5) ? 0 : 0.3; ref::ChainSpec sp; do sp = chain(r, o); while (ref::nj(sp) < minj); return sp; }
// solvers of different threads on one robot model that they only read
static void robot(Case& c) {
    ref::ChainSpec sp = arm(c.r); const Chain ch = kchain(sp); Cfg cf = cfg(c.r, ref::nj(sp)); c.desc = describe(sp); int n = c.r.range(2, 4); std::string first = kinds()[c.r.below(kinds().size())]; std::vector<std::pair<std::string, std::function<Work()>>> jobs;
    for (int i = 0; i < n; i++) { std::string kind = c.r.chance(0.5) ? first : kinds()[c.r.below(kinds().size())]; jobs.push_back({kind, [&ch, &sp, &cf, kind]() -> Work { auto S = std::make_shared<Solver>(make(kind, ch, cf)); S->apply(cf); return [S, &ch, &sp, &cf](Rng& r, Out& o, int) { auto& op = S->ops[r.below(S->ops.size())]; Args a = args(r, sp, cf, op.jdot); int rc = op.call(a); o.push_back(rc); if (S->s) { o.push_back(S->s->getError()); o.push_back(double(std::strlen(S->s->strError(rc)))); } op.read(a, o); if (r.chance(0.05)) { std::ostringstream t; t << ch; o.push_back(t.str().size()); } if (r.chance(0.05)) update(*S), S->apply(cf); if (r.chance(0.05)) { Chain k(ch); o.push_back(k.getNrOfJoints()); put(o, k.segments[0].pose(0.3)); } }; }}); }
    together(c, jobs, c.r.range(3, 12));
}
static void tree(Case& c) {
    ChainOpt o; o.pFixed = 0.2; TreeSpec ts; do ts = treespec(c.r, o, 2, 9); while (ts.n == 0); const Tree tr = ktree(ts); int n = ts.n; std::vector<std::string> ends; for (auto& s : ts.segs) if (c.r.chance(0.5)) ends.push_back(s.name); if (ends.empty()) ends.push_back(ts.segs.back().name); JntArray lo(n), hi(n), vm(n); for (int i = 0; i < n; i++) { lo(i) = -2; hi(i) = 2; vm(i) = 0.5; } const Vector g(0, 1, -9);
    std::vector<std::pair<std::string, std::function<Work()>>> jobs; for (int i = c.r.range(2, 4); i > 0; i--) { int kind = c.r.below(7); jobs.push_back({fmt("tree %d", kind), [&, kind]() -> Work {
        struct Set { TreeFkSolverPos_recursive fk; TreeJntToJacSolver jac; TreeIkSolverVel_wdls ik; TreeIkSolverPos_NR_JL nr; TreeIkSolverPos_Online on; TreeIdSolver_RNE id; Set(const Tree& t, const std::vector<std::string>& e, const JntArray& lo, const JntArray& hi, const JntArray& vm, const Vector& g) : fk(t), jac(t), ik(t, e), nr(t, e, lo, hi, fk, ik, 20, 1e-4), on(t.getNrOfJoints(), e, lo, hi, vm, 1, 1, fk, ik), id(t, g) { ik.setLambda(0.1); } };
        auto s = std::make_shared<Set>(tr, ends, lo, hi, vm, g); return [s, &tr, &ts, &ends, n, kind](Rng& r, Out& o, int) { JntArray q = kq(joints(r, n, 2)), qd = kq(joints(r, n, 2)), u(n); Jacobian J(n); Frame f; const std::string& seg = ts.segs[r.below(ts.segs.size())].name; Frames fs; Twists vs; for (auto& e : ends) { fs[e] = kframe(r, 1); vs[e] = kt(screw(r, 1)); } WrenchMap fx; fx[seg] = kw(screw(r, 3)); double rc = 0;
            if (kind == 0) { rc = s->fk.JntToCart(q, f, seg); put(o, f); } else if (kind == 1) { SetToZero(J); rc = s->jac.JntToJac(q, J, seg); put(o, J.data); } else if (kind == 2) { rc = s->ik.CartToJnt(q, vs, u); put(o, u); } else if (kind == 3) { rc = s->nr.CartToJnt(q, fs, u); put(o, u); } else if (kind == 4) { rc = s->on.CartToJnt(q, fs, u); put(o, u); } else if (kind == 5) { rc = s->id.CartToJnt(q, qd, qd, fx, u); put(o, u); }
            else { Chain k; rc = tr.getChain(tr.getRootSegment()->first, seg, k); o.push_back(k.getNrOfSegments()); Tree t2(tr); o.push_back(t2.getNrOfJoints()); std::ostringstream t; t << tr; o.push_back(t.str().size()); Tree sub; tr.getSubTree(seg, sub); o.push_back(sub.getNrOfSegments()); } o.push_back(rc); }; }}); }
    c.desc = fmt("tree of %zu segments, %d joints, %zu endpoints", ts.segs.size(), n, ends.size()); together(c, jobs, c.r.range(3, 10));
}
static Path* path(Rng& r, int depth) {
    Frame f = kframe(r, 1); double eq = r.uni(0.1, 1);
    switch (r.below(depth ? 6 : 2)) { case 0: return new Path_Line(f, kframe(r, 1), new SA(), eq); case 1: { Vector k = f.p + Vector(r.uni(0.1, 1), 0.2, 0.1); return new Path_Circle(f, k, k + Vector(0.1, r.uni(0.3, 1), 0.4), kframe(r, 1).M, r.uni(0.2, 4), new SA(), eq); }
    case 2: { auto* q = new Path_RoundedComposite(0.02, eq, new SA()); try { for (int i = 0; i < 4; i++) q->Add(kframe(r, 2)); } catch (const Error&) { } q->Finish(); if (q->PathLength() > 0) return q; delete q; return path(r, 0); } case 3: return new Path_Cyclic_Closed(path(r, 0), r.range(1, 3));
    default: { auto* q = new Path_Composite(); for (int i = r.range(2, 5); i > 0; i--) q->Add(path(r, depth - 1)); return q; } }
}
// motions and models that several threads look at
static void look(Case& c) {
    std::shared_ptr<Path> p(path(c.r, 2)); double L = p->PathLength(); auto* v = new VelocityProfile_Trap(1, 1); v->SetProfile(0, L); std::shared_ptr<Trajectory_Composite> tc(new Trajectory_Composite()); tc->Add(new Trajectory_Segment(p->Clone(), v)); tc->Add(new Trajectory_Stationary(0.5, p->Pos(L))); std::shared_ptr<const Trajectory> t = tc; std::shared_ptr<VelocityProfile> half(new VelocityProfile_TrapHalf(1, 2, c.r.chance(0.5))); half->SetProfileDuration(0, 1, 3); ChainOpt op; const ref::SegSpec ss = segment(c.r, op, "s"); const Segment seg = ksegment(ss); const RigidBodyInertia I = seg.getInertia(); SA rot; rot.SetStartEnd(kframe(c.r, 1).M, kframe(c.r, 1).M); const Frame f = kframe(c.r, 2); const Jacobian J = [&] { Jacobian j(4); for (int i = 0; i < 4; i++) j.setColumn(i, kt(screw(c.r, 2))); return j; }();
    Work w = [&](Rng& r, Out& o, int) { double s = r.u01() * L, u = r.u01() * t->Duration(); switch (r.below(9)) { case 0: put(o, p->Pos(s)); put(o, p->Vel(s, 1)); put(o, p->Acc(s, 1, 2)); break; case 1: put(o, t->Pos(u)); put(o, t->Vel(u)); put(o, t->Acc(u)); break; case 2: { std::unique_ptr<Path> k(p->Clone()); put(o, k->Pos(s)); break; } case 3: { std::unique_ptr<Trajectory> k(t->Clone()); put(o, k->Vel(u)); break; } case 4: o.push_back(half->Pos(u)); o.push_back(half->Vel(u)); o.push_back(half->Acc(u)); break; case 5: { put(o, seg.pose(u)); put(o, seg.twist(u, s)); Segment k(seg); put(o, k.pose(s)); break; } case 6: { put(o, I * kt(screw(r, 1))); put(o, (f * I).getCOG()); put(o, (f.M * I).getCOG()); break; } case 7: { put(o, Frame(rot.Pos(u))); put(o, rot.Vel(u, 1)); std::ostringstream x; x << f << p->getIdentifier(); p->Write(x); t->Write(x); o.push_back(x.str().size()); break; } default: { Jacobian k(4); changeBase(J, f.M, k); put(o, k.data); changeRefPoint(J, f.p, k); put(o, k.data); Vector a; o.push_back(f.M.GetRotAngle(a)); put(o, a); double x, y, z, q; f.M.GetQuaternion(x, y, z, q); o.push_back(q); f.M.GetRPY(x, y, z); o.push_back(x); put(o, diff(f, kframe(r, 1))); } } };
    std::vector<std::pair<std::string, std::function<Work()>>> jobs; for (int i = c.r.range(2, 4); i > 0; i--) jobs.push_back({"shared motion", [&] { return w; }}); c.desc = fmt("path %d of length %g", int(p->getIdentifier()), L); together(c, jobs, c.r.range(5, 20));
}
// threads with nothing in common: models, text, motions, decompositions, errors
static void put(Out& o, const std::string& s) { for (char ch : s) o.push_back(ch); }
static void own(Case& c) {
    Work w = [](Rng& r, Out& o, int) { switch (r.below(8)) {
        case 0: { std::ostringstream t; t.precision(17); t << kframe(r, 2) << kt(screw(r, 1)); put(o, t.str()); std::istringstream i(t.str()); Frame f; Twist v; i >> f >> v; put(o, f); put(o, v); break; }
        case 1: { static const char* bad[] = {"FRAME[", "ROTATION[1,2", "[1,2,x]", "(1)", "", "]", "VECTOR[1"}; std::istringstream i(bad[r.below(7)]); Frame f; Rotation R; Vector v; try { if (r.chance(0.3)) i >> v; else if (r.chance(0.5)) i >> R; else i >> f; } catch (const Error& e) { put(o, std::string(e.Description())); o.push_back(e.GetType()); } char b[64]; for (int k = 0; k < 20; k++) { IOTracePopStr(b, sizeof b); put(o, std::string(b)); if (!*b) break; } break; }
        case 2: { std::unique_ptr<Path> p(path(r, 1)); std::ostringstream t; t.precision(17); p->Write(t); std::istringstream i(t.str().substr(0, r.chance(0.5) ? t.str().size() : r.below(int(t.str().size())))); try { std::unique_ptr<Path> q(Path::Read(i)); if (q) o.push_back(q->PathLength()); } catch (const Error& e) { put(o, std::string(e.Description())); std::ostringstream x; IOTraceOutput(x); put(o, x.str()); } break; }
        case 3: { int m = r.range(1, 7), n = r.range(1, 7); Eigen::MatrixXd A = Eigen::MatrixXd::NullaryExpr(m, n, [&] { return r.uni(-1, 1); }), U(m, n), V(n, n); Eigen::VectorXd S(n), tmp(n); o.push_back(svd_eigen_HH(A, U, S, V, tmp)); sol::put(o, U); Jacobian J(n); for (int i = 0; i < n; i++) J.setColumn(i, kt(screw(r, 1))); SVD_HH h(J); std::vector<JntArray> u(6, JntArray(n)), vv(n, JntArray(n)); JntArray w(n); o.push_back(h.calculate(J, u, w, vv, 100)); sol::put(o, w); break; }
        case 4: { ref::ChainSpec sp = arm(r); Chain ch = kchain(sp); ch.addSegment(ch.segments[0]); std::ostringstream t; t << ch; put(o, t.str()); TreeFkSolverPos_recursive* z = nullptr; (void)z; Tree tr("r"); tr.addChain(ch, "r"); o.push_back(tr.getNrOfSegments()); Cfg cf = cfg(r, ch.getNrOfJoints()); Solver S = make(kinds()[r.below(kinds().size())], ch, cf); put(o, S.name); break; }
        case 5: { VelocityProfile* v = r.chance(0.5) ? (VelocityProfile*)new VelocityProfile_Trap(1, 2) : new VelocityProfile_Rectangular(1); std::ostringstream t; v->Write(t); v->SetProfile(0, 1); std::unique_ptr<VelocityProfile> k(v->Clone()); delete v; o.push_back(k->Pos(0.4)); std::istringstream i(t.str()); k.reset(VelocityProfile::Read(i)); k->SetProfileDuration(0, 2, 5); o.push_back(k->Vel(1)); break; }
        case 6: { try { Path_RoundedComposite p(0.1, r.chance(0.3) ? -1 : 1, new SA(), true); p.Add(kframe(r, 1)); p.Add(kframe(r, 1)); p.Add(kframe(r, 0.1)); p.Add(kframe(r, 0.01)); p.Finish(); o.push_back(p.PathLength()); } catch (const Error_MotionPlanning& e) { o.push_back(e.GetType()); put(o, std::string(e.Description())); } break; }
        default: { Tree t = ktree(treespec(r, ChainOpt(), 1, 6)); Tree u(t); o.push_back(u.getNrOfJoints()); std::ostringstream x; x << u; put(o, x.str()); JntArray q(5); q.data.setConstant(r.u01()); x << q; try { Joint j("x", Vector(), Vector(1, 0, 0), Joint::RotX); } catch (const std::exception& e) { put(o, std::string(e.what())); } } } };
    std::vector<std::pair<std::string, std::function<Work()>>> jobs; for (int i = c.r.range(2, 4); i > 0; i--) jobs.push_back({"own objects", [&] { return w; }}); together(c, jobs, c.r.range(5, 25));
}
int main(int argc, char** argv) {
    Harness H("C28", argc, argv);
    H.rule("robot", 1500, robot); H.rule("tree", 700, tree); H.rule("look", 700, look); H.rule("own", 700, own);
    return H.finish();
}
