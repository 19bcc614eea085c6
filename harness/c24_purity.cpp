// C24: solvers are functions of their arguments: long-lived solvers that shared chains,
// failed calls, changed settings and earlier answers give what a new solver gives, they
// leave chain, tree, arguments and each other alone.
#include "solvers.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treejnttojacsolver.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
using namespace gen; using namespace sol;
using vh::Case; using vh::Harness; using vh::fmt;
static ref::ChainSpec arm(Case& c, int minj = 1) { ChainOpt o; o.minSeg = 1; o.maxSeg = c.r.chance(0.8) ? 6 : 9; o.rotorInertia = true; o.pFixed = c.r.chance(0.4) ? 0 : 0.25; ref::ChainSpec sp; do sp = chain(c.r, o); while (ref::nj(sp) < minj); for (auto& s : sp) s.ftip = rt(kf(s.ftip)); return sp; }
static void put(Out& o, const Segment& s) {
    const Joint& j = s.getJoint(); o.push_back(j.getType()); sol::put(o, j.JointOrigin()); sol::put(o, j.JointAxis()); for (double d : {j.getScale(), j.getOffset(), j.getInertia(), j.getDamping(), j.getStiffness()}) o.push_back(d);
    sol::put(o, s.getFrameToTip()); const RigidBodyInertia& I = s.getInertia(); o.push_back(I.getMass()); sol::put(o, I.getCOG()); for (int i = 0; i < 9; i++) o.push_back(I.getRotationalInertia().data[i]); for (char ch : s.getName() + "/" + j.getName()) o.push_back(ch);
}
static Out snap(const Chain& ch) { Out o; o.push_back(ch.getNrOfJoints()); for (unsigned i = 0; i < ch.getNrOfSegments(); i++) put(o, ch.getSegment(i)); return o; }
static Out snap(const Tree& t) { Out o; o.push_back(t.getNrOfJoints()); o.push_back(t.getNrOfSegments()); for (auto& e : t.getSegments()) { put(o, GetTreeElementSegment(e.second)); o.push_back(GetTreeElementQNr(e.second)); for (auto& k : GetTreeElementChildren(e.second)) for (char ch : k->first) o.push_back(ch); if (e.first != t.getRootSegment()->first) for (char ch : GetTreeElementParent(e.second)->first) o.push_back(ch); } return o; }
// one robot with its solvers, living through a history
struct Robot { ref::ChainSpec sp; Chain ch; Cfg cf; std::vector<Solver> all, twin; Out shape; };
static Cfg carry(const Cfg& old, Cfg c) { c.nc = old.nc; c.eps = old.eps; c.positer = old.positer; c.g = old.g; c.freq = old.freq; c.gain = old.gain; c.filt = old.filt; return c; }
static void history(Case& c) {
    std::vector<std::unique_ptr<Robot>> R; int nr = c.r.range(1, 3);
    for (int i = 0; i < nr; i++) { R.emplace_back(new Robot); Robot& b = *R.back(); b.sp = arm(c); b.ch = kchain(b.sp); b.cf = cfg(c.r, ref::nj(b.sp)); b.shape = snap(b.ch); int m = c.r.range(2, 6); for (int k = 0; k < m; k++) { const auto& kd = kinds()[c.r.below(kinds().size())]; b.all.push_back(make(kd, b.ch, b.cf)); b.all.back().apply(b.cf); b.twin.push_back(make(kd, b.ch, b.cf)); b.twin.back().apply(b.cf); } c.desc += describe(b.sp) + " "; }
    int steps = c.r.range(8, 20); struct Memo { int robot, solver; size_t op; Args a; int rc; Out o; int epoch; }; std::vector<Memo> memo; std::vector<int> epoch(nr, 0);
    for (int st = 0; st < steps; st++) {
        int ri = c.r.below(nr); Robot& b = *R[ri]; int si = c.r.below(b.all.size()); Solver& S = b.all[si]; double u = c.r.u01();
        if (u < 0.06) { // new settings for every solver of this robot
            b.cf = carry(b.cf, cfg(c.r, ref::nj(b.sp))); for (auto* v : {&b.all, &b.twin}) for (auto& s : *v) c.ok(s.apply(b.cf) == 0, "configure", s.name); epoch[ri]++; c.cover("settings"); continue; }
        if (u < 0.10) { // another chain
            b.sp = arm(c); b.ch = kchain(b.sp); b.shape = snap(b.ch); b.cf = carry(b.cf, cfg(c.r, ref::nj(b.sp))); for (auto* v : {&b.all, &b.twin}) for (auto& s : *v) { update(s); c.ok(s.apply(b.cf) == 0, "configure", s.name); } epoch[ri]++; c.cover("chain"); continue; }
        size_t k = c.r.below(S.ops.size()); Op& o = S.ops[k];
        if (u < 0.22 && !o.slots.empty()) { // a refused call
            Args a = args(c.r, b.sp, b.cf, o.jdot); auto& sl = o.slots[c.r.below(o.slots.size())]; sl.set(a, sl.size(a) + 1); int rc = o.call(a); c.okf(rc < 0, "refused", [&] { return S.name + "." + o.name + fmt(" accepted a wrong size (%d)", rc); }); c.cover("refused"); continue; }
        bool again = u < 0.34 && !memo.empty(); Args a = args(c.r, b.sp, b.cf, o.jdot); const Memo* m = nullptr;
        if (again) { for (int t = 0; t < 6 && !m; t++) { const Memo& x = memo[c.r.below(memo.size())]; if (x.epoch == epoch[x.robot]) m = &x; } }
        Solver* T = &S; Robot* B = &b; size_t K = k; int tsi = si, tri = ri;
        if (m) { B = R[m->robot].get(); T = &B->all[m->solver]; K = m->op; a = m->a; tsi = m->solver; tri = m->robot; }
        Op& O = T->ops[K]; Args fresh = a, tw = a; Out in = inputs(a);
        // whatever the outputs held before the call does not matter
        a.out.data.setConstant(c.r.uni(-9, 9)); a.out2.data.setConstant(c.r.uni(-9, 9)); a.J.data.setConstant(c.r.uni(-9, 9)); a.H.data.setConstant(c.r.uni(-9, 9)); for (auto& f : a.Fs) f = Frame(Vector(c.r.uni(-9, 9), 1, 2)); for (auto& f : a.FVs) f = FrameVel(Frame(Vector(1, c.r.uni(-9, 9), 3)), Twist(Vector(1, 2, 3), Vector(4, 5, 6))); a.oFV = FrameVel(kframe(c.r, 2), kt(screw(c.r, 3))); a.oF = kframe(c.r, 2);
        int rc = O.call(a); c.okf(same(in, inputs(a)), "inputs", [&] { return T->name + "." + O.name + ": " + differ(inputs(a), in); });
        Out x; bool numbers = rc >= 0 || rc == SolverI::E_MAX_ITERATIONS_EXCEEDED || rc == ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL; if (numbers) O.read(a, x);
        if (m && !T->history) c.okf(rc == m->rc && same(x, m->o), "repeatable", [&] { return T->name + "." + O.name + fmt(" returned %d and then %d; ", m->rc, rc) + differ(x, m->o); });
        if (!T->history) { Solver N = make(T->name, B->ch, B->cf); N.apply(B->cf); int r2 = N.ops[K].call(fresh); Out y; if (numbers) N.ops[K].read(fresh, y); c.okf(rc == r2 && same(x, y), "as-new", [&] { return T->name + "." + O.name + fmt(" returned %d, a new solver %d; ", rc, r2) + differ(x, y); }); }
        { // the twin lives through the accepted calls of its own only
            Op& W = B->twin[tsi].ops[K]; int r2 = W.call(tw); Out y; if (numbers) W.read(tw, y); c.okf(rc == r2 && same(x, y), "as-alone", [&] { return T->name + "." + O.name + fmt(" returned %d, alone %d; ", rc, r2) + differ(x, y); }); }
        for (auto& z : R) c.okf(same(z->shape, snap(z->ch)), "chain-untouched", [&] { return T->name + "." + O.name + ": " + differ(snap(z->ch), z->shape); });
        if (!m && memo.size() < 40) memo.push_back({tri, tsi, K, fresh, rc, x, epoch[tri]}); c.cover(T->name + (m ? ".again" : ""));
    }
}
// the solvers of trees
static void trees(Case& c) {
    ChainOpt o; o.pFixed = 0.2; TreeSpec ts; do ts = treespec(c.r, o, 2, 9); while (ts.n == 0); Tree tr = ktree(ts); Out shape = snap(tr); int n = ts.n; std::vector<std::string> ends; for (auto& s : ts.segs) if (c.r.chance(0.5)) ends.push_back(s.name); if (ends.empty()) ends.push_back(ts.segs.back().name);
    JntArray lo(n), hi(n), vm(n); for (int i = 0; i < n; i++) { lo(i) = -c.r.uni(0.5, 4); hi(i) = c.r.uni(0.5, 4); vm(i) = c.r.uni(0.01, 1); } double lam = c.r.uni(0.05, 0.5), vt = c.r.uni(0.05, 2), vr = c.r.uni(0.05, 2); Vector g = kv(vec(c.r, 10)); unsigned it = c.r.range(1, 30);
    struct Set { TreeFkSolverPos_recursive fk; TreeJntToJacSolver jac; TreeIkSolverVel_wdls ik; TreeIkSolverPos_NR_JL nr; TreeIkSolverPos_Online on; TreeIdSolver_RNE id;
        Set(const Tree& t, const std::vector<std::string>& e, const JntArray& lo, const JntArray& hi, const JntArray& vm, double lam, double vt, double vr, const Vector& g, unsigned it) : fk(t), jac(t), ik(t, e), nr(t, e, lo, hi, fk, ik, it, 1e-4), on(t.getNrOfJoints(), e, lo, hi, vm, vt, vr, fk, ik), id(t, g) { ik.setLambda(lam); } };
    Set old(tr, ends, lo, hi, vm, lam, vt, vr, g, it);
    for (int st = 0; st < 10; st++) {
        Set neu(tr, ends, lo, hi, vm, lam, vt, vr, g, it); JntArray q = kq(joints(c.r, n, 2)), qd = kq(joints(c.r, n, 2)), qdd = kq(joints(c.r, n, 2)), q0 = q, qd0 = qd, qdd0 = qdd, bad(n + 1); int kind = c.r.below(6); Out x, y; double r1 = 0, r2 = 0; const std::string seg = ts.segs[c.r.below(ts.segs.size())].name; bool refuse = c.r.chance(0.15);
        Frames fs; Twists vs; for (auto& e : ends) if (c.r.chance(0.7)) { fs[e] = kf(ref::fk(ts.chainTo(ts.find(e)), ts.sub(ts.find(e), joints(c.r, n, 2)))); vs[e] = kt(screw(c.r, 1)); } for (auto& e : ends) if (!vs.count(e)) vs[e] = Twist::Zero(); WrenchMap fx; for (auto& s : ts.segs) if (c.r.chance(0.4)) fx[s.name] = kw(screw(c.r, 5)); auto fs0 = fs; auto vs0 = vs; auto fx0 = fx;
        if (refuse) { Frame f; Jacobian J(n); JntArray u(n); if (kind == 0) c.ok(old.fk.JntToCart(bad, f, seg) < 0 && old.fk.JntToCart(q, f, "no such segment") < 0, "refused"); if (kind == 1) c.ok(old.jac.JntToJac(bad, J, seg) < 0 && old.jac.JntToJac(q, J, "no such segment") < 0, "refused"); if (kind == 2) c.ok(old.ik.CartToJnt(bad, vs, u) < 0, "refused"); if (kind == 3) { auto f2 = fs; f2["no such segment"] = Frame(); c.ok(old.nr.CartToJnt(q, f2, u) < 0, "refused"); } if (kind == 4) { auto f2 = fs; f2["no such segment"] = Frame(); c.ok(old.on.CartToJnt(q, f2, u) < 0, "refused"); } if (kind == 5) c.ok(old.id.CartToJnt(bad, qd, qdd, fx, u) < 0 && old.id.CartToJnt(q, qd, qdd, fx, bad) < 0, "refused"); c.cover("refused"); continue; }
        for (int w = 0; w < 2; w++) {
            Set& s = w ? neu : old; Out& o = w ? y : x; double& r = w ? r2 : r1; Frame f(Vector(w, 3, 4)); Jacobian J(n); J.data.setConstant(w + 3); JntArray u(n); u.data.setConstant(w - 5);
            if (kind == 0) { r = s.fk.JntToCart(q, f, seg); sol::put(o, f); } if (kind == 1) { r = s.jac.JntToJac(q, J, seg); sol::put(o, J.data); } if (kind == 2) { r = s.ik.CartToJnt(q, vs, u); sol::put(o, u); } if (kind == 3) { r = s.nr.CartToJnt(q, fs, u); sol::put(o, u); } if (kind == 4) { r = s.on.CartToJnt(q, fs, u); sol::put(o, u); } if (kind == 5) { r = s.id.CartToJnt(q, qd, qdd, fx, u); sol::put(o, u); }
        }
        static const char* nm[] = {"fkpos", "jac", "wdls", "nr_jl", "online", "id"}; c.okf((r1 == r2 || (r1 != r1 && r2 != r2)) && same(x, y), "as-new", [&] { return std::string("tree ") + nm[kind] + fmt(" returned %g, a new solver %g; ", r1, r2) + differ(x, y); }); c.cover(nm[kind]);
        bool un = q == q0 && qd == qd0 && qdd == qdd0 && fs.size() == fs0.size() && vs.size() == vs0.size() && fx.size() == fx0.size(); for (auto& e : fs) un = un && e.second == fs0[e.first]; for (auto& e : vs) un = un && e.second == vs0[e.first]; for (auto& e : fx) un = un && e.second == fx0[e.first]; c.ok(un, "inputs", nm[kind]); c.okf(same(shape, snap(tr)), "tree-untouched", [&] { return std::string(nm[kind]) + ": " + differ(snap(tr), shape); });
    }
}
int main(int argc, char** argv) {
    Harness H("C24", argc, argv);
    H.rule("history", 1500, history); H.rule("trees", 800, trees);
    return H.finish();
}
