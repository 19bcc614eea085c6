// C18: position inverse kinematics of chains: success means the goal is reached
// within the tolerance and the limits, failure is reported as the documented code.
#include "gen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainiksolverpos_lma.hpp"
#include "chainiksolverpos_nr.hpp"
#include "chainiksolverpos_nr_jl.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_wdls.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static ref::VecR residual(const ref::T4& a, const ref::T4& b) {   // from a to b, base frame
    ref::VecR d(6); for (int i = 0; i < 3; i++) d[i] = b.p[i] - a.p[i]; ref::M3 R = ref::T(a.M) * b.M; ref::R t = ref::angleOf(R);
    ref::V3 w(R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]); ref::R n = ref::norm(w); ref::V3 k;
    if (n > 1e-9L) k = w / n * t; else if (t > 1) k = ref::V3(t, 0, 0); else k = w * 0.5L; ref::V3 g = a.M * k; for (int i = 0; i < 3; i++) d[3 + i] = g[i]; return d;
}
// rotations below the library's angle resolution (epsilon, 1e-6) are reported as none
static const ref::R RES = 2e-6L;
static ref::R inf(const ref::VecR& v) { ref::R m = 0; for (auto x : v) if (!(fabsl(x) <= m)) m = fabsl(x); return m; }
static ref::R sigmaMin(const ref::ChainSpec& sp, const ref::VecR& q, ref::R* smax = nullptr) {
    auto J = ref::jac(sp, q); int n = J.size(), k = std::min(6, n); ref::MatR G(k, ref::VecR(k, 0)); for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) if (n >= 6) for (int i = 0; i < n; i++) G[a][b] += J[i][a] * J[i][b]; else for (int i = 0; i < 6; i++) G[a][b] += J[a][i] * J[b][i];
    auto e = ref::symEig(G); if (smax) *smax = sqrtl(std::max(ref::R(0), e.back())); return sqrtl(std::max(ref::R(0), e[0]));
}
struct FkProbe : ChainFkSolverPos {   // records the calls, fails on demand
    ChainFkSolverPos_recursive s; int calls = 0, failAt = -1, updates = 0; FkProbe(const Chain& c) : s(c) {}
    int JntToCart(const JntArray& q, Frame& p, int n = -1) override { if (++calls == failAt) return -3; return s.JntToCart(q, p, n); }
    int JntToCart(const JntArray& q, std::vector<Frame>& p, int n = -1) override { return s.JntToCart(q, p, n); }
    void updateInternalDataStructures() override { updates++; s.updateInternalDataStructures(); }
};
struct IkProbe : ChainIkSolverVel {
    ChainIkSolverVel& s; int calls = 0, failAt = -1, updates = 0, last = 0; double extra = 1; std::vector<JntArray> seen; IkProbe(ChainIkSolverVel& v) : s(v) {}
    int CartToJnt(const JntArray& q, const Twist& v, JntArray& d) override { seen.push_back(q); if (++calls == failAt) return last = -7; last = s.CartToJnt(q, v, d); return last; }
    int CartToJnt(const JntArray&, const FrameVel&, JntArrayVel&) override { return -8; }
    void updateInternalDataStructures() override { updates++; s.updateInternalDataStructures(); }
};
static ref::ChainSpec arm(Case& c) { ChainOpt o; o.inertia = false; o.minSeg = 1; o.maxSeg = 9; ref::ChainSpec sp; do { sp = chain(c.r, o); } while (ref::nj(sp) == 0); for (auto& s : sp) s.ftip = rt(kf(s.ftip)); c.desc = describe(sp); return sp; }
struct Problem { ref::VecR goalq, seed; Frame goal; bool easy = false, reachable = true, at = false; };
static Problem problem(Case& c, const ref::ChainSpec& sp) {
    int n = ref::nj(sp); Problem p; p.goalq = joints(c.r, n, 2); p.seed = joints(c.r, n, 2); ref::R smax; ref::R s = sigmaMin(sp, p.goalq, &smax); int kind = c.r.below(6);
    if (kind <= 2) { for (int i = 0; i < n; i++) p.seed[i] = p.goalq[i] + c.r.uni(-1, 1) * 0.003; p.easy = s > 0.3L && smax < 20; c.cover(p.easy ? "easy" : "near singular"); }
    else if (kind == 3) { p.seed = p.goalq; p.at = true; c.cover("at goal"); }
    else c.cover("far");
    for (auto* v : {&p.goalq, &p.seed}) for (auto& x : *v) x = double(x);
    p.goal = kf(ref::fk(sp, p.goalq)); if (kind == 4) { p.goal.p = p.goal.p * 50; p.reachable = false; }
    if (kind == 5 && c.r.chance(0.6)) { // a goal that differs from the present pose in some coordinates only: turn in place, or shift without turning
        p.goal = kf(ref::fk(sp, p.seed)); int what = c.r.below(3); double mag = c.r.logu(1e-4, 2); Vector d; for (int i = 0; i < 3; i++) d(i) = c.r.chance(0.5) ? c.r.uni(-mag, mag) : 0;
        if (what != 0) p.goal.p += d; if (what != 1) p.goal.M = Rotation::Rot(kv(unitvec(c.r)), mag) * p.goal.M; p.reachable = false; c.cover(what == 0 ? "turn in place" : what == 1 ? "shift" : "turn and shift");
        if (n >= 4 && c.r.chance(0.5)) { p.seed = p.goalq; p.goal = kf(ref::fk(sp, p.seed)); for (int i = n - 3; i < n; i++) p.goalq[i] = double(p.goalq[i] + c.r.uni(-1, 1)); Frame f2 = kf(ref::fk(sp, p.goalq)); if (c.r.chance(0.5)) p.goal.M = f2.M; else p.goal = f2; }
    }
    return p;
}
static void judgeResidual(Case& c, const ref::ChainSpec& sp, const JntArray& q, const Frame& goal, ref::R eps, bool step, const std::string& key) {
    ref::VecR Q = rq(q), d = residual(ref::fk(sp, Q), rt(goal)); ref::R r = inf(d), tol = eps * (1 + 1e-9L) + RES, sm = 1, smax = 1;
    if (step) { sm = std::max(sigmaMin(sp, Q, &smax), ref::R(1e-5)); ref::R dq = eps * 2.5L / sm; tol += dq * dq * (10 + smax * smax) + eps; if (sm < 0.02L) { c.cover("success near singular"); return; } }
    c.okf(r <= tol, key, [&] { return fmt("residual %.3Lg, eps %.3Lg, smallest singular value %.3Lg, q %s", r, eps, sm, s(Q).c_str()); });
}
static void newton(Case& c) {
    ref::ChainSpec sp = arm(c); Chain ch = kchain(sp); bool jl = c.r.chance(0.6), dl = jl && c.r.chance(0.35); bool damped = c.r.chance(0.3);
    ChainIkSolverVel_pinv pv(ch); ChainIkSolverVel_wdls wd(ch, 0.01); wd.setLambda(0.1); FkProbe fk(ch); IkProbe ik(damped ? (ChainIkSolverVel&)wd : (ChainIkSolverVel&)pv);
    double eps = c.r.chance(0.5) ? 1e-6 : c.r.logu(1e-8, 1e-3); unsigned maxit = c.r.chance(0.7) ? 100 : c.r.range(0, 5); int n = ref::nj(sp);
    JntArray lo(n), hi(n); for (int i = 0; i < n; i++) { lo(i) = -c.r.uni(0.2, 4); hi(i) = c.r.uni(0.2, 4); }
    ChainIkSolverPos_NR nr(ch, fk, ik, maxit, eps); ChainIkSolverPos_NR_JL nd(ch, fk, ik, maxit, eps), nl(ch, lo, hi, fk, ik, maxit, eps); ChainIkSolverPos& S = !jl ? (ChainIkSolverPos&)nr : dl ? (ChainIkSolverPos&)nd : (ChainIkSolverPos&)nl;
    if (dl) for (int i = 0; i < n; i++) { lo(i) = -1e300; hi(i) = 1e300; }
    c.cover(!jl ? "NR" : dl ? "NR_JL default" : "NR_JL");
    for (int rep = 0; rep < 4; rep++) {
        if (rep == 2 && c.r.chance(0.4)) {
            sp = arm(c); ch = kchain(sp); int old = n; n = ref::nj(sp); JntArray q(n); if (n != old) c.ok(S.CartToJnt(q, Frame(), q) == SolverI::E_NOT_UP_TO_DATE, "stale"); int uf = fk.updates, ui = ik.updates; S.updateInternalDataStructures(); c.ok(fk.updates > uf && ik.updates > ui, "update-children");
            JntArray l2(n), h2(n); for (int i = 0; i < n; i++) { l2(i) = i < old ? lo(i) : -1e300; h2(i) = i < old ? hi(i) : 1e300; } lo = l2; hi = h2; c.cover(n > old ? "grow" : n < old ? "shrink" : "same");
        }
        if (jl && c.r.chance(0.25)) { for (int i = 0; i < n; i++) { lo(i) = -c.r.uni(0.2, 4); hi(i) = c.r.uni(0.2, 4); } c.ok((dl ? nd : nl).setJointLimits(lo, hi) == 0, "limits"); }
        Problem p = problem(c, sp); JntArray seed = kq(p.seed), s0 = seed, out(n); for (int i = 0; i < n; i++) out(i) = 7; Frame g0 = p.goal; fk.calls = ik.calls = 0; ik.seen.clear(); ik.failAt = fk.failAt = -1; int inject = c.r.below(12); if (inject == 0) fk.failAt = c.r.range(1, 3); if (inject == 1) ik.failAt = c.r.range(1, 3);
        int e = S.CartToJnt(seed, p.goal, out); c.ok(S.getError() == e, "get-error", fmt("returned %d, recorded %d", e, S.getError())); c.ok(seed == s0 && p.goal == g0, "input");
        bool in = true; for (int i = 0; i < n; i++) in = in && out(i) >= lo(i) && out(i) <= hi(i); bool inseed = true, ingoal = true; for (int i = 0; i < n; i++) { inseed = inseed && p.seed[i] >= lo(i) + 0.1 && p.seed[i] <= hi(i) - 0.1; ingoal = ingoal && p.goalq[i] >= lo(i) + 0.1 && p.goalq[i] <= hi(i) - 0.1; }
        if (fk.failAt > 0 && fk.calls >= fk.failAt) { c.ok(e == ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED && e == ChainIkSolverPos_NR_JL::E_FKSOLVERPOS_FAILED, "fk-failure"); c.cover("fk failed"); continue; }
        if (ik.failAt > 0 && ik.calls >= ik.failAt) { c.ok(e == ChainIkSolverPos_NR::E_IKSOLVER_FAILED && e == ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED, "ik-failure"); c.cover("ik failed"); continue; }
        c.ok(unsigned(ik.calls) <= maxit && unsigned(fk.calls) <= maxit, "iterations", fmt("%d of %u", ik.calls, maxit));
        if (jl) { c.ok(in, "within-limits", "out " + s(rq(out)) + " limits " + s(rq(lo)) + s(rq(hi))); bool sn = true; for (auto& q : ik.seen) for (int i = 0; i < n; i++) sn = sn && q(i) >= lo(i) && q(i) <= hi(i); c.ok(sn, "iterates-within-limits"); }
        if (e == SolverI::E_NOERROR || e == SolverI::E_DEGRADED) { judgeResidual(c, sp, out, p.goal, eps, !jl, jl ? "limited.reached" : "reached"); if (!jl) c.ok((e == SolverI::E_DEGRADED) == (ik.last > 0), "degraded", fmt("child returned %d, result %d", ik.last, e)); else c.ok(e == 0, "status"); c.cover(e ? "degraded" : "converged"); }
        else {
            c.okf(e == SolverI::E_MAX_ITERATIONS_EXCEEDED || (e == (jl ? ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED : ChainIkSolverPos_NR::E_IKSOLVER_FAILED) && ik.last < 0), "failure-code", [&] { return fmt("returned %d, child %d", e, ik.last); }); c.cover("failed");
            if (e == SolverI::E_MAX_ITERATIONS_EXCEEDED) c.ok(unsigned(fk.calls) == maxit, "gave-up-early", fmt("%d of %u", fk.calls, maxit));
            c.okf(!(p.easy && eps > 0.9e-6L && !damped && maxit >= 100 && (!jl || (inseed && ingoal))), "converges", [&] { return fmt("returned %d, seed ", e) + s(p.seed) + " goal " + s(p.goalq); });
            if (p.at && maxit > 0 && (!jl || (inseed && ingoal)) && eps > 1e-7) c.ok(false, "at-goal", fmt("returned %d", e));
        }
        if (p.easy && eps > 0.9e-6L && !damped && maxit >= 100 && (!jl || (inseed && ingoal))) c.ok(e >= 0, "converges");
        JntArray bad(n + 1), ok(n); c.ok(S.CartToJnt(bad, p.goal, ok) == SolverI::E_SIZE_MISMATCH && S.CartToJnt(seed, p.goal, bad) == SolverI::E_SIZE_MISMATCH && (!jl || ((dl ? nd : nl).setJointLimits(bad, ok) == SolverI::E_SIZE_MISMATCH && (dl ? nd : nl).setJointLimits(ok, bad) == SolverI::E_SIZE_MISMATCH)), "reject");
    }
}
static void lma(Case& c) {
    ref::ChainSpec sp = arm(c); Chain ch = kchain(sp); int n = ref::nj(sp); Eigen::Matrix<double, 6, 1> L; L << 1, 1, 1, 0.01, 0.01, 0.01; bool def = c.r.chance(0.3); if (!def) for (int i = 0; i < 6; i++) L(i) = c.r.chance(0.1) ? 0 : c.r.uni(0.05, 2);
    double eps = c.r.chance(0.5) ? 1e-5 : c.r.logu(1e-8, 1e-2), ej = c.r.chance(0.7) ? 1e-15 : c.r.logu(1e-12, 1e-3); int maxit = c.r.chance(0.7) ? 500 : c.r.range(1, 20);
    std::unique_ptr<ChainIkSolverPos_LMA> p; if (def) p.reset(new ChainIkSolverPos_LMA(ch, eps, maxit, ej)); else p.reset(new ChainIkSolverPos_LMA(ch, L, eps, maxit, ej)); ChainIkSolverPos_LMA& S = *p;
    for (int rep = 0; rep < 4; rep++) {
        if (rep == 2 && c.r.chance(0.5)) { sp = arm(c); ch = kchain(sp); int old = n; n = ref::nj(sp); JntArray q(n); if (n != old) c.ok(S.CartToJnt(q, Frame(), q) == SolverI::E_NOT_UP_TO_DATE, "stale"); S.updateInternalDataStructures(); c.cover(n > old ? "grow" : n < old ? "shrink" : "same"); }
        Problem P = problem(c, sp); JntArray seed = kq(P.seed), s0 = seed, out(n); for (int i = 0; i < n; i++) out(i) = 7;
        int e = S.CartToJnt(seed, P.goal, out); c.ok(S.getError() == e, "get-error"); c.ok(seed == s0, "input");
        ref::VecR r0 = residual(ref::fk(sp, P.seed), rt(P.goal)), r1 = residual(ref::fk(sp, rq(out)), rt(P.goal)); ref::R w0 = 0, w1 = 0, t1 = 0, a1 = 0; for (int i = 0; i < 6; i++) { w0 += r0[i] * r0[i] * L(i) * L(i); w1 += r1[i] * r1[i] * L(i) * L(i); (i < 3 ? t1 : a1) += r1[i] * r1[i]; } w0 = sqrtl(w0); w1 = sqrtl(w1); t1 = sqrtl(t1); a1 = sqrtl(a1);
        ref::R qm = 0; for (int i = 0; i < n; i++) qm = std::max(qm, ref::R(fabs(out(i)))); ref::R big = 1e-9L * (1 + w0 + t1) + 1e-14L * qm * (1 + qm * 1e-6L), wm = std::max(L(3), std::max(L(4), L(5))), res = RES * wm; bool half = a1 > 3.1L;   // direction of a half turn is arbitrary, its size is not
        if (half) { c.cover("half turn"); bool iso = L(3) == L(4) && L(4) == L(5); if (!iso) { c.near(S.lastTransDiff, double(t1), double(big), "report.translation"); continue; } }
        c.okf(w1 <= w0 + big + res, "never-worse", [&] { return fmt("weighted distance grew from %.6Lg to %.6Lg, returned %d", w0, w1, e); });
        c.near(S.lastDifference, double(w1), double(big + (a1 < RES ? res : 0)), "report.difference", fmt("returned %d", e) + " q " + gen::s(rq(out))); c.near(S.lastTransDiff, double(t1), double(big), "report.translation", fmt("returned %d", e) + " q " + gen::s(rq(out))); c.near(S.lastRotDiff, double(a1), (a1 < RES ? double(RES) : 1e-8) + 1e-14 * double(qm), "report.rotation", fmt("returned %d ", e) + gen::s(rq(out))); c.ok(S.lastNrOfIter >= 0 && S.lastNrOfIter <= maxit, "report.iterations");
        if (e == 0) { c.okf(w1 < eps * (1 + 1e-6L) + 1e-12L + 1e-14L * qm + (a1 < RES ? res : 0), "reached", [&] { return fmt("weighted residual %.3Lg, eps %.3g", w1, eps); }); c.cover("converged"); }
        else { c.okf(e == ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL || e == ChainIkSolverPos_LMA::E_INCREMENT_JOINTS_TOO_SMALL || e == SolverI::E_MAX_ITERATIONS_EXCEEDED, "failure-code", [&] { return fmt("%d", e); }); c.okf(w1 >= eps * (1 - 1e-6L) - 1e-12L - 1e-14L * qm, "honest-failure", [&] { return fmt("returned %d with residual %.3Lg < eps %.3g", e, w1, eps); }); c.cover(fmt("failed%d", e));
            if (e == SolverI::E_MAX_ITERATIONS_EXCEEDED) c.ok(S.lastNrOfIter == maxit, "report.iterations");
            if (e == ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL) { auto J = ref::jac(sp, rq(out)); ref::R g = 0; for (int i = 0; i < n; i++) { ref::R x = 0; for (int k = 0; k < 6; k++) x += J[i][k] * L(k) * L(k) * r1[k]; g += x * x; } g = sqrtl(g); c.okf(g < ej + 1e-11L * (1 + w1) + 1e-13L * qm + (a1 < RES ? RES : ref::R(3e-8)) * wm * wm * sqrtl(n) * 4, "gradient-code", [&] { return fmt("gradient %.3Lg, threshold %.3g", g, ej); }); } }
        bool fullw = true; for (int i = 0; i < 6; i++) fullw = fullw && L(i) > 0.04;
        if (P.easy && eps > 5e-6 && maxit == 500 && ej < 1e-14 && fullw) c.okf(e == 0, "converges", [&] { return fmt("returned %d after %d iterations, residual %.3Lg, eps %.3g smin %.3Lg L %g %g %g %g %g %g", e, S.lastNrOfIter, w1, eps, sigmaMin(sp,P.goalq),L(0),L(1),L(2),L(3),L(4),L(5)); });
        if (w0 < eps * 0.99L) { c.ok(e == 0 && S.lastNrOfIter == 0, "at-goal"); bool same = true; for (int i = 0; i < n; i++) same = same && out(i) == seed(i); c.ok(same, "at-goal.unchanged"); auto J = ref::jac(sp, P.seed); ref::MatR G(6, ref::VecR(6, 0)); for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int i = 0; i < n; i++) G[a][b] += J[i][a] * L(a) * J[i][b] * L(b); auto ev = ref::symEig(G); int m = std::min(6, n); if (c.ok(S.lastSV.size() == m, "at-goal.singular-values.size")) for (int k = 0; k < m; k++) c.near(S.lastSV(k), double(sqrtl(std::max(ref::R(0), ev[5 - k]))), 1e-6, "at-goal.singular-values"); }
        // the exposed kinematics
        ref::VecR q = joints(c.r, n); Eigen::VectorXd qe(n); for (int i = 0; i < n; i++) qe(i) = double(q[i]); for (auto& x : q) x = double(x); S.compute_fwdpos(qe); S.compute_jacobian(qe); eq(c, rt(S.T_base_head), ref::fk(sp, q), 1e-10, "kinematics.pose"); auto J = ref::jac(sp, q); for (int i = 0; i < n; i++) for (int k = 0; k < 6; k++) c.near(S.jac(k, i), double(J[i][k]), 1e-10, "kinematics.jacobian");
        JntArray bad(n + 1), ok(n); c.ok(S.CartToJnt(bad, P.goal, ok) == SolverI::E_SIZE_MISMATCH && S.CartToJnt(seed, P.goal, bad) == SolverI::E_SIZE_MISMATCH, "reject");
    }
}
int main(int argc, char** argv) {
    Harness H("C18", argc, argv);
    H.rule("newton", 2500, newton); H.rule("lma", 2000, lma);
    return H.finish();
}
