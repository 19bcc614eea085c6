// C19: inverse kinematics of trees: weighted damped least squares velocities, the
// iterative solver with limits and the one-step solver with velocity limits.
#include "gen.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
#include "treeiksolvervel_wdls.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
typedef std::vector<ref::S6> Jac;
static Jac treejac(const TreeSpec& t, int i, const ref::VecR& q) {
    Jac E = ref::jac(t.chainTo(i), t.sub(i, q)), full(t.n); int k = 0; for (int p : t.path(i)) if (t.qnr[p] >= 0) full[t.qnr[p]] = E[k++]; return full;
}
static ref::T4 pose(const TreeSpec& t, int i, const ref::VecR& q) { return ref::fk(t.chainTo(i), t.sub(i, q)); }
static ref::S6 residual(const ref::T4& a, const ref::T4& b, bool* half = nullptr) {   // from a to b, base frame
    ref::M3 R = ref::T(a.M) * b.M; ref::R t = ref::angleOf(R); ref::V3 w(R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]); ref::R n = ref::norm(w); ref::V3 k;
    if (n > 1e-9L) k = w / n * t; else if (t > 1) k = ref::V3(t, 0, 0); else k = w * 0.5L; if (half && t > 3.1L) *half = true;
    return ref::S6(b.p - a.p, a.M * k);
}
static std::vector<std::string> pick(Case& c, const TreeSpec& t, std::vector<int>& idx) {
    int m = std::min(int(t.segs.size()), c.r.size(1, 4, 10)); std::set<int> u; while (int(u.size()) < m) u.insert(c.r.chance(0.6) ? c.r.range(0, int(t.segs.size()) - 1) : int(t.segs.size()) - 1 - c.r.below(m)); std::vector<std::string> e; for (int i : u) idx.push_back(i);
    for (int i = int(idx.size()) - 1; i > 0; i--) std::swap(idx[i], idx[c.r.below(i + 1)]); for (int i : idx) e.push_back(t.segs[i].name); return e;
}
static TreeSpec armTree(Case& c, int mx) {
    ChainOpt o; o.inertia = false; if (c.r.chance(0.3)) o.pFixed = 0.4; TreeSpec t; do t = treespec(c.r, o, 1, mx); while (t.n == 0); for (auto& s : t.segs) s.ftip = rt(kf(s.ftip)); c.desc = fmt("tree of %zu segments, %d joints", t.segs.size(), t.n); return t;
}
static Eigen::MatrixXd weight(Case& c, int n) {
    Eigen::MatrixXd M = Eigen::MatrixXd::Identity(n, n);
    switch (c.r.below(4)) { case 0: break; case 1: for (int i = 0; i < n; i++) M(i, i) = c.r.chance(0.2) ? 0 : c.r.uni(0.3, 2); break;
    default: { Eigen::MatrixXd R(n, n); for (int i = 0; i < R.size(); i++) R.data()[i] = c.r.uni(-1, 1); M = R * R.transpose() / n + 0.3 * Eigen::MatrixXd::Identity(n, n); M = (M + Eigen::MatrixXd(M.transpose())) / 2; } }
    return M;
}
static double nrm(const ref::VecR& v) { ref::R s = 0; for (auto x : v) s += x * x; return double(sqrtl(s)); }
static void vel(Case& c) {
    TreeSpec t = armTree(c, c.r.chance(0.1) ? 20 : 9); Tree T = ktree(t); std::vector<int> idx; auto ends = pick(c, t, idx); int m = int(ends.size()), n = t.n, rows = 6 * m;
    TreeIkSolverVel_wdls ik(T, ends); double lambda = 0; Eigen::MatrixXd Wq = Eigen::MatrixXd::Identity(n, n), Wy = Eigen::MatrixXd::Identity(rows, rows);
    c.ok(ik.getWeightJS() == Wq && ik.getWeightTS() == Wy && ik.getLambda() == 0, "defaults");
    std::vector<int> ord(idx); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return t.segs[a].name < t.segs[b].name; });   // rows are ordered by name
    for (int rep = 0; rep < 3; rep++) {
        if (c.r.chance(0.5)) { Wq = weight(c, n); ik.setWeightJS(Wq); } if (c.r.chance(0.5)) { Wy = weight(c, rows); ik.setWeightTS(Wy); } if (c.r.chance(0.6)) { lambda = c.r.chance(0.2) ? 0 : c.r.chance(0.1) ? c.r.logu(1e-8, 1e-2) : c.r.uni(0.01, 1); ik.setLambda(lambda); }
        c.ok(ik.getWeightJS() == Wq && ik.getWeightTS() == Wy && ik.getLambda() == lambda, "parameters");
        ref::VecR q = joints(c.r, n, 2); if (c.r.chance(0.1)) for (auto& x : q) x = 0; ref::MatR J(rows, ref::VecR(n, 0)); ref::VecR y0(rows, 0); Twists v;
        ref::VecR want = joints(c.r, n, 1); bool consistent = c.r.chance(0.4);
        for (int k = 0; k < m; k++) { Jac E = treejac(t, ord[k], q); ref::S6 d = consistent ? ref::jmul(E, want) : rs(kt(screw(c.r))); d = rs(kt(d)); v[t.segs[ord[k]].name] = kt(d); for (int r = 0; r < 6; r++) { y0[6 * k + r] = d[r]; for (int i = 0; i < n; i++) J[6 * k + r][i] = E[i][r]; } }
        ref::MatR T1(rows, ref::VecR(n, 0)), B(rows, ref::VecR(n, 0)), G(n, ref::VecR(n, 0)), V; ref::VecR y(rows, 0);
        for (int r = 0; r < rows; r++) for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) T1[r][i] += J[r][k] * Wq(k, i);
        for (int r = 0; r < rows; r++) for (int k = 0; k < rows; k++) { y[r] += Wy(r, k) * y0[k]; for (int i = 0; i < n; i++) B[r][i] += Wy(r, k) * T1[k][i]; }
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int r = 0; r < rows; r++) G[a][b] += B[r][a] * B[r][b];
        ref::VecR ev = ref::symEig(G, &V); int rk = std::min(rows, n); ref::R smax = sqrtl(std::max(ev.back(), ref::R(0))), kept = 1e30L; bool gap = true, wild = false;
        for (int k = 0; k < n; k++) { ref::R s = sqrtl(std::max(ev[k], ref::R(0))); if (s > 1e-8L && s < 1e-3L) gap = false; if (s <= 1e-8L && k >= n - rk) wild = true; if (s >= 1e-3L) kept = std::min(kept, s); }
        JntArray Q = kq(q), Q0 = Q, out(c.r.chance(0.2) ? n + 2 : n); Twists v0 = v; double res = ik.CartToJnt(Q, v, out);
        bool same = true; for (auto& x : v0) same = same && v[x.first] == x.second; c.ok(Q == Q0 && same && v.size() == v0.size(), "input");
        c.near(res, nrm(y), 1e-11 * (1 + nrm(y)), "distance");
        if (!c.ok(int(out.rows()) == n, "rows")) return; bool nan = false; for (int i = 0; i < n; i++) nan = nan || !std::isfinite(out(i)); c.okf(!nan, "finite", [&] { return fmt("lambda %.3g, %d rows", lambda, rows); });
        c.cover(fmt("endpoints %d", m)); c.cover(n > rows ? "redundant" : "over-determined"); if (!gap) { c.cover("gap"); continue; } if (wild && lambda == 0) { c.cover("undamped singular"); continue; } c.cover(lambda > 0 ? "damped" : "undamped");
        ref::VecR x(n, 0), ex(n, 0); for (int k = 0; k < n; k++) { ref::R s2 = ev[k]; if (s2 < 1e-16L) continue; ref::R d = 0; for (int r = 0; r < rows; r++) { ref::R bv = 0; for (int i = 0; i < n; i++) bv += B[r][i] * V[i][k]; d += bv * y[r]; } d /= s2 + ref::R(lambda) * lambda; for (int i = 0; i < n; i++) x[i] += V[i][k] * d; }
        ref::R wq = 0; for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { ex[i] += Wq(i, k) * x[k]; wq = std::max(wq, ref::R(fabs(Wq(i, k)))); }
        ref::R yn = nrm(y) * 5, ls = lambda, tol = kept > 1e29L ? 1e-11L * (1 + yn) : 1e-11L * yn * (1 + wq) * (1 + smax) * (1 / kept + 1 / (kept * kept)) * (1 + smax / kept), d = 0; if (ls > 0) tol += 3e-9L * yn * (1 + wq) / (ls * ls); for (int i = 0; i < n; i++) d = std::max(d, fabsl(ex[i] - out(i)));
        c.okf(d <= tol, "solution", [&] { return fmt("deviation %.3Lg of %.3g, lambda %.3g, kept %.3Lg, tolerance %.3Lg", d, nrm(ex), lambda, kept, tol); });
        // refusals
        JntArray o2(n); Twists u = v; u["nope"] = Twist::Zero(); c.ok(ik.CartToJnt(Q, u, o2) < 0, "reject.unknown"); u = v; u.erase(u.begin()); c.ok(ik.CartToJnt(Q, u, o2) < 0, "reject.missing"); c.ok(ik.CartToJnt(JntArray(n + 1), v, o2) < 0 && ik.CartToJnt(JntArray(n - 1), v, o2) < 0, "reject.size");
        bool z = true; for (int i = 0; i < n; i++) z = z && o2(i) == 0; c.ok(z, "reject.untouched");
    }
}
struct Probe : TreeIkSolverVel {   // records what it is asked, can fail or answer with a chosen velocity
    TreeIkSolverVel& s; int calls = 0, failAt = -1; double last = 0; std::vector<Twists> in; std::vector<JntArray> at; JntArray* answer = nullptr; JntArray qd; Probe(TreeIkSolverVel& v) : s(v) {}
    double CartToJnt(const JntArray& q, const Twists& v, JntArray& d) override { in.push_back(v); at.push_back(q); if (++calls == failAt) return last = -77; last = s.CartToJnt(q, v, d); if (answer && last >= 0) d = *answer; qd = d; return last; }
};
static void checkTwists(Case& c, const Twists& got, const Twists& exp, const std::set<std::string>& skip, double tol, const char* key) {
    if (!c.ok(got.size() == exp.size(), std::string(key) + ".endpoints", fmt("%zu, expected %zu", got.size(), exp.size()))) return;
    for (auto& e : exp) { auto it = got.find(e.first); if (!c.ok(it != got.end(), std::string(key) + ".endpoints", e.first)) continue; if (!skip.count(e.first)) eq(c, rs(it->second), rs(e.second), tol, key, e.first); }
}
struct Setup { TreeSpec t; Tree T; std::vector<int> idx; std::vector<std::string> ends; };
static Setup setup(Case& c) { Setup s; s.t = armTree(c, c.r.chance(0.08) ? 20 : 9); s.T = ktree(s.t); s.ends = pick(c, s.t, s.idx); return s; }
static double mag(const TreeSpec& t, const ref::VecR& q) { double m = 1; for (auto x : q) m += double(fabsl(x)); for (auto& g : t.segs) m += double(ref::norm(g.ftip.p) + ref::norm(g.j.origin)); return m; }
static void newton(Case& c) {
    Setup S = setup(c); TreeSpec& t = S.t; int n = t.n, m = int(S.ends.size()); TreeFkSolverPos_recursive fk(S.T); TreeIkSolverVel_wdls wd(S.T, S.ends); double lambda = c.r.chance(0.3) ? 0 : 0.05; wd.setLambda(lambda); Probe ik(wd);
    bool weighted = c.r.chance(0.3); Eigen::MatrixXd Wy = Eigen::MatrixXd::Identity(6 * m, 6 * m); if (weighted) { for (int i = 0; i < 6 * m; i++) Wy(i, i) = c.r.uni(0.2, 2); wd.setWeightTS(Wy); }
    std::vector<int> ord(S.idx); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return t.segs[a].name < t.segs[b].name; });
    double eps = c.r.chance(0.5) ? 1e-6 : c.r.logu(1e-7, 1e-2); unsigned maxit = c.r.chance(0.7) ? 100 : c.r.range(0, 6); JntArray lo(n), hi(n); for (int i = 0; i < n; i++) { lo(i) = -c.r.uni(0.2, 4); hi(i) = c.r.uni(0.2, 4); if (c.r.chance(0.5)) { lo(i) -= 10; hi(i) += 10; } }
    TreeIkSolverPos_NR_JL nr(S.T, S.ends, lo, hi, fk, ik, maxit, eps);
    for (int rep = 0; rep < 4; rep++) {
        ref::VecR gq(n), sd(n); for (int i = 0; i < n; i++) { gq[i] = c.r.uni(lo(i), hi(i)); gq[i] = std::max(ref::R(-3), std::min(ref::R(3), gq[i])); } int kind = c.r.below(4); for (int i = 0; i < n; i++) sd[i] = kind == 0 ? gq[i] : kind <= 2 ? gq[i] + c.r.uni(-1, 1) * 0.003 : c.r.chance(0.8) ? c.r.uni(-5, 5) : c.r.uni(-25, 25); for (auto* v : {&gq, &sd}) for (auto& x : *v) x = double(x);
        Frames goal; std::set<std::string> asked; bool far = c.r.chance(0.15), sub = m > 1 && c.r.chance(0.35);
        for (int i : S.idx) if (!sub || c.r.chance(0.5)) { Frame F = kf(pose(t, i, gq)); if (far) F.p = F.p * 30 + Vector(40, 0, 0); goal[t.segs[i].name] = F; asked.insert(t.segs[i].name); } c.cover(sub ? "subset" : "all endpoints");
        JntArray seed = kq(sd), s0 = seed, out(c.r.chance(0.2) ? n + 1 : n); ik.calls = 0; ik.in.clear(); ik.at.clear(); ik.failAt = c.r.chance(0.1) ? c.r.range(1, 3) : -1;
        double e = nr.CartToJnt(seed, goal, out); c.ok(seed == s0, "input"); c.ok(unsigned(ik.calls) <= maxit, "iterations");
        if (!c.ok(int(out.rows()) == n, "rows")) return; bool in = true; for (int i = 0; i < n; i++) in = in && out(i) >= lo(i) && out(i) <= hi(i); if (maxit) c.ok(in, "within-limits", "out " + s(rq(out)) + " limits " + s(rq(lo)) + s(rq(hi)));
        if (!ik.at.empty()) { bool st = true; for (int i = 0; i < n; i++) st = st && ik.at[0](i) == std::max(lo(i), std::min(hi(i), seed(i))); c.ok(st, "step.start", "asked at " + s(rq(ik.at[0])) + " seed " + s(sd)); }
        // every step asks for exactly the remaining motion of the requested endpoints, and nothing of the others
        for (size_t k = 0; k < ik.in.size() && k < 3; k++) { Twists ex; std::set<std::string> skip; ref::VecR Q = rq(ik.at[k]); double tw = 1; for (int i : S.idx) { auto& nm = t.segs[i].name; bool half = false; ref::S6 d; if (asked.count(nm)) { d = residual(pose(t, i, Q), rt(goal[nm]), &half); tw += double(ref::norm(d.a)); } ex[nm] = kt(d); if (half) skip.insert(nm); } checkTwists(c, ik.in[k], ex, skip, 2e-6 + 1e-13 * mag(t, Q) * tw, "step.demand"); bool li = true; for (int i = 0; i < n; i++) li = li && ik.at[k](i) >= lo(i) && ik.at[k](i) <= hi(i); if (k) c.ok(li, "step.limits"); }
        if (ik.failAt > 0 && ik.calls >= ik.failAt) { c.ok(e == -77, "child-failure", fmt("%g", e)); c.cover("child failed"); continue; }
        ref::R w = 0, big = 0; for (int k = 0; k < m; k++) { auto& nm = t.segs[ord[k]].name; if (!asked.count(nm)) continue; ref::S6 d = residual(pose(t, ord[k], rq(out)), rt(goal[nm])); for (int r = 0; r < 6; r++) { w += powl(d[r] * Wy(6 * k + r, 6 * k + r), 2); big = std::max(big, fabsl(d[r])); } } w = sqrtl(w);
        double tol = 4e-6 + 1e-12 * mag(t, rq(out));
        if (e >= 0) { c.okf(e < eps, "reached", [&] { return fmt("returned %g, eps %g", e, eps); }); c.okf(double(w) < eps + tol, "reached.real", [&] { return fmt("distance %.3Lg, returned %g, eps %.3g", w, e, eps); }); c.near(e, double(w), tol, "distance"); c.cover("converged"); }
        else { c.okf(e == -3 && ik.calls == int(maxit), "failure-code", [&] { return fmt("returned %g after %d of %u", e, ik.calls, maxit); }); c.cover("failed");
            // on-path part of the Jacobian at the goal
            std::vector<int> on; for (int j = 0; j < n; j++) { bool o = false; for (int i : S.idx) if (asked.count(t.segs[i].name)) for (int p : t.path(i)) o = o || t.qnr[p] == j; if (o) on.push_back(j); }
            bool inl = kind <= 2; for (int i = 0; i < n; i++) inl = inl && gq[i] > lo(i) + 0.05 && gq[i] < hi(i) - 0.05; bool easy = kind <= 2 && inl && !far && !sub && maxit == 100 && eps >= 0.9e-6 && !weighted && !on.empty() && (lambda > 0 || int(on.size()) == n);
            if (easy) { ref::MatR G(on.size(), ref::VecR(on.size(), 0)); for (int i : S.idx) { Jac E = treejac(t, i, gq); for (size_t a = 0; a < on.size(); a++) for (size_t b = 0; b < on.size(); b++) for (int r = 0; r < 6; r++) G[a][b] += E[on[a]][r] * E[on[b]][r]; } auto ev = ref::symEig(G); int rk = std::min(int(on.size()), 6 * m); ref::R sm = sqrtl(std::max(ref::R(0), ev[on.size() - rk])), sx = sqrtl(ev.back()); c.okf(!(sm > 0.3L && sx < 20), "converges", [&] { return fmt("returned %g, lambda %g, smallest singular value %.3Lg, eps %g ", e, lambda, sm, eps) + s(sd) + s(gq); }); } }
        // refusals
        JntArray o(n); Frames u = goal; u["nope"] = Frame(); c.ok(nr.CartToJnt(seed, u, o) == -2, "reject.unknown"); if (maxit) { c.ok(nr.CartToJnt(JntArray(n + 1), goal, o) < 0 && nr.CartToJnt(JntArray(n - 1), goal, o) < 0, "reject.size"); JntArray l2(n + 1), h2(n + 1); for (int i = 0; i <= n; i++) { l2(i) = -9; h2(i) = 9; } TreeIkSolverPos_NR_JL b(S.T, S.ends, l2, h2, fk, ik, maxit, 1e-30); c.ok(b.CartToJnt(seed, goal, o) < 0, "reject.limits"); }
    }
}
static void online(Case& c) {
    Setup S = setup(c); TreeSpec& t = S.t; int n = t.n; TreeFkSolverPos_recursive fk(S.T); TreeIkSolverVel_wdls wd(S.T, S.ends); wd.setLambda(c.r.uni(0.05, 0.5)); Probe ik(wd); JntArray lo(n), hi(n), vm(n); for (int i = 0; i < n; i++) { lo(i) = -c.r.uni(0.2, 4); hi(i) = c.r.uni(0.2, 4); vm(i) = c.r.chance(0.05) ? 0 : c.r.logu(0.01, 5); }
    double tm = c.r.chance(0.05) ? 0 : c.r.logu(0.01, 20), rm = c.r.chance(0.05) ? 0 : c.r.logu(0.01, 5); TreeIkSolverPos_Online on(n, S.ends, lo, hi, vm, tm, rm, fk, ik); JntArray given(n);
    ref::VecR gq = joints(c.r, n, 2), q = joints(c.r, n, 2); for (auto* v : {&gq, &q}) for (auto& x : *v) x = double(x);
    for (int rep = 0; rep < 5; rep++) {
        if (c.r.chance(0.3)) { q = joints(c.r, n, 2); for (auto& x : q) x = double(x); }
        Frames goal; std::set<std::string> asked; bool sub = S.idx.size() > 1 && c.r.chance(0.35); for (int i : S.idx) if (!sub || c.r.chance(0.5)) { Frame F = c.r.chance(0.15) ? kf(pose(t, i, q)) : kf(pose(t, i, gq)); goal[t.segs[i].name] = F; asked.insert(t.segs[i].name); }
        ik.answer = nullptr; if (c.r.chance(0.4)) { for (int i = 0; i < n; i++) given(i) = c.r.chance(0.2) ? 0 : c.r.uni(-6, 6); ik.answer = &given; } ik.calls = 0; ik.in.clear(); ik.at.clear(); ik.failAt = c.r.chance(0.1) ? 1 : -1; JntArray Q = kq(q), Q0 = Q, out(n);
        double e = on.CartToJnt(Q, goal, out); c.ok(Q == Q0, "online.input"); if (!c.ok(ik.calls == 1, "online.one-step")) return;
        Twists ex; std::set<std::string> skip; double m0 = mag(t, q);
        for (int i : S.idx) { auto& nm = t.segs[i].name; ref::S6 d; bool half = false; if (asked.count(nm)) { d = residual(pose(t, i, q), rt(goal[nm]), &half); ref::R a = ref::norm(d.a), b = ref::norm(d.b), k = 1; if (a > tm) k = std::min(k, tm / a); if (b > rm) k = std::min(k, rm / b); d = d * k; c.cover(a > tm && b > rm ? "both over" : a > tm ? "linear over" : b > rm ? "angular over" : "inside"); if (b < 2e-6L) c.cover("no rotation"); if ((tm == 0 && a < 1e-9L) || (rm == 0 && b < 2e-6L)) half = true; if (half) { const Twist& g = ik.in[0][nm]; c.okf(g.vel.Norm() <= tm * (1 + 1e-9) + 1e-12 && g.rot.Norm() <= rm * (1 + 1e-9) + 1e-12, "online.limit", [&] { return fmt("%g of %g, %g of %g", g.vel.Norm(), tm, g.rot.Norm(), rm); }); } } ex[nm] = kt(d); if (half) skip.insert(nm); }
        checkTwists(c, ik.in[0], ex, skip, 2e-6 + 1e-12 * m0, "online.demand");
        for (auto& x : ik.in[0]) c.okf(x.second.vel.Norm() <= tm * (1 + 1e-9) + 1e-12 && x.second.rot.Norm() <= rm * (1 + 1e-9) + 1e-12, "online.limit", [&] { return fmt("%g of %g, %g of %g", x.second.vel.Norm(), tm, x.second.rot.Norm(), rm); });
        if (ik.failAt == 1) { c.ok(e == -77, "online.child-failure"); continue; } c.ok(e == ik.last && e >= 0, "online.distance");
        double k = 1; for (int i = 0; i < n; i++) if (fabs(ik.qd(i)) > vm(i)) k = std::min(k, vm(i) / fabs(ik.qd(i))); c.cover(k < 1 ? "joint speed over" : "joint speed inside");
        for (int i = 0; i < n; i++) { double x = double(q[i]) + k * ik.qd(i); if (x < lo(i)) { x = lo(i); c.cover("clamped"); } if (x > hi(i)) { x = hi(i); c.cover("clamped"); } c.near(out(i), x, 1e-12 * m0 * (1 + fabs(ik.qd(i))), "online.integrate"); }
        JntArray o(n); Frames u = goal; u["nope"] = Frame(); c.ok(on.CartToJnt(Q, u, o) == -2, "online.reject.unknown"); ik.answer = nullptr; c.ok(on.CartToJnt(JntArray(n + 1), goal, o) < 0, "online.reject.size"); JntArray l2(n + 1); TreeIkSolverPos_Online b1(n, S.ends, l2, hi, vm, tm, rm, fk, wd), b2(n, S.ends, lo, l2, vm, tm, rm, fk, wd), b3(n, S.ends, lo, hi, l2, tm, rm, fk, wd); c.ok(b1.CartToJnt(Q, goal, o) == -1 && b2.CartToJnt(Q, goal, o) == -1 && b3.CartToJnt(Q, goal, o) == -1, "online.reject.limits");
        q = rq(out);
    }
}
int main(int argc, char** argv) {
    Harness H("C19", argc, argv);
    H.rule("velocity", 3000, vel); H.rule("newton", 2500, newton); H.rule("online", 3000, online);
    return H.finish();
}
