// C14: inverse dynamics and dynamic parameters of chains and trees against the
// Lagrangian of the same bodies.
#include "gen.hpp"
#include "chaindynparam.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static ChainOpt opt(Case& c) {
    ChainOpt o; o.maxSeg = 6; o.rotorInertia = c.r.chance(0.5); o.minSeg = 1;
    if (c.r.chance(0.15)) o.pFixed = 0.6; if (c.r.chance(0.03)) o.pFixed = 1; if (c.r.chance(0.2)) o.pTrans = 0.8;
    return o;
}
static bool close(Case& c, const JntArray& got, const ref::VecR& e, double rel, const std::string& key) {
    ref::R d = 0; if (got.rows() != e.size()) return c.ok(false, key, "size");
    for (unsigned i = 0; i < got.rows(); i++) { ref::R x = fabsl(got(i) - e[i]); if (!(x <= d)) d = x; }
    return c.okf(d <= rel, key, [&] { return fmt("deviation %.3Lg (tol %.3g): got ", d, rel) + s(got) + " expected " + s(e); });
}
static void chains(Case& c) {
    ref::ChainSpec sp = chain(c.r, opt(c)); Chain ch = kchain(sp); int n = ref::nj(sp), ns = int(sp.size());
    c.desc = describe(sp);
    ref::V3 g = c.r.chance(0.3) ? ref::V3(0, 0, -9.81) : rv(kv(vec(c.r, 10)));
    ChainIdSolver_RNE id(ch, kv(g)); ChainDynParam dp(ch, kv(g));
    for (int rep = 0; rep < 2; rep++) {
        ref::VecR q = joints(c.r, n), qd = joints(c.r, n, 2), qdd = joints(c.r, n, 3);
        for (auto* v : {&q, &qd, &qdd}) for (auto& x : *v) x = double(x);
        std::vector<ref::S6> fe(ns); Wrenches fx(ns); if (c.r.chance(0.6)) for (int i = 0; i < ns; i++) { fx[i] = kw(screw(c.r, 5)); fe[i] = rs(fx[i]); }
        auto M = ref::massMatrix(sp, q); auto C = ref::coriolis(sp, q, qd), G = ref::gravityTorque(sp, q, g), X = ref::externalTorque(sp, q, fe), MA = ref::matvec(M, qdd);
        ref::VecR tau(n); ref::R sc = 1; for (int i = 0; i < n; i++) { tau[i] = MA[i] + C[i] + G[i] - X[i]; sc = std::max({sc, fabsl(MA[i]), fabsl(C[i]), fabsl(G[i]), fabsl(X[i])}); }
        JntArray t(n), a(n), b(n); SetToZero(t); for (int i = 0; i < n; i++) t(i) = c.r.uni(-9, 9);
        if (n == 0) { c.trivial = true; c.ok(id.CartToJnt(t, t, t, fx, t) == 0, "id.status"); JntSpaceInertiaMatrix H(0); c.ok(dp.JntToMass(t, H) == 0, "mass.status"); return; }
        c.ok(id.CartToJnt(kq(q), kq(qd), kq(qdd), fx, t) == 0 && id.getError() == 0, "id.status");
        close(c, t, tau, 2e-10 * double(sc), "id.torques");
        // the pieces
        JntSpaceInertiaMatrix H(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) H(i, j) = 7;
        c.ok(dp.JntToMass(kq(q), H) == 0 && dp.getError() == 0, "mass.status");
        ref::R mx = 1, dev = 0; for (auto& r : M) for (auto x : r) mx = std::max(mx, fabsl(x));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ref::R d = fabsl(H(i, j) - M[i][j]); if (!(d <= dev)) dev = d; }
        c.okf(dev <= 1e-12L * mx, "mass.matrix", [&] { return fmt("deviation %.3Lg of %.3Lg", dev, mx); });
        bool sym = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym = sym && H(i, j) == H(j, i); c.ok(sym, "mass.symmetric");
        ref::R ke = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ke += qd[i] * H(i, j) * qd[j]; c.ok(ke >= -1e-11L * mx * 50, "mass.nonnegative-energy");
        c.ok(dp.JntToCoriolis(kq(q), kq(qd), a) == 0 && dp.getError() == 0, "coriolis.status"); close(c, a, C, 2e-10 * double(sc), "coriolis");
        c.ok(dp.JntToGravity(kq(q), b) == 0 && dp.getError() == 0, "gravity.status"); close(c, b, G, 1e-12 * double(sc), "gravity");
        // the pieces add up to the inverse dynamics, to rounding
        if (rep == 0) { JntArray mq(n); Multiply(H, kq(qdd), mq); ref::VecR sum(n); for (int i = 0; i < n; i++) sum[i] = ref::R(mq(i)) + a(i) + b(i) - X[i]; close(c, t, sum, 1e-12 * double(sc), "sum-of-parts"); }
        // power: Mdot - 2C is skew, so  qd'(tau - G) = d/dt T  when qdd = 0
        c.cover(fmt("joints%d", n));
        JntArray bad(n + 1); Wrenches fb(ns + 1); JntSpaceInertiaMatrix HB(n + 1);
        c.ok(id.CartToJnt(bad, kq(qd), kq(qdd), fx, t) == SolverI::E_SIZE_MISMATCH && id.CartToJnt(kq(q), bad, kq(qdd), fx, t) == SolverI::E_SIZE_MISMATCH && id.CartToJnt(kq(q), kq(qd), bad, fx, t) == SolverI::E_SIZE_MISMATCH && id.CartToJnt(kq(q), kq(qd), kq(qdd), fb, t) == SolverI::E_SIZE_MISMATCH && id.CartToJnt(kq(q), kq(qd), kq(qdd), fx, bad) == SolverI::E_SIZE_MISMATCH && id.getError() == SolverI::E_SIZE_MISMATCH, "id.reject");
        c.ok(dp.JntToMass(bad, H) == SolverI::E_SIZE_MISMATCH && dp.JntToMass(kq(q), HB) == SolverI::E_SIZE_MISMATCH && dp.getError() == SolverI::E_SIZE_MISMATCH, "mass.reject");
        c.ok(dp.JntToCoriolis(bad, kq(qd), a) == SolverI::E_SIZE_MISMATCH && dp.getError() == SolverI::E_SIZE_MISMATCH && dp.JntToGravity(kq(q), bad) == SolverI::E_SIZE_MISMATCH && dp.getError() == SolverI::E_SIZE_MISMATCH, "param.reject");
    }
}
static void trees(Case& c) {
    TreeSpec t = treespec(c.r, opt(c), 1, 9); Tree T = ktree(t); int n = t.n; c.desc = fmt("tree of %zu segments, %d joints", t.segs.size(), n);
    if (n == 0) c.trivial = true;
    ref::V3 g = rv(kv(vec(c.r, 10))); TreeIdSolver_RNE id(T, kv(g));
    for (int rep = 0; rep < 2; rep++) {
        ref::VecR q = joints(c.r, n), qd = joints(c.r, n, 2), qdd = joints(c.r, n, 3); for (auto* v : {&q, &qd, &qdd}) for (auto& x : *v) x = double(x);
        WrenchMap fx; std::map<int, ref::S6> fe;
        for (size_t i = 0; i < t.segs.size(); i++) if (c.r.chance(0.4)) { Wrench w = kw(screw(c.r, 5)); fx[t.segs[i].name] = w; fe[int(i)] = rs(w); }
        if (c.r.chance(0.2)) fx["not in the tree"] = kw(screw(c.r, 5)); if (c.r.chance(0.2)) fx[t.root] = kw(screw(c.r, 5));
        ref::VecR tau(n, 0); ref::R sc = 1;
        for (size_t i = 0; i < t.segs.size(); i++) {   // each body alone on its path
            ref::ChainSpec p = t.chainTo(int(i)); for (size_t k = 0; k + 1 < p.size(); k++) { p[k].m = 0; p[k].Ic = ref::M3(); p[k].cog = ref::V3(); } for (auto& z : p) z.j.inertia = 0;
            std::vector<ref::S6> f(p.size()); if (fe.count(int(i))) f.back() = fe[int(i)];
            ref::VecR part = ref::invDyn(p, t.sub(int(i), q), t.sub(int(i), qd), t.sub(int(i), qdd), g, f);
            int k = 0; for (int x : t.path(int(i))) if (t.qnr[x] >= 0) { tau[t.qnr[x]] += part[k]; sc = std::max(sc, fabsl(part[k])); k++; }
            if (t.qnr[i] >= 0) tau[t.qnr[i]] += t.segs[i].j.inertia * qdd[t.qnr[i]];
        }
        JntArray o(n); c.ok(id.CartToJnt(kq(q), kq(qd), kq(qdd), fx, o) == 0 && id.getError() == 0, "status");
        close(c, o, tau, 1e-9 * double(sc), "torques");
        JntArray bad(n + 1);
        c.ok(id.CartToJnt(bad, kq(qd), kq(qdd), fx, o) == SolverI::E_SIZE_MISMATCH && id.CartToJnt(kq(q), bad, kq(qdd), fx, o) == SolverI::E_SIZE_MISMATCH && id.CartToJnt(kq(q), kq(qd), bad, fx, o) == SolverI::E_SIZE_MISMATCH && id.CartToJnt(kq(q), kq(qd), kq(qdd), fx, bad) == SolverI::E_SIZE_MISMATCH && id.getError() == SolverI::E_SIZE_MISMATCH, "reject");
    }
}
int main(int argc, char** argv) {
    Harness H("C14", argc, argv);
    H.rule("chains", 1200, chains);
    H.rule("trees", 800, trees);
    return H.finish();
}
