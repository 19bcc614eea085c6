// C16: the constrained hybrid dynamics solver obeys the equations of motion,
// meets feasible acceleration constraints, and is the constrained minimum.
#include "gen.hpp"
#include "chainhdsolver_vereshchagin.hpp"
#include "chainfdsolver_recursive_newton_euler.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static ref::R adot(const ref::S6& a, const ref::S6& x) { return ref::dot(a.a, x.a) + ref::dot(a.b, x.b); }
static void hybrid(Case& c) {
    ChainOpt o; o.maxSeg = 7; o.pFixed = 0; o.physical = true; o.rotorInertia = c.r.chance(0.5); if (c.r.chance(0.2)) o.pTrans = 0.8;
    ref::ChainSpec sp = chain(c.r, o); const double W = c.r.chance(0.7) ? 1.0 : std::pow(2.0, c.r.chance(0.3) ? -c.r.range(2, 12) : c.r.range(2, 22)); // from toys to cranes
    for (auto& sg : sp) { sg.m *= W; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sg.Ic[i][j] *= W; sg.j.inertia *= W; }
    Chain ch = kchain(sp); int n = int(sp.size()); c.desc = describe(sp); c.cover(W == 1 ? "ordinary mass" : W < 1 ? "light" : W < 1000 ? "heavy" : "very heavy");
    ref::V3 g = rv(kv(c.r.chance(0.3) ? ref::V3(0, 0, -9.81) : vec(c.r, 10)));
    int nc = c.r.range(1, 6); Twist ra(-kv(g), Vector::Zero());
    ChainHdSolver_Vereshchagin hd(ch, ra, nc);
    ref::VecR prev;
    for (int rep = 0; rep < 3; rep++) {
        ref::VecR q = joints(c.r, n), qd = joints(c.r, n, 2), ff = joints(c.r, n, 10); for (auto& x : ff) x *= W; for (auto* v : {&q, &qd, &ff}) for (auto& x : *v) x = double(x);
        Wrenches fx(n); std::vector<ref::S6> fe(n); std::vector<ref::T4> X(n + 1); for (int i = 1; i <= n; i++) X[i] = ref::fk(sp, q, i);
        if (c.r.chance(0.6)) for (int k = 0; k < n; k++) { fx[k] = kw(screw(c.r, 5 * W)); ref::S6 w = rs(fx[k]); ref::M3 Rt = ref::T(X[k + 1].M); fe[k] = ref::S6(Rt * w.a, Rt * w.b); }
        // constraint directions: base-aligned unit forces, or general ones, or off
        Jacobian alfa(nc); JntArray beta(nc); int mode = c.r.below(4); std::vector<ref::S6> A(nc);
        std::vector<int> ax{0, 1, 2, 3, 4, 5}; for (int i = 5; i > 0; i--) std::swap(ax[i], ax[c.r.below(i + 1)]);
        for (int k = 0; k < nc; k++) { ref::S6 a; if (mode == 0) {} else if (mode == 1) { (ax[k] < 3 ? a.a[ax[k]] : a.b[ax[k] - 3]) = 1; } else { for (int i = 0; i < 3; i++) { a.a[i] = c.r.uni(-1, 1); a.b[i] = c.r.uni(-1, 1); } if (mode == 3 && c.r.chance(0.3)) a = ref::S6(); } alfa.setColumn(k, kt(a)); A[k] = rs(alfa.getColumn(k)); beta(k) = mode == 0 || c.r.chance(0.3) ? 0 : c.r.uni(-5, 5); }
        c.cover(fmt("mode%d.nc%d", mode, nc));
        auto M = ref::massMatrix(sp, q), J = M; auto C = ref::coriolis(sp, q, qd), G = ref::gravityTorque(sp, q, g), E = ref::externalTorque(sp, q, fe); auto Jc = ref::jac(sp, q);
        auto ev = ref::symEig(M); double k = ev[0] <= 0 ? 1e300 : double(ev.back() / ev[0]); if (k > 1e6) { c.cover("ill-conditioned"); continue; }
        ref::VecR b(n); ref::R sc = W; for (auto x : qd) sc = std::max(sc, ref::R(W) * x * x); /* terms that cancel */ for (int i = 0; i < n; i++) { b[i] = ff[i] - C[i] - G[i] + E[i]; sc = std::max({sc, fabsl(C[i]), fabsl(G[i]), fabsl(E[i]), fabsl(b[i])}); }
        bool feas = mode >= 1 && c.r.chance(0.35); // ask for what some joint acceleration achieves: feasible whatever the rank
        if (feas) { if (c.r.chance(0.5)) for (int z = 1; z < nc; z++) if (c.r.chance(0.5)) { ref::R f = c.r.uni(-2, 2); A[z] = A[c.r.below(z)] * f; alfa.setColumn(z, kt(A[z])); A[z] = rs(alfa.getColumn(z)); }
            auto D = ref::jacdotNum(sp, q, qd); ref::VecR as0 = joints(c.r, n, 3); ref::S6 tw = ref::jmul(Jc, qd), acc = ref::jmul(Jc, as0) + ref::jmul(D, qd); acc.a = acc.a - ref::cross(tw.b, tw.a) - g; for (int z = 0; z < nc; z++) beta(z) = double(adot(A[z], acc)); }
        JntArray qdd(n), ct(n); for (int i = 0; i < n; i++) { qdd(i) = 3; ct(i) = 3; }
        c.ok(hd.CartToJnt(kq(q), kq(qd), qdd, alfa, beta, fx, kq(ff), ct) == 0, "status");
        ref::VecR a = rq(qdd), Ma = ref::matvec(M, a); ref::R as = sc; for (auto x : Ma) as = std::max(as, fabsl(x));
        for (int i = 0; i < n; i++) as = std::max(as, ref::R(fabs(ct(i))));
        Eigen::VectorXd nu(nc); hd.getContraintForceMagnitude(nu); ref::R nm = 1; for (int i = 0; i < nc; i++) nm = std::max(nm, ref::R(fabs(nu(i))));
        // 1. equations of motion
        ref::R dev = 0; for (int i = 0; i < n; i++) { ref::R d = fabsl(Ma[i] - b[i] - ct(i)); if (!(d <= dev)) dev = d; }
        c.okf(dev <= 1e-10L * (as + nm) * (1 + 1e-2L * k), "equations-of-motion", [&] { return fmt("residual %.3Lg of %.3Lg (condition %.3g)", dev, as, k); });
        // 2. constraint torques come from forces along the constraint directions
        dev = 0; for (int i = 0; i < n; i++) { ref::R t = 0; for (int z = 0; z < nc; z++) t += adot(A[z], Jc[i]) * nu(z); ref::R d = fabsl(t + ct(i)); if (!(d <= dev)) dev = d; }
        c.okf(dev <= 1e-10L * (nm + as) * (1 + 1e-2L * k), "constraint-forces", [&] { return fmt("deviation %.3Lg, nu %.3Lg", dev, nm); });
        // 3. feasible constraints are met:  alfa' * X_dotdot = beta
        ref::MatR L(nc, ref::VecR(nc, 0)), MiJ(nc); for (int z = 0; z < nc; z++) { ref::VecR col(n); for (int i = 0; i < n; i++) col[i] = adot(A[z], Jc[i]); ref::solve(M, col, MiJ[z]); }
        for (int y = 0; y < nc; y++) for (int z = 0; z < nc; z++) for (int i = 0; i < n; i++) L[y][z] += adot(A[y], Jc[i]) * MiJ[z][i];
        auto le = ref::symEig(L); ref::R lmin = 1e300L; int rank = 0; for (auto x : le) { if (x > 1e-9L * le.back() && x * W > 1e-7L) { rank++; lmin = std::min(lmin, x); } }
        bool redundant = false; if (feas) { redundant = true; for (auto x : le) if (x > 1e-17L * le.back() && x < 1e-4L * le.back()) redundant = false; if (rank == nc || le.back() * W < 1e-4L || k > 1e3) redundant = false; }
        bool gap = true; for (auto x : le) if (x * W > 1e-15L && !(x * W > 1e-5L && x > 1e-4L * le.back())) gap = false;
        if (redundant) {   // constraints that follow from one another and agree
            auto D = ref::jacdotNum(sp, q, qd); ref::S6 tw = ref::jmul(Jc, qd), acc = ref::jmul(Jc, a) + ref::jmul(D, qd); acc.a = acc.a - ref::cross(tw.b, tw.a) - g;
            ref::R res = 0, am = 1; for (int i = 0; i < 6; i++) am = std::max(am, fabsl(acc[i])); for (int z = 0; z < nc; z++) { ref::R d = fabsl(adot(A[z], acc) - beta(z)); if (!(d <= res)) res = d; }
            c.okf(res <= 1e-6L * (am + as / W), "redundant-met", [&] { return fmt("residual %.3Lg (acceleration %.3Lg)", res, am); }); c.cover("redundant constraints");
        }
        if (gap && rank == nc) {
            auto D = ref::jacdotNum(sp, q, qd); ref::S6 tw = ref::jmul(Jc, qd), acc = ref::jmul(Jc, a) + ref::jmul(D, qd); acc.a = acc.a - ref::cross(tw.b, tw.a) - g;
            ref::R res = 0, am = 1; for (int i = 0; i < 6; i++) am = std::max(am, fabsl(acc[i])); for (int z = 0; z < nc; z++) { ref::R d = fabsl(adot(A[z], acc) - beta(z)); if (!(d <= res)) res = d; }
            c.okf(res <= 1e-7L * (am + as / W), "constraint-met", [&] { return fmt("residual %.3Lg (acceleration %.3Lg)", res, am); }); c.cover(fmt("feasible.nc%d", nc));
            // the reported segment accelerations
            std::vector<Twist> xd(n + 1); hd.getTransformedLinkAcceleration(xd);
            eq(c, rs(xd[0]), ref::S6(-g, ref::V3()), 0, "acceleration.root");
            for (int i = 1; i <= n; i++) { auto Ji = ref::jac(sp, q, i); auto Di = ref::jacdotNum(sp, q, qd, i); ref::S6 ti = ref::jmul(Ji, qd), ai = ref::jmul(Ji, a) + ref::jmul(Di, qd); ai.a = ai.a - ref::cross(ti.b, ti.a) - g; eq(c, rs(xd[i]), ai, double(1e-8L * (1 + as / W + am) * (1 + 1e-3L * k)), "acceleration.segment"); }
        }
        // 4. no constraint: plain forward dynamics
        if (mode == 0) { ref::VecR e; ref::solve(M, b, e); ref::R es = 1; dev = 0; for (int i = 0; i < n; i++) { es = std::max(es, fabsl(e[i])); ref::R d = fabsl(e[i] - a[i]); if (!(d <= dev)) dev = d; } c.okf(dev <= 1e-10L * (es + as / W) * (1 + 1e-2L * k), "unconstrained", [&] { return fmt("deviation %.3Lg", dev); }); for (int i = 0; i < n; i++) c.near(ct(i), 0, 0, "unconstrained.torque"); }
        // a constraint that is switched off does nothing: same answer without it
        if (mode == 3 && gap) { std::vector<int> on; for (int z = 0; z < nc; z++) if (adot(A[z], A[z]) > 0) on.push_back(z);
            if (!on.empty() && int(on.size()) < nc) { Jacobian a2(on.size()); JntArray b2(on.size()), q2(n), c2(n); for (size_t z = 0; z < on.size(); z++) { a2.setColumn(z, alfa.getColumn(on[z])); b2(z) = beta(on[z]); } ChainHdSolver_Vereshchagin h2(ch, ra, on.size()); c.ok(h2.CartToJnt(kq(q), kq(qd), q2, a2, b2, fx, kq(ff), c2) == 0, "status"); ref::R dd = 0; for (int i = 0; i < n; i++) { ref::R d = fabs(c2(i) - ct(i)); if (!(d <= dd)) dd = d; } c.okf(dd <= 1e-7L * as, "deactivated", [&] { return fmt("deviation %.3Lg", dd); }); } }
        JntArray tt(n); hd.getTotalTorque(tt); // total torque of a joint = its acceleration times the inertia felt with the joints below it locked and those above it free
        for (int i = 0; i < n; i++) { ref::MatR Ms(n - i, ref::VecR(n - i)); ref::VecR e1(n - i, 0), x; e1[0] = 1; for (int y = i; y < n; y++) for (int z = i; z < n; z++) Ms[y - i][z - i] = M[y][z]; if (ref::solve(Ms, e1, x)) { ref::R ex = a[i] / x[0]; c.near(tt(i), double(ex), double(1e-9L * (as + fabsl(ex)) * (1 + 1e-2L * k)), "total-torque"); } }
        JntArray bad(n + 1), bb(nc + 1); Jacobian ab(nc + 1); Wrenches fb(n + 1); auto Q = kq(q), V = kq(qd), F = kq(ff);
        c.ok(hd.CartToJnt(bad, V, qdd, alfa, beta, fx, F, ct) == SolverI::E_SIZE_MISMATCH && hd.CartToJnt(Q, bad, qdd, alfa, beta, fx, F, ct) == SolverI::E_SIZE_MISMATCH && hd.CartToJnt(Q, V, bad, alfa, beta, fx, F, ct) == SolverI::E_SIZE_MISMATCH && hd.CartToJnt(Q, V, qdd, ab, beta, fx, F, ct) == SolverI::E_SIZE_MISMATCH && hd.CartToJnt(Q, V, qdd, alfa, bb, fx, F, ct) == SolverI::E_SIZE_MISMATCH && hd.CartToJnt(Q, V, qdd, alfa, beta, fb, F, ct) == SolverI::E_SIZE_MISMATCH && hd.CartToJnt(Q, V, qdd, alfa, beta, fx, bad, ct) == SolverI::E_SIZE_MISMATCH && hd.CartToJnt(Q, V, qdd, alfa, beta, fx, F, bad) == SolverI::E_SIZE_MISMATCH, "reject");
    }
}
// chains with fixed joints are documented as unsupported: refused, not misread
static void unsupported(Case& c) {
    ChainOpt o; o.pFixed = 0.5; o.physical = true; ref::ChainSpec sp = chain(c.r, o); Chain ch = kchain(sp); int n = ref::nj(sp), ns = int(sp.size()); c.desc = describe(sp);
    if (n == ns) { c.trivial = true; c.ok(true, "all-moving"); return; }
    ChainHdSolver_Vereshchagin hd(ch, Twist(Vector(0, 0, 9.81), Vector::Zero()), 1); JntArray q = kq(joints(c.r, n)), v = kq(joints(c.r, n)), a(n), ff(n), ct(n), be(1); Jacobian al(1); al(0, 0) = 1;
    int e = hd.CartToJnt(q, v, a, al, be, Wrenches(ns), ff, ct);
    bool fin = true; for (int i = 0; i < n; i++) fin = fin && std::isfinite(a(i)) && std::isfinite(ct(i));
    c.ok(e < 0 || fin, "refused");
}
int main(int argc, char** argv) {
    Harness H("C16", argc, argv);
    H.rule("hybrid", 1500, hybrid);
    H.rule("unsupported", 400, unsupported);
    return H.finish();
}
