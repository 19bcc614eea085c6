// C15: forward dynamics is the inverse of inverse dynamics, and the integrator
// advances the same equations of motion with fourth order accuracy.
#include "gen.hpp"
#include "chainfdsolver_recursive_newton_euler.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chainhdsolver_vereshchagin.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static ChainOpt opt(Case& c, bool fixed = true) {
    ChainOpt o; o.maxSeg = 6; o.rotorInertia = c.r.chance(0.5); o.physical = true; if (!fixed) o.pFixed = 0; if (c.r.chance(0.2)) o.pTrans = 0.8;
    return o;
}
struct Inputs { ref::VecR q, qd, tau; std::vector<ref::S6> fe; Wrenches fx; };
static Inputs inputs(Case& c, int n, int ns) {
    Inputs i; i.q = joints(c.r, n); i.qd = joints(c.r, n, c.r.chance(0.1) ? 15 : 2); i.tau = joints(c.r, n, 10); for (auto* v : {&i.q, &i.qd, &i.tau}) for (auto& x : *v) x = double(x);
    i.fe.resize(ns); i.fx.resize(ns); if (c.r.chance(0.6)) for (int k = 0; k < ns; k++) { i.fx[k] = kw(screw(c.r, 5)); i.fe[k] = rs(i.fx[k]); }
    return i;
}
static double cond(const ref::MatR& M) { auto e = ref::symEig(M); return e.empty() ? 1 : e[0] <= 0 ? 1e300 : double(e.back() / e[0]); }
static void forward(Case& c) {
    ref::ChainSpec sp = chain(c.r, opt(c)); Chain ch = kchain(sp); int n = ref::nj(sp), ns = int(sp.size()); c.desc = describe(sp);
    if (n == 0) { c.trivial = true; ChainFdSolver_RNE fd(ch, kv(ref::V3(0, 0, -9.8))); JntArray e; c.ok(fd.CartToJnt(e, e, e, Wrenches(ns), e) == 0, "status"); return; }
    ref::V3 g = rv(kv(vec(c.r, 10))); ChainFdSolver_RNE fd(ch, kv(g)); ChainIdSolver_RNE id(ch, kv(g));
    for (int rep = 0; rep < 2; rep++) {
        Inputs in = inputs(c, n, ns);
        auto M = ref::massMatrix(sp, in.q); double k = cond(M); if (k > 1e7) { c.cover("ill-conditioned"); continue; } c.cover(fmt("joints%d", n));
        auto C = ref::coriolis(sp, in.q, in.qd), G = ref::gravityTorque(sp, in.q, g), X = ref::externalTorque(sp, in.q, in.fe);
        JntArray a(n); for (int i = 0; i < n; i++) a(i) = c.r.uni(-99, 99);
        c.ok(fd.CartToJnt(kq(in.q), kq(in.qd), kq(in.tau), in.fx, a) == 0 && fd.getError() == 0, "status");
        ref::VecR got = rq(a), Ma = ref::matvec(M, got), b(n), e; ref::R sc = 1, dev = 0; for (int i = 0; i < n; i++) { b[i] = in.tau[i] - C[i] - G[i] + X[i]; sc = std::max({sc, fabsl(C[i]), fabsl(G[i]), fabsl(X[i]), fabsl(b[i])}); }
        ref::solve(M, b, e); ref::R as = 1; for (auto x : e) as = std::max(as, fabsl(x)); for (int i = 0; i < n; i++) { ref::R d = fabsl(got[i] - e[i]); if (!(d <= dev)) dev = d; }
        c.okf(dev <= 1e-9L * (as + sc) * (1 + 1e-3L * k), "accelerations", [&] { return fmt("deviation %.3Lg, scale %.3Lg, condition %.3g: got ", dev, as, k) + s(got) + " expected " + s(e); });
        // the library's own inverse dynamics returns the torques that went in
        JntArray t(n); c.ok(id.CartToJnt(kq(in.q), kq(in.qd), a, in.fx, t) == 0, "id.status"); dev = 0; for (int i = 0; i < n; i++) { ref::R d = fabsl(t(i) - in.tau[i]); if (!(d <= dev)) dev = d; }
        c.okf(dev <= 1e-11L * (sc + as) * n * 20, "inverse", [&] { return fmt("deviation %.3Lg: got ", dev) + s(t) + " expected " + s(in.tau); });
        JntArray bad(n + 1); Wrenches fb(ns + 1);
        c.ok(fd.CartToJnt(bad, kq(in.qd), kq(in.tau), in.fx, a) == SolverI::E_SIZE_MISMATCH && fd.CartToJnt(kq(in.q), bad, kq(in.tau), in.fx, a) == SolverI::E_SIZE_MISMATCH && fd.CartToJnt(kq(in.q), kq(in.qd), bad, in.fx, a) == SolverI::E_SIZE_MISMATCH && fd.CartToJnt(kq(in.q), kq(in.qd), kq(in.tau), fb, a) == SolverI::E_SIZE_MISMATCH && fd.CartToJnt(kq(in.q), kq(in.qd), kq(in.tau), in.fx, bad) == SolverI::E_SIZE_MISMATCH && fd.getError() == SolverI::E_SIZE_MISMATCH, "reject");
    }
}
static void integrate(Case& c) {
    ChainOpt o = opt(c); o.maxSeg = c.r.chance(0.1) ? 12 : 4; if (o.maxSeg > 4) o.pFixed = 0; ref::ChainSpec sp = chain(c.r, o); Chain ch = kchain(sp); int n = ref::nj(sp), ns = int(sp.size()); c.desc = describe(sp);
    if (n == 0) { c.trivial = true; c.ok(true, "none"); return; }
    ref::V3 g(0, 0, -9.81); g = rv(kv(g)); ChainFdSolver_RNE fd(ch, kv(g)); Inputs in = inputs(c, n, ns); double dt = c.r.uni(1e-4, 5e-3), t = 0;
    bool bad = false; auto acc = [&](const ref::VecR& q, const ref::VecR& qd) { auto M = ref::massMatrix(sp, q); if (cond(M) > 1e5) bad = true; auto C = ref::coriolis(sp, q, qd), G = ref::gravityTorque(sp, q, g), X = ref::externalTorque(sp, q, in.fe); ref::VecR b(n), e; for (int i = 0; i < n; i++) b[i] = in.tau[i] - C[i] - G[i] + X[i]; ref::solve(M, b, e); return e; };
    auto add = [&](const ref::VecR& a, const ref::VecR& b, ref::R k) { ref::VecR x(a); for (int i = 0; i < n; i++) x[i] += k * b[i]; return x; };
    JntArray q = kq(in.q), qd = kq(in.qd), tau = kq(in.tau), a(n), dq(n), dqd(n), qt(n), qdt(n); unsigned nn = n;
    ref::VecR Q = in.q, V = in.qd;
    for (int step = 0; step < 3; step++) {
        ref::VecR k1 = acc(Q, V), v2 = add(V, k1, dt / 2.0L), k2 = acc(add(Q, V, dt / 2.0L), v2), v3 = add(V, k2, dt / 2.0L), k3 = acc(add(Q, v2, dt / 2.0L), v3), v4 = add(V, k3, dt), k4 = acc(add(Q, v3, dt), v4);
        ref::VecR Qn(Q), Vn(V); for (int i = 0; i < n; i++) { Qn[i] += dt * (V[i] + 2 * v2[i] + 2 * v3[i] + v4[i]) / 6; Vn[i] += dt * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6; }
        if (bad) { c.abandoned = true; return; }
        fd.RK4Integrator(nn, t, dt, q, qd, tau, in.fx, fd, a, dq, dqd, qt, qdt);
        ref::R dev = 0, sc = 1; for (int i = 0; i < n; i++) { for (ref::R d : {fabsl(q(i) - Qn[i]), fabsl(qd(i) - Vn[i])}) if (!(d <= dev)) dev = d; sc = std::max({sc, fabsl(Qn[i]), fabsl(Vn[i]), dt * fabsl(k1[i]) * 100}); }
        c.okf(dev <= 1e-7L * sc * dt * 10 * (1 + step) + 1e-12L * sc, "step", [&] { return fmt("deviation %.3Lg after step %d of %g s", dev, step, dt); });
        for (int i = 0; i < n; i++) c.near(dq(i), double(Qn[i] - Q[i]), double(1e-6L * sc * dt * (1 + step) + 1e-12L * sc), "increment");
        Q = rq(q); V = rq(qd);
    }
}
int main(int argc, char** argv) {
    Harness H("C15", argc, argv);
    H.rule("forward", 1500, forward);
    H.rule("integrate", 500, integrate);
    return H.finish();
}
