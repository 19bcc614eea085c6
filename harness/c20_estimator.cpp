// C20: the external wrench estimator is a first-order momentum observer: no external
// load gives no estimate, a constant load is approached at the rate set by gain and
// filter, and the reported wrench is the one that explains the estimated torques.
#include "gen.hpp"
#include "chainexternalwrenchestimator.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
struct Arm { ref::ChainSpec sp; Chain ch; int n; };
static void arm(Case& c, Arm& a) {
    ChainOpt o; o.minSeg = 1; o.maxSeg = c.r.chance(0.7) ? 4 : 8; o.rotorInertia = c.r.chance(0.4); if (c.r.chance(0.3)) o.pFixed = 0.4; do a.sp = chain(c.r, o); while (ref::nj(a.sp) == 0); for (auto& s : a.sp) s.ftip = rt(kf(s.ftip)); a.ch = kchain(a.sp); a.n = ref::nj(a.sp); c.desc = describe(a.sp);
}
struct Observer {   // reference: discrete momentum observer with first-order filter
    ref::R dt, K, fc; ref::VecR p0, I, f; ref::MatR Mp; void init(int n) { p0.assign(n, 0); I = f = p0; Mp.assign(n, p0); }
    void start(const Arm& a, const ref::VecR& q, const ref::VecR& qd) { Mp = ref::massMatrix(a.sp, q); p0 = ref::matvec(Mp, qd); I.assign(a.n, 0); f = I; }
    void step(const Arm& a, const ref::VecR& q, const ref::VecR& qd, const ref::VecR& tau, const ref::V3& g) {
        auto M = ref::massMatrix(a.sp, q); auto C = ref::coriolis(a.sp, q, qd), G = ref::gravityTorque(a.sp, q, g), p = ref::matvec(M, qd); int n = a.n;
        for (int i = 0; i < n; i++) { ref::R md = 0; for (int k = 0; k < n; k++) md += (M[i][k] - Mp[i][k]) / dt * qd[k]; I[i] += (tau[i] - G[i] - C[i] + md + f[i]) * dt; } Mp = M;
        for (int i = 0; i < n; i++) f[i] = fc * f[i] + (1 - fc) * K * (p[i] - I[i] - p0[i]);
    }
};
static ref::R maxabs(const ref::VecR& v) { ref::R m = 0; for (auto x : v) m = std::max(m, fabsl(x)); return m; }
static void cmp(Case& c, const JntArray& got, const ref::VecR& e, ref::R tol, const char* key) { ref::R d = 0; for (size_t i = 0; i < e.size(); i++) { ref::R x = fabsl(got(i) - e[i]); if (!(x <= d)) d = x; } c.okf(d <= tol, key, [&] { return fmt("deviation %.3Lg (tol %.3Lg): got ", d, tol) + s(got) + " expected " + s(e); }); }
// the wrench (tip orientation and point) that explains torques f best, smallest of those
static void wrench(Case& c, const Arm& a, const ref::VecR& q, const ref::VecR& f, const Wrench& w, double eps) {
    auto J = ref::jac(a.sp, q); ref::T4 X = ref::fk(a.sp, q); ref::M3 Rt = ref::T(X.M); ref::MatR G(6, ref::VecR(6, 0)), V; ref::MatR B(a.n, ref::VecR(6));
    for (int i = 0; i < a.n; i++) { ref::V3 x = Rt * J[i].a, y = Rt * J[i].b; for (int k = 0; k < 3; k++) { B[i][k] = x[k]; B[i][3 + k] = y[k]; } }
    for (int r = 0; r < 6; r++) for (int k = 0; k < 6; k++) for (int i = 0; i < a.n; i++) G[r][k] += B[i][r] * B[i][k];
    auto ev = ref::symEig(G, &V); ref::R smax = sqrtl(std::max(ref::R(0), ev[5])), kept = 1e30L; for (int k = 0; k < 6; k++) { ref::R s = sqrtl(std::max(ref::R(0), ev[k])); if ((s > 1e-9L && s < eps * 0.5L && s > 1e-7L) || (s >= eps * 0.5L && s <= eps * 2) || (s > 1e-9L && s < 1e-3L && eps < 1e-3)) { c.cover("gap"); return; } if (s > eps) kept = std::min(kept, s); }
    ref::VecR e(6, 0); int rank = 0; for (int k = 0; k < 6; k++) { ref::R s2 = ev[k]; if (!(sqrtl(std::max(ref::R(0), s2)) > eps)) continue; rank++; ref::R d = 0; for (int i = 0; i < a.n; i++) for (int r = 0; r < 6; r++) d += f[i] * B[i][r] * V[r][k]; d /= s2; for (int r = 0; r < 6; r++) e[r] += V[r][k] * d; }
    ref::R tol = kept > 1e29L ? 1e-9L : 1e-11L * (1 + maxabs(f) * 10) * (1 + smax / kept) * (1 + 1 / kept) * (1 + smax) * 10, d = 0; for (int r = 0; r < 6; r++) d = std::max(d, fabsl(w(r) - e[r])); c.cover(fmt("rank%d", rank));
    c.okf(d <= tol, "wrench", [&] { return fmt("deviation %.3Lg of %.3Lg, kept %.3Lg, tolerance %.3Lg, eps %g", d, maxabs(e), kept, tol, eps); });
}
static void observe(Case& c) {
    Arm a; arm(c, a); double freq = c.r.logu(50, 2000), K = c.r.uni(0.05, 0.9) * freq, fc = c.r.chance(0.4) ? 0 : c.r.uni(0.05, 0.9), eps = c.r.chance(0.6) ? 1e-5 : c.r.logu(1e-5, 0.3); if (c.r.chance(0.3)) K = 30;
    ref::V3 g = c.r.chance(0.3) ? ref::V3(0, 0, -9.81) : rv(kv(vec(c.r, 10))); bool late = c.r.chance(0.5); ChainExternalWrenchEstimator est(a.ch, kv(g), freq, K, fc, late ? 0.00001 : eps); if (late) est.setSVDEps(eps); if (c.r.chance(0.3)) est.setSVDMaxIter(500);
    Observer ob; ob.dt = ref::R(1.0 / freq); ob.K = K; ob.fc = fc; ob.init(a.n);
    for (int rep = 0; rep < 2; rep++) {
        if (rep == 1) {
            if (c.r.chance(0.5)) { int old = a.n; size_t os = a.sp.size(); do arm(c, a); while (a.n == old && a.sp.size() == os); JntArray z(a.n), zo(old); Wrench w; c.ok(est.JntToExtWrench(zo, zo, zo, w) == SolverI::E_NOT_UP_TO_DATE && est.getError() == SolverI::E_NOT_UP_TO_DATE, "stale"); c.ok(est.setInitialMomentum(zo, zo) < 0 && est.getError() < 0, "stale.momentum"); est.updateInternalDataStructures(); c.cover(a.n > old ? "grow" : a.n < old ? "shrink" : "same"); }
        }
        int n = a.n; ref::VecR amp = joints(c.r, n, 1), ph = joints(c.r, n, 3), om(n); for (auto& x : om) x = c.r.uni(0.2, 3); bool still = c.r.chance(0.3), load = c.r.chance(0.7); double t = 0; std::vector<ref::S6> fe(a.sp.size()); if (load) fe.back() = rs(kw(screw(c.r, 5))); c.cover(still ? "still" : "moving"); c.cover(load ? "load" : "no load");
        auto state = [&](ref::VecR& q, ref::VecR& qd, ref::VecR& qdd) { q.assign(n, 0); qd = qdd = q; for (int i = 0; i < n; i++) { double w = still ? 0 : double(om[i]); q[i] = double(ph[i] + amp[i] * sinl(w * t)); qd[i] = double(amp[i] * w * cosl(w * t)); qdd[i] = -amp[i] * w * w * sinl(w * t); } };
        ref::VecR q, qd, qdd; state(q, qd, qdd);
        if (rep || c.r.chance(0.6)) { c.ok(est.setInitialMomentum(kq(q), kq(qd)) == 0 && est.getError() == 0, "momentum.status"); ob.start(a, q, qd); c.cover("momentum set"); JntArray f(n); est.getEstimatedJntTorque(f); cmp(c, f, ref::VecR(n, 0), 0, "momentum.reset"); }
        int steps = c.r.range(2, 7); ref::R sc = 1; ref::VecR first(n, 0), ext;
        for (int k = 0; k < steps; k++) {
            if (k && c.r.chance(0.9)) t += 1.0 / freq; state(q, qd, qdd); ext = ref::externalTorque(a.sp, q, fe); ref::VecR tau = ref::invDyn(a.sp, q, qd, qdd, g, fe); for (auto& x : tau) x = double(x);
            ref::VecR pm = ref::matvec(ref::massMatrix(a.sp, q), qd); sc = std::max({sc, maxabs(tau), maxabs(pm) * K, maxabs(ref::gravityTorque(a.sp, q, g)), maxabs(ref::coriolis(a.sp, q, qd)), maxabs(ref::matvec(ob.Mp, qd)) * K});
            JntArray Q = kq(q), D = kq(qd), T = kq(tau), Q0 = Q, D0 = D, T0 = T; Wrench w(Vector(9, 9, 9), Vector(9, 9, 9)); int e = est.JntToExtWrench(Q, D, T, w); c.ok(e == 0 && est.getError() == 0, "status", fmt("%d", e)); c.ok(Q == Q0 && D == D0 && T == T0, "input");
            ob.step(a, q, qd, tau, g); JntArray f(n); for (int i = 0; i < n; i++) f(i) = 7; est.getEstimatedJntTorque(f); cmp(c, f, ob.f, 1e-9L * sc * (1 + k), "estimate"); wrench(c, a, q, rq(f), w, eps);
            if (still && !load && (rep || k == 0)) c.near(double(maxabs(rq(f))), double(maxabs(ob.f)), double(1e-9L * sc * (1 + k)), "no-load");
            JntArray bad(n + 1); if (c.r.chance(0.3)) c.ok(est.JntToExtWrench(bad, D, T, w) == SolverI::E_SIZE_MISMATCH && est.JntToExtWrench(Q, bad, T, w) == SolverI::E_SIZE_MISMATCH && est.JntToExtWrench(Q, D, bad, w) == SolverI::E_SIZE_MISMATCH && est.setInitialMomentum(bad, D) == SolverI::E_SIZE_MISMATCH && est.setInitialMomentum(Q, bad) == SolverI::E_SIZE_MISMATCH && est.getError() == SolverI::E_SIZE_MISMATCH, "reject");   // and does not advance the observer
        }
    }
}
// end to end: the estimate approaches the true load and stays away from it no longer than the gain allows
static void converge(Case& c) {
    Arm a; arm(c, a); int n = a.n; double freq = c.r.logu(500, 4000), K = c.r.uni(0.1, 0.4) * freq, fc = c.r.chance(0.5) ? 0 : c.r.uni(0.05, 0.5); ref::V3 g = rv(kv(vec(c.r, 10))); ChainExternalWrenchEstimator est(a.ch, kv(g), freq, K, fc);
    ref::VecR q = joints(c.r, n, 2); for (auto& x : q) x = double(x); std::vector<ref::S6> fe(a.sp.size()); fe.back() = rs(kw(screw(c.r, 5))); ref::VecR z(n, 0), G = ref::gravityTorque(a.sp, q, g), X = ref::externalTorque(a.sp, q, fe); JntArray Q = kq(q), D(n), T(n), f(n); Wrench w;
    // balanced without load, then the load appears and finally disappears
    if (c.r.chance(0.7)) est.setInitialMomentum(Q, D);
    for (int i = 0; i < n; i++) T(i) = double(G[i]); for (int k = 0; k < 5; k++) est.JntToExtWrench(Q, D, T, w); est.getEstimatedJntTorque(f); ref::R sc = 1 + maxabs(G) + maxabs(X); cmp(c, f, z, 1e-9L * sc, "unloaded"); for (int i = 0; i < 6; i++) c.near(w(i), 0, 1e-4 * double(sc), "unloaded.wrench");
    for (int i = 0; i < n; i++) T(i) = double(G[i] - X[i]); for (int k = 0; k < 400; k++) est.JntToExtWrench(Q, D, T, w); est.getEstimatedJntTorque(f); cmp(c, f, X, 1e-8L * sc, "loaded"); wrench(c, a, q, X, w, 1e-5);
    for (int i = 0; i < n; i++) T(i) = double(G[i]); for (int k = 0; k < 400; k++) est.JntToExtWrench(Q, D, T, w); est.getEstimatedJntTorque(f); cmp(c, f, z, 1e-8L * sc, "released");
    // a free moving robot must not be taken for a loaded one right after the momentum was set
    if (c.r.chance(0.7)) { q = joints(c.r, n, 2); for (auto& x : q) x = double(x); Q = kq(q); } ref::VecR qd = joints(c.r, n, 1); for (auto& x : qd) x = double(x); est.setInitialMomentum(Q, kq(qd)); ref::VecR tau = ref::invDyn(a.sp, q, qd, z, g, std::vector<ref::S6>()); est.JntToExtWrench(Q, kq(qd), kq(tau), w); est.getEstimatedJntTorque(f); auto C = ref::coriolis(a.sp, q, qd); cmp(c, f, z, K / freq * 3 * maxabs(C) + 1e-8L * (sc + maxabs(tau) + K * maxabs(ref::matvec(ref::massMatrix(a.sp, q), qd))), "moving-start");
}
int main(int argc, char** argv) {
    Harness H("C20", argc, argv);
    H.rule("observer", 600, observe); H.rule("converge", 600, converge);
    return H.finish();
}
