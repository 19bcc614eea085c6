// C17: velocity inverse kinematics of chains returns the (weighted, damped,
// null-space optimised) generalised-inverse solution and reports singularities.
#include "gen.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
#include "chainiksolvervel_wdls.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
typedef std::vector<ref::S6> Jac;
static ref::ChainSpec armspec(Case& c) {
    ChainOpt o; o.inertia = false; o.minSeg = 1; o.maxSeg = 9; ref::ChainSpec sp; int kind = c.r.below(7); const char* nm = "general";
    do { sp = chain(c.r, o); } while (ref::nj(sp) == 0);
    if (kind == 0) { nm = "planar"; for (auto& s : sp) { if (!s.j.fixed()) s.j.type = ref::RotZ; s.ftip = ref::T4(ref::rotz(c.r.uni(-3, 3)), ref::V3(c.r.uni(0.1, 1), c.r.chance(0.5) ? 0 : c.r.uni(-1, 1), 0)); } }
    else if (kind == 1) { nm = "gantry"; for (auto& s : sp) { static const ref::JT t[] = {ref::TransX, ref::TransY, ref::TransZ}; if (!s.j.fixed()) s.j.type = t[c.r.below(3)]; s.ftip = ref::T4(ref::M3::I(), s.ftip.p); } }
    else if (kind == 2) { nm = "dead joint"; for (auto& s : sp) if (c.r.chance(0.3)) s.j.scale = 0; }
    else if (kind == 3) { nm = "collinear"; for (auto& s : sp) { if (s.j.rotational()) { s.j.type = c.r.chance(0.5) ? ref::RotX : ref::RotZ; } s.ftip = ref::T4(ref::M3::I(), ref::V3(c.r.uni(0.1, 1), 0, 0)); } }
    // inputs as the library will read them
    for (auto& s : sp) s.ftip = rt(kf(s.ftip));
    c.cover(nm); c.cover(fmt("joints%d", ref::nj(sp))); c.desc = std::string(nm) + " " + describe(sp); return sp;
}
static ref::VecR jq(Case& c, int n, bool& zero) { ref::VecR q = joints(c.r, n); zero = c.r.chance(0.15); for (auto& x : q) x = zero ? 0 : double(x); return q; }
struct Spectrum { ref::VecR s2; ref::MatR V; ref::R smax; };   // of B'B
static Spectrum spectrum(const ref::MatR& B) { int n = B[0].size(); ref::MatR G(n, ref::VecR(n, 0)); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (auto& row : B) G[a][b] += row[a] * row[b]; Spectrum s; s.s2 = ref::symEig(G, &s.V); s.smax = sqrtl(std::max(ref::R(0), s.s2.back())); return s; }
// sum over eigenvectors of f(sigma) * v v' B' y
template <class F> static ref::VecR apply(const Spectrum& sp, const ref::MatR& B, const ref::VecR& y, F f) {
    int n = sp.s2.size(); ref::VecR g(n, 0), out(n, 0); for (int i = 0; i < n; i++) for (size_t k = 0; k < B.size(); k++) g[i] += B[k][i] * y[k];
    for (int e = 0; e < n; e++) { ref::R d = 0; for (int i = 0; i < n; i++) d += sp.V[i][e] * g[i]; d *= f(sqrtl(std::max(ref::R(0), sp.s2[e]))); for (int i = 0; i < n; i++) out[i] += sp.V[i][e] * d; }
    return out;
}
static ref::MatR mat(const Jac& J) { ref::MatR B(6, ref::VecR(J.size())); for (int r = 0; r < 6; r++) for (size_t i = 0; i < J.size(); i++) B[r][i] = J[i][r]; return B; }
static ref::R cmp(const ref::VecR& a, const JntArray& b) { ref::R d = a.size() == b.rows() ? 0 : INFINITY; for (size_t i = 0; i < a.size() && i < b.rows(); i++) { ref::R x = fabsl(a[i] - b(i)); if (!(x <= d)) d = x; } return d; }
static ref::R nrm(const ref::VecR& a) { ref::R s = 0; for (auto x : a) s += x * x; return sqrtl(s); }
// singular values well away from the truncation threshold and zero ones really zero
static bool gap(const Spectrum& s, double eps, ref::R& smin, int& rank) { smin = 1e30L; rank = 0; for (auto x : s.s2) { ref::R v = sqrtl(std::max(ref::R(0), x)); if (v > 3 * eps && v > 1e-3L) { rank++; smin = std::min(smin, v); } else if (v > eps * 0.1L || v > 1e-7L) return false; } return true; }
static ref::VecR v6(const Twist& t) { ref::VecR y(6); for (int i = 0; i < 6; i++) y[i] = t(i); return y; }
static Twist demand(Case& c, const Jac& J, int n) { double k = c.r.chance(0.25) ? c.r.logu(1e-8, 1e4) : 1; if (k < 1e-4) c.cover("creep"); if (c.r.chance(0.4)) return kt(ref::jmul(J, joints(c.r, n, 2))) * k; Twist t = kt(screw(c.r, 2)) * k; int u = c.r.below(12); if (u == 0) t.rot = Vector::Zero(); else if (u == 1) t.vel = Vector::Zero(); else if (u == 2) { int i = c.r.below(6); double x = t(i); t = Twist::Zero(); t(i) = x; } return t; }
static void pinv(Case& c) {
    ref::ChainSpec sp = armspec(c); Chain ch = kchain(sp); double eps = c.r.chance(0.7) ? 0.00001 : c.r.logu(1e-5, 0.3);
    ChainIkSolverVel_pinv ik(ch, eps), limited(ch, eps, c.r.range(1, 2)); ChainIkSolverVel_pinv_givens gv(ch);
    for (int rep = 0; rep < 4; rep++) {
        if (rep == 2 && c.r.chance(0.5)) {   // the chain changes under the solvers
            ref::ChainSpec s2 = armspec(c); int old = ref::nj(sp); sp = s2; ch = kchain(sp); int n = ref::nj(sp); JntArray q(n), o(n);
            if (n != old) { c.ok(ik.CartToJnt(q, Twist::Zero(), o) == SolverI::E_NOT_UP_TO_DATE && gv.CartToJnt(q, Twist::Zero(), o) == SolverI::E_NOT_UP_TO_DATE, "stale"); c.cover(n > old ? "grow" : "shrink"); }
            ik.updateInternalDataStructures(); limited.updateInternalDataStructures(); gv.updateInternalDataStructures();
        }
        int n = ref::nj(sp); bool z; ref::VecR q = jq(c, n, z); Jac J = ref::jac(sp, q); ref::MatR B = mat(J); Spectrum s = spectrum(B); Twist v = demand(c, J, n); ref::VecR y = v6(v); ref::R vn = nrm(y), smin; int rank;
        JntArray out(n); for (int i = 0; i < n; i++) out(i) = 9; JntArray Q = kq(q), Q0 = Q;
        if (!gap(s, eps, smin, rank)) { c.cover("gap"); int e = ik.CartToJnt(Q, v, out); bool f = true; for (int i = 0; i < n; i++) f = f && std::isfinite(out(i)); c.ok(e >= 0 && f, "finite"); continue; }
        int e = ik.CartToJnt(Q, v, out); bool sing = rank < std::min(6, n); c.cover(sing ? "singular" : "regular");
        c.okf(e == (sing ? ChainIkSolverVel_pinv::E_CONVERGE_PINV_SINGULAR : 0) && ik.getError() == e, "status", [&] { return fmt("returned %d with rank %d of %d joints", e, rank, n); });
        c.okf(int(ik.getNrZeroSigmas()) == n - rank, "zero-sigmas", [&] { return fmt("%u, expected %d", ik.getNrZeroSigmas(), n - rank); }); c.ok(ik.getSVDResult() == 0, "svd-result"); c.ok(Q == Q0, "input");
        ref::R tol = 1e-12L * vn * (1 + s.smax) * (1 / smin + 1 / (smin * smin)) * (1 + s.smax / smin); if (rank == 0) tol = 1e-12L;
        auto ex = apply(s, B, y, [&](ref::R g) { return g > eps && g > 1e-4L ? 1 / (g * g) : 0; }); ref::R d = cmp(ex, out); c.okf(d <= tol, "least-squares", [&] { return fmt("deviation %.3Lg of %.3Lg, smallest singular value %.3Lg, tolerance %.3Lg", d, nrm(ex), smin, tol); });
        if (!sing && smin > 1e-3L * s.smax) {
            JntArray o2(n); for (int i = 0; i < n; i++) o2(i) = 9; e = gv.CartToJnt(Q, v, o2); c.ok(e == 0 && gv.getError() == 0, "givens.status"); d = cmp(ex, o2);
            ref::R gt = 1e-6L * (vn + 1e-9L) * (1 + s.smax) * (1 + s.smax / smin) * (1 / smin + 1 / (smin * smin)); c.okf(d <= gt, "givens.least-squares", [&] { return fmt("deviation %.3Lg of %.3Lg, smallest singular value %.3Lg, tolerance %.3Lg", d, nrm(ex), smin, gt); });
        } else { JntArray o2(n); gv.CartToJnt(Q, v, o2); }   // must return
        // an iteration limit: the right answer or a reported failure with no motion
        JntArray o3(n); for (int i = 0; i < n; i++) o3(i) = 9; e = limited.CartToJnt(Q, v, o3);
        if (e == SolverI::E_SVD_FAILED) { bool zr = true; for (int i = 0; i < n; i++) zr = zr && o3(i) == 0; c.ok(zr && limited.getSVDResult() == -2 && limited.getError() == e, "limit.refused"); c.cover("limit.refused"); }
        else { d = cmp(ex, o3); c.okf(d <= tol, "limit.converged", [&] { return fmt("deviation %.3Lg", d); }); }
        JntArray bad(n + 1), ok(n); c.ok(ik.CartToJnt(bad, v, ok) == SolverI::E_SIZE_MISMATCH && ik.CartToJnt(Q, v, bad) == SolverI::E_SIZE_MISMATCH && gv.CartToJnt(bad, v, ok) == SolverI::E_SIZE_MISMATCH && gv.CartToJnt(Q, v, bad) == SolverI::E_SIZE_MISMATCH, "reject");
        JntArrayVel jv(n); c.ok(ik.CartToJnt(Q, FrameVel(), jv) == SolverI::E_NOT_IMPLEMENTED && gv.CartToJnt(Q, FrameVel(), jv) == SolverI::E_NOT_IMPLEMENTED, "not-implemented");
    }
}
static void nso(Case& c) {
    ref::ChainSpec sp = armspec(c); Chain ch = kchain(sp); int n = ref::nj(sp); double eps = c.r.chance(0.7) ? 0.00001 : c.r.logu(1e-5, 0.3), alpha = c.r.chance(0.3) ? 0.25 : c.r.uni(0, 2);
    JntArray op = kq(joints(c.r, n)), w(n); for (int i = 0; i < n; i++) w(i) = c.r.chance(0.2) ? 0 : c.r.uni(0.1, 3);
    bool late = c.r.chance(0.4); std::unique_ptr<ChainIkSolverVel_pinv_nso> p; if (late) { p.reset(new ChainIkSolverVel_pinv_nso(ch, eps, 150)); c.ok(p->getAlpha() == 0.25, "default-alpha"); JntArray q(n), o(n); c.ok(p->CartToJnt(q, Twist(), o) == SolverI::E_SIZE_MISMATCH, "unset"); c.ok(p->setWeights(w) == 0 && p->setOptPos(op) == 0 && p->setAlpha(alpha) == 0 && p->getError() == 0, "set"); } else p.reset(new ChainIkSolverVel_pinv_nso(ch, op, w, eps, 150, alpha));
    ChainIkSolverVel_pinv_nso& ik = *p; c.cover(late ? "late" : "full");
    for (int rep = 0; rep < 4; rep++) {
        if (rep == 2 && c.r.chance(0.5)) {
            int old = n; if (c.r.chance(0.6)) { ChainOpt o; o.inertia = false; int k = c.r.range(1, 3); for (int i = 0; i < k; i++) { sp.push_back(segment(c.r, o, fmt("x%d", i))); sp.back().ftip = rt(kf(sp.back().ftip)); } ch.addSegment(ksegment(sp[sp.size() - k])); for (int i = k - 1; i > 0; i--) ch.addSegment(ksegment(sp[sp.size() - i])); } else { sp = armspec(c); ch = kchain(sp); }
            n = ref::nj(sp); JntArray q(n), o(n); if (n != old) c.ok(ik.CartToJnt(q, Twist::Zero(), o) == SolverI::E_NOT_UP_TO_DATE, "stale"); ik.updateInternalDataStructures();
            JntArray op2(n), w2(n); for (int i = 0; i < n; i++) { op2(i) = i < old ? op(i) : 0; w2(i) = i < old ? w(i) : 1; } op = op2; w = w2; c.ok(op == ik.getOptPos() && w == ik.getWeights(), "update"); c.cover(n > old ? "grow" : n < old ? "shrink" : "same");
        }
        bool z; ref::VecR q = jq(c, n, z); if (c.r.chance(0.1)) q = rq(op); else if (c.r.chance(0.15)) { double k = c.r.logu(3e-5, 0.3); q = rq(op); for (auto& x : q) x = double(x + k * c.r.uni(-1, 1)); c.cover("near the optimum"); } Jac J = ref::jac(sp, q); ref::MatR B = mat(J); Spectrum s = spectrum(B); Twist v = c.r.chance(0.3) ? Twist::Zero() : demand(c, J, n); ref::VecR y = v6(v); ref::R vn = nrm(y), smin; int rank;
        JntArray out(n), Q = kq(q), Q0 = Q; for (int i = 0; i < n; i++) out(i) = 9;
        if (!gap(s, eps, smin, rank)) { c.cover("gap"); continue; }
        int e = ik.CartToJnt(Q, v, out); c.ok(e == 0 && ik.getError() == 0 && ik.getSVDResult() == 0, "status"); c.ok(Q == Q0, "input");
        auto keep = [&](ref::R g) { return g > eps && g > 1e-4L; };
        auto ex = apply(s, B, y, [&](ref::R g) { return keep(g) ? 1 / (g * g) : 0; });
        ref::R g = 0, A = 0; ref::VecR h(n); for (int i = 0; i < n; i++) { ref::R d = q[i] - op(i); g += d * d * w(i) / 2; A += d * d * w(i) * w(i); h[i] = w(i) * d; }
        ref::R hn = nrm(h); ref::VecR nul(n, 0);
        if (A > 1e-9L) { for (int k = 0; k < n; k++) if (!keep(sqrtl(std::max(ref::R(0), s.s2[k])))) { ref::R d = 0; for (int i = 0; i < n; i++) d += s.V[i][k] * h[i]; for (int i = 0; i < n; i++) nul[i] += s.V[i][k] * d * (-2 * alpha * g / A); } c.cover(rank < n ? "redundant" : "exact"); }
        ref::R as = A > 1e-9L ? 2 * alpha * g * hn / A : 0; for (int i = 0; i < n; i++) ex[i] += nul[i];
        ref::R tol = rank ? 1e-12L * (vn * (1 / smin + 1 / (smin * smin)) + as) * (1 + s.smax) * (1 + s.smax / smin) : 1e-12L * (1 + as); if (A < 1e-8L && A > 1e-10L) continue;
        ref::R d = cmp(ex, out); c.okf(d <= tol, "solution", [&] { return fmt("deviation %.3Lg of %.3Lg, null-space part %.3Lg, tolerance %.3Lg", d, nrm(ex), nrm(nul), tol); });
        JntArray bad(n + 1), ok(n); c.ok(ik.CartToJnt(bad, v, ok) == SolverI::E_SIZE_MISMATCH && ik.CartToJnt(Q, v, bad) == SolverI::E_SIZE_MISMATCH && ik.setWeights(bad) == SolverI::E_SIZE_MISMATCH && ik.setOptPos(bad) == SolverI::E_SIZE_MISMATCH && ik.getOptPos() == op && ik.getWeights() == w, "reject");
        if (c.r.chance(0.3)) { alpha = c.r.uni(0, 2); ik.setAlpha(alpha); c.ok(ik.getAlpha() == alpha, "alpha"); } if (c.r.chance(0.3)) { for (int i = 0; i < n; i++) op(i) = c.r.uni(-2, 2); ik.setOptPos(op); }
    }
}
static Eigen::MatrixXd weight(Case& c, int n) { Eigen::MatrixXd M = Eigen::MatrixXd::Identity(n, n); switch (c.r.below(4)) { case 0: break; case 1: for (int i = 0; i < n; i++) M(i, i) = c.r.chance(0.25) ? 0 : c.r.uni(0.3, 2); break; default: { Eigen::MatrixXd R(n, n); for (int i = 0; i < R.size(); i++) R.data()[i] = c.r.uni(-1, 1); M = R * R.transpose() / n + 0.3 * Eigen::MatrixXd::Identity(n, n); M = (M + Eigen::MatrixXd(M.transpose())) / 2; } } return M; }
static void wdls(Case& c) {
    ref::ChainSpec sp = armspec(c); Chain ch = kchain(sp); int n = ref::nj(sp); double eps = c.r.chance(0.4) ? 0.00001 : c.r.logu(1e-5, 0.5), lambda = c.r.chance(0.2) ? 0 : c.r.uni(0.01, 1);
    ChainIkSolverVel_wdls ik(ch, c.r.chance(0.5) ? eps : 0.1); ik.setEps(eps); ik.setLambda(lambda); ik.setMaxIter(150); c.ok(ik.getEps() == eps && ik.getLambda() == lambda, "parameters");
    Eigen::MatrixXd Mq = Eigen::MatrixXd::Identity(n, n), Mx = Eigen::MatrixXd::Identity(6, 6); if (c.r.chance(0.6)) { Mq = weight(c, n); c.ok(ik.setWeightJS(Mq) == 0, "set"); } if (c.r.chance(0.6)) { Mx = weight(c, 6); c.ok(ik.setWeightTS(Mx) == 0, "set"); }
    for (int rep = 0; rep < 4; rep++) {
        if (rep == 2 && c.r.chance(0.5)) {
            int old = n; sp = armspec(c); ch = kchain(sp); n = ref::nj(sp); JntArray q(n), o(n); if (n != old) c.ok(ik.CartToJnt(q, Twist::Zero(), o) == SolverI::E_NOT_UP_TO_DATE && ik.setWeightJS(Mq) == SolverI::E_NOT_UP_TO_DATE, "stale"); ik.updateInternalDataStructures();
            Eigen::MatrixXd M2 = Eigen::MatrixXd::Identity(n, n); int k = std::min(n, old); M2.topLeftCorner(k, k) = Mq.topLeftCorner(k, k); Mq = M2; c.cover(n > old ? "grow" : n < old ? "shrink" : "same");
        }
        bool z; ref::VecR q = jq(c, n, z); Jac J = ref::jac(sp, q); ref::MatR J0 = mat(J), B(6, ref::VecR(n, 0)), T(6, ref::VecR(n, 0)); for (int r = 0; r < 6; r++) for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) T[r][i] += J0[r][k] * Mq(k, i); for (int r = 0; r < 6; r++) for (int i = 0; i < n; i++) for (int k = 0; k < 6; k++) B[r][i] += Mx(r, k) * T[k][i];
        Spectrum s = spectrum(B); ref::VecR sv; for (auto x : s.s2) sv.push_back(sqrtl(std::max(ref::R(0), x))); std::sort(sv.rbegin(), sv.rend());
        Twist v = demand(c, J, n); ref::VecR y0 = v6(v), y(6, 0); for (int r = 0; r < 6; r++) for (int k = 0; k < 6; k++) y[r] += Mx(r, k) * y0[k];
        ref::R smin = n >= 6 ? sv[5] : 0, ls = smin < eps ? sqrtl(1 - (smin / eps) * (smin / eps)) * lambda : 0; JntArray out(n), Q = kq(q), Q0 = Q; for (int i = 0; i < n; i++) out(i) = 9;
        bool clean = true, wild = false; int zeros = 0; ref::R kept = 1e30L; for (int i = 0; i < n; i++) { if (sv[i] > eps * 0.99L && sv[i] < eps * 1.01L) clean = false; if (sv[i] > 1e-9L && sv[i] < 1e-3L) clean = false; if (sv[i] < eps) { zeros++; if (i < 6 && ls < 0.005L) { if (sv[i] < 1e-3L) wild = true; else kept = std::min(kept, sv[i]); } else if (i < 6 && sv[i] > 1e-3L) kept = std::min(kept, std::max(sv[i], ls)); } else kept = std::min(kept, sv[i]); }
        int e = ik.CartToJnt(Q, v, out); c.ok(Q == Q0, "input");
        bool nan = false; for (int i = 0; i < n; i++) nan = nan || std::isnan(out(i)); c.ok(!nan, "nan"); if (!clean) { c.cover("gap"); continue; }
        bool sing = zeros > std::max(0, n - 6); c.cover(sing ? "singular" : "regular");
        c.okf(e == (sing ? ChainIkSolverVel_wdls::E_CONVERGE_PINV_SINGULAR : 0) && ik.getError() == e, "status", [&] { return fmt("returned %d with %d small singular values of %d joints", e, zeros, n); });
        c.okf(int(ik.getNrZeroSigmas()) == zeros, "zero-sigmas", [&] { return fmt("%u, expected %d", ik.getNrZeroSigmas(), zeros); }); c.near(ik.getSigmaMin(), double(smin), 1e-8 * double(1 + s.smax), "sigma-min"); Eigen::VectorXd so(n), sb(n + 1); c.ok(ik.getSigma(so) == 0 && ik.getSigma(sb) == SolverI::E_SIZE_MISMATCH, "sigma.status"); for (int i = 0; i < n; i++) c.near(so(i), double(i < 6 ? sv[i] : 0), 1e-8 * double(1 + s.smax), "sigma");
        if (smin > eps * 0.99L || smin < eps * 0.9L) c.near(ik.getLambdaScaled(), double(ls), 1e-8, "lambda-scaled");
        if (wild) { c.cover("undamped singular"); continue; }
        auto x = apply(s, B, y, [&](ref::R g) -> ref::R { if (g < 1e-8L) return 0; return g < eps ? 1 / (g * g + ls * ls) : 1 / (g * g); }); ref::VecR ex(n, 0); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) ex[i] += Mq(i, k) * x[k];
        ref::R yn = nrm(y) * 5, tol = kept > 1e29L ? 1e-11L * (1 + yn) : 1e-11L * yn * (1 + s.smax) * (1 / kept + 1 / (kept * kept)) * (1 + s.smax / kept), d = cmp(ex, out); if (ls > 0) tol += 1e-10L * yn / (ls * ls);
        c.okf(d <= tol, "solution", [&] { return fmt("deviation %.3Lg of %.3Lg, lambda %.3Lg, kept %.3Lg, tolerance %.3Lg", d, nrm(ex), ls, kept, tol); }); c.cover(ls > 0 ? "damped" : "undamped");
        JntArray bad(n + 1), ok(n); Eigen::MatrixXd w1 = Eigen::MatrixXd::Zero(1, n * n), w2 = Eigen::MatrixXd::Zero(4, 9), w3 = Eigen::MatrixXd::Zero(n + 1, n + 1), w4 = Eigen::MatrixXd::Zero(5, 5);
        c.ok(ik.CartToJnt(bad, v, ok) == SolverI::E_SIZE_MISMATCH && ik.CartToJnt(Q, v, bad) == SolverI::E_SIZE_MISMATCH && ik.setWeightJS(w3) == SolverI::E_SIZE_MISMATCH && ik.setWeightTS(w4) == SolverI::E_SIZE_MISMATCH && (n == 1 || ik.setWeightJS(w1) == SolverI::E_SIZE_MISMATCH) && ik.setWeightTS(w2) == SolverI::E_SIZE_MISMATCH, "reject");
        if (c.r.chance(0.3)) { lambda = c.r.uni(0, 1); ik.setLambda(lambda); } if (c.r.chance(0.3)) { Mx = weight(c, 6); ik.setWeightTS(Mx); }
    }
    ik.setMaxIter(1); JntArray out(n), Q = kq(joints(c.r, n)); for (int i = 0; i < n; i++) out(i) = 9; int e = ik.CartToJnt(Q, Twist(Vector(1, 1, 1), Vector(1, 1, 1)), out);
    if (e == SolverI::E_SVD_FAILED) { bool zr = true; for (int i = 0; i < n; i++) zr = zr && out(i) == 0; c.ok(zr && ik.getSVDResult() == -2, "limit.refused"); c.cover("limit.refused"); }
}
int main(int argc, char** argv) {
    Harness H("C17", argc, argv);
    H.rule("pinv", 3000, [](Case& c) { c.isolated("run", pinv, 20); }); H.rule("nullspace", 3000, nso); H.rule("weighted", 3000, wdls);
    return H.finish();
}
