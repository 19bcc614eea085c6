// C21: singular value decompositions and the LDL solver give exact factors, for
// every shape, rank and scale, and say so when they do not converge.
#include "gen.hpp"
#include "utilities/svd_HH.hpp"
#include "utilities/svd_eigen_HH.hpp"
#include "utilities/svd_eigen_Macie.hpp"
#include "utilities/ldl_solver_eigen.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt; using vh::Rng;
using namespace KDL;
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX;
static MX randmat(Case& c, int m, int n, bool extreme = true) {
    Rng& r = c.r; MX A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = r.uni(-1, 1);
    int kind = r.below(12); const char* nm = "dense";
    switch (kind) {
    case 0: nm = "rank-deficient"; { int k = r.range(0, std::min(m, n)); MX B(m, k), C(k, n); for (int i = 0; i < B.size(); i++) B.data()[i] = r.uni(-1, 1); for (int i = 0; i < C.size(); i++) C.data()[i] = r.uni(-1, 1); A = B * C; } break;
    case 1: nm = "zero columns"; for (int j = 0; j < n; j++) if (r.chance(0.5)) A.col(j).setZero(); break;
    case 2: nm = "zero rows"; for (int i = 0; i < m; i++) if (r.chance(0.5)) A.row(i).setZero(); break;
    case 3: nm = "equal columns"; for (int j = 1; j < n; j++) if (r.chance(0.5)) A.col(j) = A.col(0); break;
    case 4: nm = "sparse"; for (int i = 0; i < A.size(); i++) A.data()[i] = r.chance(0.6) ? 0 : r.sgn(); break;
    case 5: nm = "graded"; for (int j = 0; j < n; j++) A.col(j) *= std::pow(10.0, -r.uni(0, 12)); break;
    case 6: nm = "diagonal"; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (i != j) A(i, j) = 0; break;
    case 7: nm = "zero"; A.setZero(); break;
    default: break;
    }
    double s = 1; if (extreme && r.chance(0.4)) { s = r.logu(1e-25, 1e12); A *= s; c.cover(s < 1e-8 ? "tiny" : s > 1e4 ? "huge" : "scaled"); }
    c.cover(nm); c.desc = fmt("%dx%d %s scale %.3g", m, n, nm, s);
    return A;
}
static ref::MatR rmat(const MX& A) { ref::MatR M(A.rows(), ref::VecR(A.cols())); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) M[i][j] = A(i, j); return M; }
// singular values of the reference, descending, min(m,n) of them
static ref::VecR refsv(const MX& A0) {
    MX A = A0.rows() >= A0.cols() ? A0 : MX(A0.transpose()); int n = A.cols(); ref::MatR G(n, ref::VecR(n, 0));
    // one-sided Jacobi in long double: accurate to the last bit relative to the norm
    auto M = rmat(A); int m = A.rows();
    for (int sweep = 0; sweep < 60; sweep++) {
        bool rot = false;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            ref::R a = 0, b = 0, g = 0; for (int i = 0; i < m; i++) { a += M[i][p] * M[i][p]; b += M[i][q] * M[i][q]; g += M[i][p] * M[i][q]; }
            if (a == 0 || b == 0 || fabsl(g) <= 1e-18L * sqrtl(a) * sqrtl(b)) continue;
            rot = true; ref::R z = (b - a) / (2 * g), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), cs = 1 / sqrtl(1 + t * t), sn = cs * t;
            for (int i = 0; i < m; i++) { ref::R x = M[i][p], y = M[i][q]; M[i][p] = cs * x - sn * y; M[i][q] = sn * x + cs * y; }
        }
        if (!rot) break;
    }
    ref::VecR s(n); for (int j = 0; j < n; j++) { ref::R a = 0; for (int i = 0; i < m; i++) a += M[i][j] * M[i][j]; s[j] = sqrtl(a); }
    std::sort(s.rbegin(), s.rend()); return s;
}
static void judge(Case& c, const MX& A, const MX& U, const VX& S, const MX& V, bool sorted, const std::string& k, double tol = 1e-13) {
    int m = A.rows(), n = A.cols(); ref::R nm = 0; for (int i = 0; i < A.size(); i++) nm = std::max(nm, ref::R(fabs(A.data()[i])));
    ref::R t = tol * 10 * (m + n), d = 0;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { ref::R s = -ref::R(A(i, j)); for (int q = 0; q < n; q++) s += ref::R(U(i, q)) * S(q) * V(j, q); if (!(fabsl(s) <= d)) d = fabsl(s); }
    c.okf(d <= t * nm, k + ".product", [&] { return fmt("|A-USV'| = %.3Lg, |A| = %.3Lg", d, nm); });
    d = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { ref::R s = a == b ? -1 : 0; for (int i = 0; i < n; i++) s += ref::R(V(i, a)) * V(i, b); if (!(fabsl(s) <= d)) d = fabsl(s); }
    c.okf(d <= t, k + ".V-orthonormal", [&] { return fmt("deviation %.3Lg", d); });
    bool pos = true, desc = true; for (int i = 0; i < n; i++) { pos = pos && S(i) >= 0; if (i) desc = desc && S(i) <= S(i - 1); }
    c.ok(pos, k + ".nonnegative"); if (sorted) c.ok(desc, k + ".sorted");
    // columns of U that belong to non-zero singular values
    d = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (S(a) > 1e-9 * double(nm) && S(b) > 1e-9 * double(nm)) { ref::R s = a == b ? -1 : 0; for (int i = 0; i < m; i++) s += ref::R(U(i, a)) * U(i, b); if (!(fabsl(s) <= d)) d = fabsl(s); }
    c.okf(d <= t, k + ".U-orthonormal", [&] { return fmt("deviation %.3Lg", d); });
    auto sv = refsv(A); std::vector<double> got(S.data(), S.data() + n); std::sort(got.rbegin(), got.rend()); d = 0;
    for (int i = 0; i < n; i++) { ref::R e = i < int(sv.size()) ? sv[i] : 0; ref::R x = fabsl(e - got[i]); if (!(x <= d)) d = x; }
    c.okf(d <= t * nm, k + ".values", [&] { return fmt("deviation %.3Lg, |A| = %.3Lg", d, nm); });
}
static void eigen_hh(Case& c) {
    int m = c.r.chance(0.6) ? 6 : c.r.size(1, 9, 20), n = c.r.size(1, 9, 20); MX A = randmat(c, m, n), A0 = A, U(m, n), V(n, n); VX S(n), t(n);
    for (MX* p : {&U, &V}) p->setConstant(7); S.setConstant(7); t.setConstant(7);
    c.ok(svd_eigen_HH(A, U, S, V, t, 150) == 0, "hh.status"); judge(c, A, U, S, V, true, "hh"); c.ok((A.array() == A0.array()).all(), "hh.input");
}
static void jac_hh(Case& c) {
    int n = c.r.size(1, 9, 20); MX A = randmat(c, 6, n); Jacobian J(n); J.data = A; SVD_HH svd(J);
    std::vector<JntArray> U(6, JntArray(n)), V(n, JntArray(n)); JntArray S(n); for (auto& u : U) for (int i = 0; i < n; i++) u(i) = 7; for (auto& u : V) for (int i = 0; i < n; i++) u(i) = 7;
    for (int rep = 0; rep < 2; rep++) {
        c.ok(svd.calculate(J, U, S, V, 150) == 0, "hh.status"); MX u(6, n), v(n, n); for (int i = 0; i < 6; i++) for (int j = 0; j < n; j++) u(i, j) = U[i](j); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v(i, j) = V[i](j);
        judge(c, A, u, S.data, v, false, "hh"); c.ok((J.data.array() == A.array()).all(), "hh.input"); A = randmat(c, 6, n); J.data = A;
    }
}
// an iteration limit that is too small is reported, never a wrong factorisation
static void limit(Case& c) {
    int n = c.r.size(2, 9, 20), it = c.r.range(1, 6); MX A = randmat(c, 6, n, false), U(6, n), V(n, n); VX S(n), t(n); c.desc += fmt(" maxiter %d", it);
    int e = svd_eigen_HH(A, U, S, V, t, it); c.cover(e ? "eigen.refused" : "eigen.converged"); if (!e) judge(c, A, U, S, V, true, "eigen"); else c.ok(e == -2, "eigen.code", fmt("%d", e));
    Jacobian J(n); J.data = A; SVD_HH svd(J); std::vector<JntArray> U2(6, JntArray(n)), V2(n, JntArray(n)); JntArray S2(n);
    e = svd.calculate(J, U2, S2, V2, it); c.cover(e ? "jac.refused" : "jac.converged"); if (e) c.ok(e == -2, "jac.code");
    else { for (int i = 0; i < 6; i++) for (int j = 0; j < n; j++) U(i, j) = U2[i](j); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) V(i, j) = V2[i](j); judge(c, A, U, S2.data, V, false, "jac"); }
}
// not-a-number in, no memory error and no success with finite numbers out
static void poison(Case& c) {
    int n = c.r.size(1, 9, 20); MX A = randmat(c, 6, n), U(6, n), V(n, n); VX S(n), t(n); double bad = c.r.chance(0.7) ? std::nan("") : c.r.sgn() * INFINITY; int i0 = c.r.below(6), j0 = c.r.below(n); A(i0, j0) = bad; c.desc += fmt(" (%d,%d)=%g", i0, j0, bad);
    int e = svd_eigen_HH(A, U, S, V, t, 40); bool fin = S.array().isFinite().all() && V.array().isFinite().all() && U.array().isFinite().all(); c.ok(e != 0 || !fin, "eigen"); c.cover(e ? "eigen.refused" : "eigen.nan");
    Jacobian J(n); J.data = A; SVD_HH svd(J); std::vector<JntArray> U2(6, JntArray(n)), V2(n, JntArray(n)); JntArray S2(n);
    e = svd.calculate(J, U2, S2, V2, 40); fin = S2.data.array().isFinite().all(); for (auto& u : U2) fin = fin && u.data.array().isFinite().all(); for (auto& u : V2) fin = fin && u.data.array().isFinite().all(); c.ok(e != 0 || !fin, "jac"); c.cover(e ? "jac.refused" : "jac.nan");
}
static MX orth(Rng& r, int n) { MX Q = MX::Identity(n, n); if (r.chance(0.3)) return Q; for (int k = 0; k < 3 * n; k++) { int i = r.below(n), j = r.below(n); if (i == j) continue; double a = r.uni(-3, 3); VX x = Q.col(i), y = Q.col(j); Q.col(i) = cos(a) * x - sin(a) * y; Q.col(j) = sin(a) * x + cos(a) * y; } return Q; }
// Givens-rotation decomposition in its two forms
static void macie(Case& c) {
    int n = c.r.size(1, 6, 14), m = std::max(n, c.r.size(1, 9, 16)); bool tg = c.r.chance(0.6); if (!tg) m = n;
    MX A = randmat(c, m, n, false); if (!tg) { auto sv = refsv(A); if (sv.back() < 1e-4L) { tg = true; } } c.desc += tg ? " from V" : " from U"; c.cover(tg ? "fromV" : "fromU");
    c.isolated("run", [&](Case& c) {
        MX U = tg ? MX::Constant(m, m, 7) : orth(c.r, m), V = tg ? orth(c.r, n) : MX::Constant(n, n, 7), B(m, n); VX S(n), t(m); S.setConstant(7);
        svd_eigen_Macie(A, U, S, V, B, t, 1e-24, tg); judge(c, A, MX(U.leftCols(n)), S, V, false, "macie", 1e-11);
    }, 8);
}
static void ldl(Case& c) {
    int n = c.r.size(1, 9, 20); MX R(n, n); for (int i = 0; i < R.size(); i++) R.data()[i] = c.r.uni(-1, 1); double sc = c.r.chance(0.3) ? c.r.logu(1e-8, 1e8) : 1; MX A = (R * R.transpose() + c.r.logu(1e-3, 1) * MX::Identity(n, n)) * sc; A = (A + MX(A.transpose())) / 2; if (c.r.chance(0.15)) A = MX(VX(A.diagonal()).asDiagonal());
    VX v(n), D(n), t(n), q(n); for (int i = 0; i < n; i++) v(i) = c.r.uni(-3, 3); MX L(n, n); L.setConstant(7); D.setConstant(7); t.setConstant(7); q.setConstant(7); MX A0 = A; VX v0 = v; c.desc = fmt("n=%d scale %.3g", n, sc);
    c.ok(ldl_solver_eigen(A, v, L, D, t, q) == 0, "status"); c.ok((A.array() == A0.array()).all() && (v.array() == v0.array()).all(), "input");
    auto ev = ref::symEig(rmat(A)); ref::R k = ev.back() / ev[0]; ref::VecR x, b(n); for (int i = 0; i < n; i++) b[i] = v(i); ref::solve(rmat(A), b, x); ref::R xn = 0, d = 0; for (auto y : x) xn = std::max(xn, fabsl(y)); for (int i = 0; i < n; i++) { ref::R e = fabsl(x[i] - q(i)); if (!(e <= d)) d = e; }
    c.okf(d <= 1e-13L * k * n * xn, "solution", [&] { return fmt("deviation %.3Lg of %.3Lg, condition %.3Lg", d, xn, k); });
    d = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ref::R s = -ref::R(A(i, j)); for (int z = 0; z < n; z++) s += ref::R(L(i, z)) * D(z) * L(j, z); if (!(fabsl(s) <= d)) d = fabsl(s); }
    c.okf(d <= 1e-13L * n * ev.back(), "factors", [&] { return fmt("deviation %.3Lg", d); }); bool lo = true; for (int i = 0; i < n; i++) { lo = lo && L(i, i) == 1 && D(i) > 0; for (int j = i + 1; j < n; j++) lo = lo && L(i, j) == 0; } c.ok(lo, "triangular");
    // aliasing of v and q is not claimed; sizes are checked
    MX Ab(n, n + 1); VX w(n + 1); Ab.setZero(); w.setZero(); MX Lb(n + 1, n + 1); VX s = q;
    c.ok(ldl_solver_eigen(Ab, v, L, D, t, q) == SolverI::E_SIZE_MISMATCH && ldl_solver_eigen(A, w, L, D, t, q) == SolverI::E_SIZE_MISMATCH && ldl_solver_eigen(A, v, Lb, D, t, q) == SolverI::E_SIZE_MISMATCH && ldl_solver_eigen(A, v, L, w, t, q) == SolverI::E_SIZE_MISMATCH && ldl_solver_eigen(A, v, L, D, w, q) == SolverI::E_SIZE_MISMATCH && ldl_solver_eigen(A, v, L, D, t, w) == SolverI::E_SIZE_MISMATCH, "reject"); c.ok((s.array() == q.array()).all(), "reject.untouched");
}
int main(int argc, char** argv) {
    Harness H("C21", argc, argv);
    H.rule("eigen", 6000, eigen_hh); H.rule("jacobian", 3000, jac_hh); H.rule("limit", 3000, limit); H.rule("poison", 1500, poison); H.rule("givens", 1500, macie); H.rule("ldl", 4000, ldl);
    return H.finish();
}
