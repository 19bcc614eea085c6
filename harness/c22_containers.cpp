// C22: joint-space containers: element access, sizes, arithmetic with its time
// derivatives (product and quotient rules), aliasing, comparison.
#include "gen.hpp"
#include "jntarrayvel.hpp"
#include "jntarrayacc.hpp"
#include "jntspaceinertiamatrix.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
typedef std::vector<ref::VecR> Jet;   // value, first, second derivative
static JntArray arr(Case& c, int n, double m = 4) { JntArray a(n); for (int i = 0; i < n; i++) a(i) = c.r.chance(0.1) ? 0 : c.r.chance(0.1) ? c.r.logu(1e-6, 1e6) : c.r.uni(-m, m); return a; }
static bool same(Case& c, const JntArray& g, const ref::VecR& e, const std::string& key, const ref::VecR* mag = nullptr) {
    if (!c.ok(g.rows() == e.size() && g.columns() == (1u), key + ".size", fmt("%u, expected %zu", g.rows(), e.size()))) return false;
    bool good = true; ref::R m = 1; for (auto x : e) m = std::max(m, fabsl(x)); std::string bad; for (size_t i = 0; i < e.size(); i++) if (!(fabsl(g(i) - e[i]) <= 1e-13L * (mag ? 1e-2L * (1 + (*mag)[i]) : m))) { good = false; bad = fmt("element %zu: %.17g, expected %.17Lg", i, g(i), e[i]); }
    return c.ok(good, key, bad);
}
static ref::VecR comb(const ref::VecR& a, const ref::VecR& b, ref::R x, ref::R y) { ref::VecR r(a); for (size_t i = 0; i < a.size(); i++) r[i] = x * a[i] + y * b[i]; return r; }
static ref::VecR scale(const ref::VecR& a, ref::R x) { ref::VecR r(a); for (auto& v : r) v *= x; return r; }
struct Num { ref::R t, d, dd; };
static Jet mul(const Jet& a, Num f) { Jet r; r.push_back(scale(a[0], f.t)); r.push_back(comb(a[1], a[0], f.t, f.d)); ref::VecR x = comb(a[2], a[1], f.t, 2 * f.d); r.push_back(comb(x, a[0], 1, f.dd)); return r; }
static Jet jabs(Jet a) { for (auto& v : a) for (auto& x : v) x = fabsl(x); return a; }
static Num nabs(Num f) { return Num{fabsl(f.t), fabsl(f.d), fabsl(f.dd)}; }
static Num invAbs(Num f) { f = nabs(f); return Num{1 / f.t, f.d / (f.t * f.t), 2 * f.d * f.d / (f.t * f.t * f.t) + f.dd / (f.t * f.t)}; }
static Num inv(Num f) { return Num{1 / f.t, -f.d / (f.t * f.t), 2 * f.d * f.d / (f.t * f.t * f.t) - f.dd / (f.t * f.t)}; }
static double away(Case& c) { double x = c.r.uni(0.3, 3); return c.r.chance(0.5) ? x : -x; }
static void plain(Case& c) {
    int n = c.r.size(0, 12, 40); JntArray a = arr(c, n), b = arr(c, n), d = arr(c, n), a0 = a, b0 = b; ref::VecR A = rq(a), B = rq(b); double f = away(c); c.cover(n == 0 ? "empty" : "filled"); JntArray z(n); same(c, z, ref::VecR(n, 0), "new");
    auto check = [&](const JntArray& g, const ref::VecR& e, const char* k) { same(c, g, e, k); };
    Add(a, b, d); check(d, comb(A, B, 1, 1), "add"); Subtract(a, b, d); check(d, comb(A, B, 1, -1), "subtract"); Multiply(a, f, d); check(d, scale(A, f), "multiply"); Divide(a, f, d); check(d, scale(A, 1 / ref::R(f)), "divide"); c.ok(a.data == a0.data && b.data == b0.data, "input");
    d = a; Add(d, b, d); check(d, comb(A, B, 1, 1), "add.alias"); d = b; Add(a, d, d); check(d, comb(A, B, 1, 1), "add.alias"); d = a; Add(d, d, d); check(d, scale(A, 2), "add.alias"); d = a; Subtract(d, b, d); check(d, comb(A, B, 1, -1), "subtract.alias"); d = b; Subtract(a, d, d); check(d, comb(A, B, 1, -1), "subtract.alias"); d = a; Multiply(d, f, d); check(d, scale(A, f), "multiply.alias"); d = a; Divide(d, f, d); check(d, scale(A, 1 / ref::R(f)), "divide.alias"); if (n) { d = a; d(0) = f; Multiply(d, d(0), d); ref::VecR e = A; e[0] = f; check(d, scale(e, f), "multiply.alias"); }
    JntArray cp(a); cp = b; check(cp, B, "assign"); JntArray& self = cp; cp = self; check(cp, B, "assign"); cp.data = a.data; check(cp, A, "data"); for (int i = 0; i < n; i++) { cp(i) = i; c.ok(cp(i, 0) == i && cp.data(i) == i, "element"); } JntArray e0; c.ok(e0.rows() == 0, "default"); cp = e0; c.ok(cp.rows() == 0, "assign.empty");
    SetToZero(d); check(d, ref::VecR(n, 0), "zero"); int m = c.r.size(0, 12, 40); d = a; d.resize(m); ref::VecR E(m, 0); for (int i = 0; i < m && i < n; i++) E[i] = a(i); if (c.ok(int(d.rows()) == m, "resize")) { bool tail = true; for (int i = n; i < m; i++) tail = tail && d(i) == 0; c.ok(tail, "resize.zero"); } JntArray r; r.resize(n); check(r, ref::VecR(n, 0), "resize.default");
    // comparison
    double eps = c.r.logu(1e-9, 1e-2); JntArray q = a; c.ok(Equal(a, q, eps) && Equal(a, q) && a == q, "equal.same"); if (n) { int i = c.r.below(n); q(i) = a(i) + eps * 0.5; c.ok(Equal(a, q, eps) == true && Equal(q, a, eps), "equal.near"); q(i) = a(i) - eps * 2 - fabs(a(i)) * 1e-14; c.ok(!Equal(a, q, eps) && !Equal(q, a, eps), "equal.far"); q(i) = std::nan(""); c.ok(!Equal(a, q, eps), "equal.nan"); q(i) = a(i) + 1; c.ok(!(a == q), "equal.operator"); } JntArray w(n + 1); c.ok(!Equal(a, w, 1e9) && !Equal(w, a, 1e9) && !(a == w), "equal.size"); c.ok(Equal(e0, e0) && e0 == e0 && Equal(e0, JntArray(0)), "equal.empty");
    // Jacobian times joint velocities, mass matrix times joint vector
    Jacobian J(n); std::vector<ref::S6> cols; ref::S6 sum; for (int i = 0; i < n; i++) { Twist t = kt(screw(c.r)); J.setColumn(i, t); cols.push_back(rs(t)); sum = sum + cols[i] * A[i]; c.ok(J.getColumn(i) == t, "column"); for (int k = 0; k < 6; k++) c.ok(J(k, i) == t(k) && J.data(k, i) == t(k), "column.element"); } c.ok(J.rows() == 6 && int(J.columns()) == n, "jacobian.size"); Twist t(Vector(9, 9, 9), Vector(9, 9, 9)); MultiplyJacobian(J, a, t); double mj = 1; for (int i = 0; i < n; i++) mj += fabs(a(i)); eq(c, rs(t), sum, 1e-13 * mj * 10, "jacobian-product"); t = Twist(Vector(9, 9, 9), Vector(9, 9, 9)); MultiplyJacobian(J, JntArray(), t); if (n == 0 || true) c.ok(t == Twist::Zero(), "jacobian-product.empty");
    Jacobian K(J), L; c.ok(K == J && !(K != J) && Equal(J, K, 0), "jacobian.equal"); L = J; c.ok(L == J, "jacobian.assign"); if (n) { int i = c.r.below(n), k = c.r.below(6); K(k, i) += eps * 0.5; c.ok(Equal(J, K, eps), "jacobian.equal"); K(k, i) = J(k, i) + 3 * eps; c.ok(!Equal(J, K, eps) && !Equal(K, J, eps), "jacobian.equal"); K(k, i) = J(k, i) + 1; c.ok(K != J && !(K == J), "jacobian.equal"); } c.ok(!Equal(J, Jacobian(n + 1), 1e9), "jacobian.equal"); K = J; K.resize(m); c.ok(int(K.columns()) == m && K.rows() == 6, "jacobian.resize"); for (int i = 0; i < m; i++) eq(c, rs(K.getColumn(i)), i < n ? cols[i] : ref::S6(), 0, i < n ? "jacobian.resize.kept" : "jacobian.resize.new"); SetToZero(K); for (int i = 0; i < m; i++) eq(c, rs(K.getColumn(i)), ref::S6(), 0, "jacobian.zero");
    JntSpaceInertiaMatrix M(n), N(n), D(n); c.ok(M.rows() == unsigned(n) && M.columns() == unsigned(n), "matrix.size"); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { c.ok(D(i, k) == 0, "matrix.new"); M(i, k) = c.r.uni(-3, 3); N(i, k) = c.r.uni(-3, 3); }
    auto mc = [&](const JntSpaceInertiaMatrix& g, double x, double y, const char* key) { bool good = g.rows() == unsigned(n) && g.columns() == unsigned(n); for (int i = 0; good && i < n; i++) for (int k = 0; k < n; k++) good = good && fabs(g(i, k) - (x * M(i, k) + y * N(i, k))) <= 1e-13; c.ok(good, key); };
    Add(M, N, D); mc(D, 1, 1, "matrix.add"); Subtract(M, N, D); mc(D, 1, -1, "matrix.subtract"); Multiply(M, f, D); mc(D, f, 0, "matrix.multiply"); Divide(M, f, D); mc(D, 1 / f, 0, "matrix.divide"); D = M; Add(D, N, D); mc(D, 1, 1, "matrix.alias"); D = N; Subtract(M, D, D); mc(D, 1, -1, "matrix.alias"); D = M; Multiply(D, f, D); mc(D, f, 0, "matrix.alias"); D = M; Divide(D, f, D); mc(D, 1 / f, 0, "matrix.alias"); JntSpaceInertiaMatrix P(M), E0; mc(P, 1, 0, "matrix.copy"); P = N; mc(P, 0, 1, "matrix.assign");
    ref::VecR mv(n, 0); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) mv[i] += ref::R(M(i, k)) * a(k); JntArray y = arr(c, n); if (n) { Multiply(M, a, y); ref::R big = 1; for (auto x : A) big += fabsl(x) * 3; bool good = true; for (int i = 0; i < n; i++) good = good && fabsl(y(i) - mv[i]) <= 1e-13L * big * 3; c.ok(good, "matrix.vector"); }
    c.ok(Equal(M, M, 0) && M == M && !Equal(M, JntSpaceInertiaMatrix(n + 1), 1e9), "matrix.equal"); if (n) { P = M; int i = c.r.below(n), k = c.r.below(n); P(i, k) += eps * 0.5; c.ok(Equal(M, P, eps), "matrix.equal"); P(i, k) = M(i, k) + 3 * eps; c.ok(!Equal(M, P, eps), "matrix.equal"); P(i, k) = M(i, k) + 1; c.ok(!(M == P), "matrix.equal"); }
    P = M; P.resize(m); bool zero = int(P.rows()) == m && int(P.columns()) == m; for (int i = 0; zero && i < m; i++) for (int k = 0; k < m; k++) zero = zero && P(i, k) == 0; c.ok(zero, "matrix.resize"); E0.resize(m); zero = int(E0.rows()) == m; for (int i = 0; zero && i < m; i++) for (int k = 0; k < m; k++) zero = zero && E0(i, k) == 0; c.ok(zero, "matrix.resize"); SetToZero(M); zero = true; for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) zero = zero && M(i, k) == 0; c.ok(zero, "matrix.zero");
}
static Jet jet(const JntArrayVel& v) { return {rq(v.q), rq(v.qdot), ref::VecR(v.q.rows(), 0)}; }
static Jet jet(const JntArrayAcc& v) { return {rq(v.q), rq(v.qdot), rq(v.qdotdot)}; }
static Jet jet(const JntArray& v) { return {rq(v), ref::VecR(v.rows(), 0), ref::VecR(v.rows(), 0)}; }
static Jet jadd(const Jet& a, const Jet& b, ref::R s) { Jet r; for (int k = 0; k < 3; k++) r.push_back(comb(a[k], b[k], 1, s)); return r; }
static void jcheck(Case& c, const JntArrayVel& g, const Jet& e, const std::string& k, const Jet* m = nullptr) { same(c, g.q, e[0], k + ".value", m ? &(*m)[0] : 0); same(c, g.qdot, e[1], k + ".rate", m ? &(*m)[1] : 0); }
static void jcheck(Case& c, const JntArrayAcc& g, const Jet& e, const std::string& k, const Jet* m = nullptr) { same(c, g.q, e[0], k + ".value", m ? &(*m)[0] : 0); same(c, g.qdot, e[1], k + ".rate", m ? &(*m)[1] : 0); same(c, g.qdotdot, e[2], k + ".acceleration", m ? &(*m)[2] : 0); }
template <class T, class U, class F> static void op2(Case& c, const T& a, const U& b, T dirty, F f, const Jet& e, const Jet& m, const std::string& k) {
    T a0 = a; U b0 = b; f(a, b, dirty); jcheck(c, dirty, e, k, &m); jcheck(c, a, jet(a0), k + ".input"); T x = a; f(x, b, x); jcheck(c, x, e, k + ".alias", &m);
}
static void rates(Case& c) {
    int n = c.r.size(1, 10, 30); auto V = [&] { return JntArrayVel(arr(c, n), arr(c, n)); }; auto X = [&] { return JntArrayAcc(arr(c, n), arr(c, n), arr(c, n)); }; JntArray p = arr(c, n); JntArrayVel v = V(), w = V(); JntArrayAcc a = X(), b = X(); double f = away(c); doubleVel fv(away(c), away(c)); doubleAcc fa(away(c), away(c), away(c)); if (c.r.chance(0.2)) { fv.grad = 0; fa.d = 0; }
    Num nf{f, 0, 0}, nv{fv.t, fv.grad, 0}, na{fa.t, fa.d, fa.dd};
    op2(c, v, w, V(), [](auto& x, auto& y, auto& d) { Add(x, y, d); }, jadd(jet(v), jet(w), 1), jadd(jabs(jet(v)), jabs(jet(w)), 1), "vel.add"); op2(c, v, p, V(), [](auto& x, auto& y, auto& d) { Add(x, y, d); }, jadd(jet(v), jet(p), 1), jadd(jabs(jet(v)), jabs(jet(p)), 1), "vel.add-position"); op2(c, v, w, V(), [](auto& x, auto& y, auto& d) { Subtract(x, y, d); }, jadd(jet(v), jet(w), -1), jadd(jabs(jet(v)), jabs(jet(w)), 1), "vel.subtract"); op2(c, v, p, V(), [](auto& x, auto& y, auto& d) { Subtract(x, y, d); }, jadd(jet(v), jet(p), -1), jadd(jabs(jet(v)), jabs(jet(p)), 1), "vel.subtract-position");
    op2(c, v, f, V(), [](auto& x, auto& y, auto& d) { Multiply(x, y, d); }, mul(jet(v), nf), mul(jabs(jet(v)), nabs(nf)), "vel.multiply"); op2(c, v, fv, V(), [](auto& x, auto& y, auto& d) { Multiply(x, y, d); }, mul(jet(v), nv), mul(jabs(jet(v)), nabs(nv)), "vel.multiply-rate"); op2(c, v, f, V(), [](auto& x, auto& y, auto& d) { Divide(x, y, d); }, mul(jet(v), inv(nf)), mul(jabs(jet(v)), invAbs(nf)), "vel.divide"); op2(c, v, fv, V(), [](auto& x, auto& y, auto& d) { Divide(x, y, d); }, mul(jet(v), inv(nv)), mul(jabs(jet(v)), invAbs(nv)), "vel.divide-rate");
    op2(c, a, b, X(), [](auto& x, auto& y, auto& d) { Add(x, y, d); }, jadd(jet(a), jet(b), 1), jadd(jabs(jet(a)), jabs(jet(b)), 1), "acc.add"); op2(c, a, v, X(), [](auto& x, auto& y, auto& d) { Add(x, y, d); }, jadd(jet(a), jet(v), 1), jadd(jabs(jet(a)), jabs(jet(v)), 1), "acc.add-velocity"); op2(c, a, p, X(), [](auto& x, auto& y, auto& d) { Add(x, y, d); }, jadd(jet(a), jet(p), 1), jadd(jabs(jet(a)), jabs(jet(p)), 1), "acc.add-position");
    op2(c, a, b, X(), [](auto& x, auto& y, auto& d) { Subtract(x, y, d); }, jadd(jet(a), jet(b), -1), jadd(jabs(jet(a)), jabs(jet(b)), 1), "acc.subtract"); op2(c, a, v, X(), [](auto& x, auto& y, auto& d) { Subtract(x, y, d); }, jadd(jet(a), jet(v), -1), jadd(jabs(jet(a)), jabs(jet(v)), 1), "acc.subtract-velocity"); op2(c, a, p, X(), [](auto& x, auto& y, auto& d) { Subtract(x, y, d); }, jadd(jet(a), jet(p), -1), jadd(jabs(jet(a)), jabs(jet(p)), 1), "acc.subtract-position");
    op2(c, a, f, X(), [](auto& x, auto& y, auto& d) { Multiply(x, y, d); }, mul(jet(a), nf), mul(jabs(jet(a)), nabs(nf)), "acc.multiply"); op2(c, a, fv, X(), [](auto& x, auto& y, auto& d) { Multiply(x, y, d); }, mul(jet(a), nv), mul(jabs(jet(a)), nabs(nv)), "acc.multiply-rate"); op2(c, a, fa, X(), [](auto& x, auto& y, auto& d) { Multiply(x, y, d); }, mul(jet(a), na), mul(jabs(jet(a)), nabs(na)), "acc.multiply-acceleration");
    op2(c, a, f, X(), [](auto& x, auto& y, auto& d) { Divide(x, y, d); }, mul(jet(a), inv(nf)), mul(jabs(jet(a)), invAbs(nf)), "acc.divide"); op2(c, a, fv, X(), [](auto& x, auto& y, auto& d) { Divide(x, y, d); }, mul(jet(a), inv(nv)), mul(jabs(jet(a)), invAbs(nv)), "acc.divide-rate"); op2(c, a, fa, X(), [](auto& x, auto& y, auto& d) { Divide(x, y, d); }, mul(jet(a), inv(na)), mul(jabs(jet(a)), invAbs(na)), "acc.divide-acceleration");
    // construction, parts, comparison
    JntArrayVel v1(p), v2(n), v3(v); jcheck(c, v1, jet(p), "vel.from-position"); jcheck(c, v2, jet(JntArray(n)), "vel.new"); jcheck(c, v3, jet(v), "vel.copy"); c.ok(v.value().data == v.q.data && v.deriv().data == v.qdot.data, "vel.parts"); JntArrayAcc a1(p), a2(n), a3(v.q, v.qdot), a4(a); jcheck(c, a1, jet(p), "acc.from-position"); jcheck(c, a2, jet(JntArray(n)), "acc.new"); jcheck(c, a3, jet(v), "acc.from-velocity"); jcheck(c, a4, jet(a), "acc.copy"); c.ok(a.value().data == a.q.data && a.deriv().data == a.qdot.data && a.dderiv().data == a.qdotdot.data, "acc.parts");
    double eps = c.r.logu(1e-9, 1e-2); c.ok(Equal(v, v3, eps) && Equal(a, a4, eps) && Equal(v, v3) && Equal(a, a4), "equal.same"); int i = c.r.below(n); for (int k = 0; k < 3; k++) for (int far = 0; far < 2; far++) { double d = far ? 3 * eps : eps * 0.4; a4 = a; JntArray& t = k == 0 ? a4.q : k == 1 ? a4.qdot : a4.qdotdot; t(i) += d; double act = fabs(t(i) - (k == 0 ? a.q : k == 1 ? a.qdot : a.qdotdot)(i)); if (act > eps * 0.9 && act < eps * 1.1) continue; c.ok(Equal(a, a4, eps) == !(act > eps) && Equal(a4, a, eps) == !(act > eps), "equal.acc"); if (k < 2) { v3 = v; JntArray& u = k == 0 ? v3.q : v3.qdot; u(i) += d; act = fabs(u(i) - (k == 0 ? v.q : v.qdot)(i)); if (act > eps * 0.9 && act < eps * 1.1) continue; c.ok(Equal(v, v3, eps) == !(act > eps), "equal.vel"); } }
    c.ok(!Equal(JntArrayVel(n), JntArrayVel(n + 1), 1e9) && !Equal(JntArrayAcc(n), JntArrayAcc(n + 1), 1e9), "equal.size"); SetToZero(v3); SetToZero(a4); jcheck(c, v3, jet(JntArray(n)), "vel.zero"); jcheck(c, a4, jet(JntArray(n)), "acc.zero");
    int m = c.r.size(0, 12, 40); v3 = v; a4 = a; v3.resize(m); a4.resize(m); c.ok(int(v3.q.rows()) == m && int(v3.qdot.rows()) == m && int(a4.q.rows()) == m && int(a4.qdot.rows()) == m && int(a4.qdotdot.rows()) == m, "resize"); bool tail = true; for (int k = n; k < m; k++) tail = tail && v3.q(k) == 0 && v3.qdot(k) == 0 && a4.q(k) == 0 && a4.qdot(k) == 0 && a4.qdotdot(k) == 0; c.ok(tail, "resize.zero"); JntArrayVel d0; JntArrayAcc d1; d0.resize(n); d1.resize(n); jcheck(c, d0, jet(JntArray(n)), "vel.resize-default"); jcheck(c, d1, jet(JntArray(n)), "acc.resize-default");
}
int main(int argc, char** argv) {
    Harness H("C22", argc, argv);
    H.rule("plain", 4000, plain); H.rule("rates", 5000, rates);
    return H.finish();
}
