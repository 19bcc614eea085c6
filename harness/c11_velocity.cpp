// C11: velocities and Jacobians are the exact time derivative of the poses.
#include "gen.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainjnttojacsolver.hpp"
#include "treejnttojacsolver.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static ChainOpt opt(Case& c, int mx) {
    ChainOpt o; o.maxSeg = mx; o.minSeg = 1;
    switch (c.r.below(6)) { case 0: o.pFixed = c.r.chance(0.2) ? 1 : 0.6; break; case 1: o.pTrans = 0.9; break; default: break; }
    return o;
}
static double mags(const ref::ChainSpec& s, const ref::VecR& q, const ref::VecR& qd) {
    double m = 1; for (auto x : q) m += double(fabsl(x)); for (auto& g : s) m += double(ref::norm(g.ftip.p) + ref::norm(g.j.origin)); double v = 1; for (auto x : qd) v += double(fabsl(x)) * 2; return 1e-13 * m * v * 2; }
// first principles: each joint moves everything after it about its axis
static void fkvel(Case& c) {
    ref::ChainSpec s = chain(c.r, opt(c, c.r.chance(0.05) ? 25 : 9));
    Chain ch = kchain(s); int ns = int(s.size()), n = ref::nj(s);
    ChainFkSolverVel_recursive fk(ch); ChainJntToJacSolver js(ch);
    c.desc = describe(s);
    ref::VecR q = joints(c.r, n), qd = joints(c.r, n, 3); if (c.r.chance(0.1)) for (auto& x : qd) x = 0;
    double tol = mags(s, q, qd);
    JntArrayVel qv(kq(q), kq(qd));
    for (int k = -1; k <= ns; k++) {
        int up = k < 0 ? ns : k;
        ref::T4 X = ref::fk(s, q, up); ref::S6 e = ref::jmul(ref::jac(s, q, up), qd);
        FrameVel F(kframe(c.r), kt(screw(c.r)));
        c.ok(fk.JntToCart(qv, F, k) == 0 && fk.getError() == 0, "vel.status");
        eq(c, rt(F.GetFrame()), X, tol, "vel.pose"); eq(c, rs(F.GetTwist()), e, tol, k < 0 ? "vel.tip" : "vel.seg");
        if (k != 0) {
            std::vector<FrameVel> V(size_t(up), F); c.ok(fk.JntToCart(qv, V, k) == 0 && fk.getError() == 0, "vel.all.status");
            for (int i = 0; i < up; i++) { eq(c, rt(V[i].GetFrame()), ref::fk(s, q, i + 1), tol, "vel.all.pose"); eq(c, rs(V[i].GetTwist()), ref::jmul(ref::jac(s, q, i + 1), qd), tol, "vel.all"); }
        }
        // independent: difference quotient of the pose
        if (k < 0) {
            const ref::R h = 1e-6L; ref::VecR a(q), b(q); for (int i = 0; i < n; i++) { a[i] += h * qd[i]; b[i] -= h * qd[i]; }
            ref::T4 A = ref::fk(s, a), B = ref::fk(s, b); ref::M3 W = ((A.M - B.M) * (1 / (2 * h))) * ref::T(X.M);
            eq(c, rs(F.GetTwist()), ref::S6((A.p - B.p) / (2 * h), ref::V3(W[2][1], W[0][2], W[1][0])), 1e-7 * (1 + 1e5 * tol), "vel.difference");
        }
    }
    FrameVel F; std::vector<FrameVel> V(ns + 1);
    c.ok(fk.JntToCart(qv, F, ns + 1) == SolverI::E_OUT_OF_RANGE && fk.getError() == SolverI::E_OUT_OF_RANGE, "reject.segment");
    c.ok(fk.JntToCart(qv, V, ns + 1) == SolverI::E_OUT_OF_RANGE && fk.getError() == SolverI::E_OUT_OF_RANGE, "reject.segment.all");
    c.ok(fk.JntToCart(qv, V) == SolverI::E_SIZE_MISMATCH, "reject.out-size");
    JntArrayVel w1(n), w2(n); w1.q = kq(q); w1.qdot = JntArray(n + 1); w2.q = JntArray(n + 1); w2.qdot = kq(qd); V.resize(ns);
    c.ok(fk.JntToCart(w1, F) == SolverI::E_SIZE_MISMATCH && fk.JntToCart(w2, F) == SolverI::E_SIZE_MISMATCH, "reject.size");
    c.ok(fk.JntToCart(w1, V) == SolverI::E_SIZE_MISMATCH && fk.JntToCart(w2, V) == SolverI::E_SIZE_MISMATCH, "reject.size.all");
}
static void dirty(Case& c, Jacobian& J) { for (unsigned i = 0; i < J.columns(); i++) J.setColumn(i, kt(screw(c.r, 5))); }
static void chainjac(Case& c) {
    ref::ChainSpec s = chain(c.r, opt(c, c.r.chance(0.05) ? 25 : 9));
    Chain ch = kchain(s); int ns = int(s.size()), n = ref::nj(s);
    ChainJntToJacSolver js(ch);
    c.desc = describe(s);
    for (int rep = 0; rep < 3; rep++) {
        std::vector<bool> lock(n, false);
        if (rep == 1) for (int i = 0; i < n; i++) lock[i] = c.r.chance(0.4);
        if (rep) { c.ok(js.setLockedJoints(lock) == 0 && js.getError() == 0, "lock.status"); std::vector<bool> bad(n + 1, true); c.ok(js.setLockedJoints(bad) == SolverI::E_SIZE_MISMATCH && js.getError() == SolverI::E_SIZE_MISMATCH, "lock.reject"); }
        int nl = 0; for (bool b : lock) nl += b;
        c.cover(nl ? "locked" : "free");
        ref::VecR q = joints(c.r, n), qd = joints(c.r, n, 3);
        double tol = mags(s, q, qd);
        JntArray kj = kq(q);
        for (int k = -1; k <= ns; k++) {
            int up = k < 0 ? ns : k;
            Jacobian J(n); dirty(c, J);
            c.ok(js.JntToJac(kj, J, k) == 0 && js.getError() == 0, "status");
            auto E = ref::jac(s, q, up);
            int col = 0;
            for (int i = 0; i < n; i++) if (!lock[i]) eq(c, rs(J.getColumn(col++)), E[i], tol, nl ? "column.locked" : "column", fmt("joint %d segment %d", i, k));
            for (; col < n; col++) eq(c, rs(J.getColumn(col)), ref::S6(), 0, "column.unused");
            if (k < 0 && !nl) { Twist t; MultiplyJacobian(J, kq(qd), t); eq(c, rs(t), ref::jmul(E, qd), tol, "multiply"); }
        }
        Jacobian J(n), JB(n + 1);
        c.ok(js.JntToJac(kj, J, ns + 1) == SolverI::E_OUT_OF_RANGE && js.getError() == SolverI::E_OUT_OF_RANGE, "reject.segment");
        c.ok(js.JntToJac(kj, JB) == SolverI::E_SIZE_MISMATCH && js.getError() == SolverI::E_SIZE_MISMATCH, "reject.columns");
        c.ok(js.JntToJac(JntArray(n + 1), J) == SolverI::E_SIZE_MISMATCH, "reject.size");
    }
}
static void reframe(Case& c) {
    int n = c.r.range(0, 8); c.desc = fmt("%d columns", n);
    Jacobian J(n); dirty(c, J); const Jacobian K(J);
    ref::T4 f = frame(c.r); Frame F = kf(f); f = rt(F); ref::V3 p = rv(kv(vec(c.r)));
    auto each = [&](const char* key, const Jacobian& G, std::function<ref::S6(ref::S6)> op) { if (!c.ok(int(G.columns()) == n, std::string(key) + ".cols")) return; c.ok(true, key); for (int i = 0; i < n; i++) eq(c, rs(G.getColumn(i)), op(rs(K.getColumn(i))), 2e-13, key); };
    auto rp = [&](ref::S6 t) { return ref::S6(t.a + ref::cross(t.b, p), t.b); };
    auto cb = [&](ref::S6 t) { return ref::S6(f.M * t.a, f.M * t.b); };
    auto cf = [&](ref::S6 t) { ref::V3 w = f.M * t.b; return ref::S6(f.M * t.a + ref::cross(f.p, w), w); };
    Jacobian D(n), A;
    c.ok(changeRefPoint(K, kv(p), D), "refpoint.ret"); each("refpoint", D, rp); A = K; c.ok(changeRefPoint(A, kv(p), A), "refpoint.ret"); each("refpoint.alias", A, rp); A = K; A.changeRefPoint(kv(p)); each("refpoint.member", A, rp);
    c.ok(changeBase(K, F.M, D), "base.ret"); each("base", D, cb); A = K; c.ok(changeBase(A, F.M, A), "base.ret"); each("base.alias", A, cb); A = K; A.changeBase(F.M); each("base.member", A, cb);
    c.ok(changeRefFrame(K, F, D), "frame.ret"); each("frame", D, cf); A = K; c.ok(changeRefFrame(A, F, A), "frame.ret"); each("frame.alias", A, cf); A = K; A.changeRefFrame(F); each("frame.member", A, cf);
    Jacobian W(n + 1); c.ok(!changeRefPoint(K, kv(p), W) && !changeBase(K, F.M, W) && !changeRefFrame(K, F, W), "reject");
    for (unsigned i = 0; i < W.columns(); i++) eq(c, rs(W.getColumn(i)), ref::S6(), 0, "reject.untouched");
    c.ok(J.data == K.data, "input-untouched");
}
static void treejac(Case& c) {
    TreeSpec t = treespec(c.r, opt(c, 9), 1, c.r.chance(0.1) ? 25 : 11);
    Tree T = ktree(t); TreeJntToJacSolver js(T);
    c.desc = fmt("tree of %zu segments, %d joints", t.segs.size(), t.n);
    ref::VecR q = joints(c.r, t.n); JntArray kj = kq(q);
    for (size_t i = 0; i < t.segs.size(); i++) {
        Jacobian J(t.n); dirty(c, J);
        c.ok(js.JntToJac(kj, J, t.segs[i].name) >= 0, "status");
        ref::ChainSpec cs = t.chainTo(int(i)); auto E = ref::jac(cs, t.sub(int(i), q));
        std::vector<ref::S6> full(t.n); int k = 0; for (int p : t.path(int(i))) if (t.qnr[p] >= 0) full[t.qnr[p]] = E[k++];
        double tol = mags(cs, t.sub(int(i), q), ref::VecR(1, 1));
        std::vector<int> path = t.path(int(i));
        for (int jn = 0; jn < t.n; jn++) { bool on = false; for (int p : path) on = on || t.qnr[p] == jn; eq(c, rs(J.getColumn(jn)), full[jn], tol, on ? "column.on-path" : "column.off-path", t.segs[i].name); }
    }
    Jacobian J(t.n), JB(t.n + 1);
    c.ok(js.JntToJac(kj, J, "nope") < 0, "reject.name"); c.ok(js.JntToJac(kj, JB, t.segs[0].name) < 0, "reject.columns"); c.ok(js.JntToJac(JntArray(t.n + 1), J, t.segs[0].name) < 0, "reject.size");
    dirty(c, J); if (c.ok(js.JntToJac(kj, J, t.root) >= 0, "root.status")) for (int i = 0; i < t.n; i++) eq(c, rs(J.getColumn(i)), ref::S6(), 0, "root.zero");
}
int main(int argc, char** argv) {
    Harness H("C11", argc, argv);
    H.rule("fkvel", 4000, fkvel);
    H.rule("chainjac", 4000, chainjac);
    H.rule("reframe", 6000, reframe);
    H.rule("treejac", 5000, treejac);
    return H.finish();
}
