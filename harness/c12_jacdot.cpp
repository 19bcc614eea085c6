// C12: the Jacobian derivative solver returns d/dt J(q(t)) in each of its
// representations, with locked joints and intermediate segments.
#include "gen.hpp"
#include "chainjnttojacdotsolver.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static std::vector<ref::S6> rep_jac(const ref::ChainSpec& s, const ref::VecR& q, int up, int rep) {
    auto J = ref::jac(s, q, up); ref::T4 X = ref::fk(s, q, up);
    for (auto& c : J) {
        if (rep == 1) c = ref::S6(ref::T(X.M) * c.a, ref::T(X.M) * c.b);
        if (rep == 2) c = ref::S6(c.a + ref::cross(X.p, c.b), c.b);   // velocity of the point at the base origin
    }
    return J;
}
static void jacdot(Case& c) {
    ChainOpt o; o.maxSeg = 9; if (c.r.chance(0.2)) o.pFixed = 0.6; if (c.r.chance(0.05)) o.pFixed = 1; if (c.r.chance(0.2)) o.pTrans = 0.8;
    ref::ChainSpec s = chain(c.r, o);
    Chain ch = kchain(s); int ns = int(s.size()), n = ref::nj(s);
    c.desc = describe(s);
    ChainJntToJacDotSolver js(ch);
    std::vector<bool> lock(n, false);
    for (int rep = 0; rep < 4; rep++) {
        if (rep) { for (int i = 0; i < n; i++) lock[i] = c.r.chance(rep == 3 ? 0 : 0.4); c.ok(js.setLockedJoints(lock) == 0 && js.getError() == 0, "lock.status"); std::vector<bool> bad(n + 1); c.ok(js.setLockedJoints(bad) == SolverI::E_SIZE_MISMATCH && js.getError() == SolverI::E_SIZE_MISMATCH, "lock.reject"); }
        int m = 0; for (bool b : lock) m += !b;
        int R = c.r.below(3);
        if (c.r.chance(0.5)) js.setRepresentation(R); else if (R == 0) js.setHybridRepresentation(); else if (R == 1) js.setBodyFixedRepresentation(); else js.setInertialRepresentation();
        if (c.r.chance(0.2)) js.setRepresentation(7);   // ignored
        static const char* rn[] = {"hybrid", "bodyfixed", "inertial"};
        c.cover(std::string(rn[R]) + (m < n ? ".locked" : ""));
        ref::VecR q = joints(c.r, n), qd = joints(c.r, n, 2), ql(qd);
        for (int i = 0; i < n; i++) if (lock[i]) ql[i] = 0;   // a locked joint does not move
        JntArrayVel qv(kq(q), kq(qd));
        double scale = 1; for (auto x : qd) scale += double(fabsl(x)); for (auto& g : s) scale += double(ref::norm(g.ftip.p) + ref::norm(g.j.origin)); for (auto x : q) scale += double(fabsl(x));
        double tol = 1e-9 * scale * scale;
        for (int k = -1; k <= ns; k++) {
            int up = k < 0 ? ns : k;
            const ref::R h = 1e-4L;
            auto at = [&](ref::R t) { ref::VecR x(q); for (int i = 0; i < n; i++) x[i] += t * ql[i]; return rep_jac(s, x, up, R); };
            auto A = at(h), B = at(-h), A2 = at(2 * h), B2 = at(-2 * h), J0 = at(0);
            Jacobian D(m); for (int i = 0; i < m; i++) D.setColumn(i, kt(screw(c.r, 5)));
            c.ok(js.JntToJacDot(qv, D, k) == 0 && js.getError() == 0, "status");
            ref::S6 sum; int col = 0;
            for (int i = 0; i < n; i++) { if (lock[i]) continue; ref::S6 e = ((A[i] - B[i]) * 8 - (A2[i] - B2[i])) * (1 / (12 * h)); sum = sum + e * qd[i]; 
                int seg = 0, jn = -1; for (; seg < ns; seg++) { if (!s[seg].j.fixed()) jn++; if (jn == i) break; }
                if (m < n && k >= 0) { // columns of joints beyond the segment are zero and compacted with the rest
                    if (seg >= up) continue; }
                eq(c, rs(D.getColumn(col++)), e, tol, std::string(rn[R]) + (m < n ? ".locked" : ""), fmt("joint %d segment %d", i, k)); }
            for (; col < m; col++) eq(c, rs(D.getColumn(col)), ref::S6(), 0, "unused");
            Twist t; c.ok(js.JntToJacDot(qv, t, k) == 0 && js.getError() == 0, "twist.status");
            eq(c, rs(t), sum, tol * scale, m < n ? "twist.locked" : "twist");
        }
        Jacobian D(m), W(m + 1); Twist t;
        c.ok(js.JntToJacDot(qv, D, ns + 1) == SolverI::E_OUT_OF_RANGE && js.getError() == SolverI::E_OUT_OF_RANGE, "reject.segment");
        c.ok(js.JntToJacDot(qv, W) == SolverI::E_SIZE_MISMATCH && js.getError() == SolverI::E_SIZE_MISMATCH, "reject.columns");
        JntArrayVel w1(n), w2(n); w1.q = kq(q); w1.qdot = JntArray(n + 1); w2.q = JntArray(n + 1); w2.qdot = kq(qd);
        c.ok(js.JntToJacDot(w1, D) == SolverI::E_SIZE_MISMATCH && js.JntToJacDot(w2, D) == SolverI::E_SIZE_MISMATCH && js.JntToJacDot(w1, t) == SolverI::E_SIZE_MISMATCH, "reject.size");
    }
}
int main(int argc, char** argv) {
    Harness H("C12", argc, argv);
    H.rule("jacdot", 2500, jacdot);
    return H.finish();
}
