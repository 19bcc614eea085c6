// C10: forward position kinematics equals the composition of the joint and tip
// frames, for every chain, tree, segment index and joint vector.
#include "gen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "treefksolverpos_recursive.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static ChainOpt opt(Case& c, int mx) {
    ChainOpt o; o.maxSeg = mx; o.minSeg = 0;
    switch (c.r.below(6)) { case 0: o.pFixed = 1; break; case 1: o.pFixed = 0.6; break; case 2: o.pTrans = 0.9; break; default: break; }
    return o;
}
static ref::VecR jv(Case& c, int n) { return c.r.chance(0.15) ? joints(c.r, n, 50) : c.r.chance(0.1) ? ref::VecR(n, 0) : joints(c.r, n); }
static void chains(Case& c) {
    ref::ChainSpec s = chain(c.r, opt(c, c.r.chance(0.05) ? 40 : 9));
    Chain ch = kchain(s); int ns = int(s.size()), n = ref::nj(s);
    ChainFkSolverPos_recursive fk(ch);
    c.desc = describe(s);
    for (int rep = 0; rep < 2; rep++) {
        ref::VecR q = jv(c, n); JntArray kj = kq(q), keep(kj);
        std::vector<ref::T4> T{ref::T4()}; { int j = 0; for (auto& g : s) { ref::R v = g.j.fixed() ? 0 : q[j++]; T.push_back(T.back() * g.pose(v)); } }
        double mag = 1; for (auto& x : T) mag = std::max(mag, double(ref::norm(x.p))); for (auto x : q) mag = std::max(mag, double(fabsl(x)));
        double tol = 3e-14 * mag * (2 + ns);
        for (int k = -1; k <= ns; k++) {
            Frame F = kframe(c.r);
            c.ok(fk.JntToCart(kj, F, k) == SolverI::E_NOERROR && fk.getError() == SolverI::E_NOERROR, "status");
            eq(c, rt(F), T[size_t(k < 0 ? ns : k)], tol, k < 0 ? "pose.tip" : "pose.seg");
            if (k == 0) continue;
            std::vector<Frame> V(size_t(k < 0 ? ns : k), F);
            int e = fk.JntToCart(kj, V, k);
            if (V.empty()) { c.ok(e < 0 && fk.getError() == e, "all.empty-status"); continue; }
            c.ok(e == SolverI::E_NOERROR && fk.getError() == e, "all.status");
            for (size_t i = 0; i < V.size(); i++) eq(c, rt(V[i]), T[i + 1], tol, "pose.all");
        }
        c.ok(kj.data == keep.data, "input-untouched");
        // rejected calls
        Frame F; std::vector<Frame> V(ns + 1);
        c.ok(fk.JntToCart(kj, F, ns + 1 + c.r.below(3)) == SolverI::E_OUT_OF_RANGE && fk.getError() == SolverI::E_OUT_OF_RANGE, "reject.segment");
        c.ok(fk.JntToCart(kj, V, ns + 1) == SolverI::E_OUT_OF_RANGE && fk.getError() == SolverI::E_OUT_OF_RANGE, "reject.segment.all");
        JntArray bad(n + 1); c.ok(fk.JntToCart(bad, F) == SolverI::E_SIZE_MISMATCH && fk.getError() == SolverI::E_SIZE_MISMATCH, "reject.size");
        if (n > 0) { JntArray sm(n - 1); c.ok(fk.JntToCart(sm, F) == SolverI::E_SIZE_MISMATCH, "reject.size"); V.resize(ns); c.ok(fk.JntToCart(sm, V) == SolverI::E_SIZE_MISMATCH && fk.getError() == SolverI::E_SIZE_MISMATCH, "reject.size.all"); }
        V.resize(ns + 1 + c.r.below(2)); c.ok(fk.JntToCart(kj, V) == SolverI::E_SIZE_MISMATCH && fk.getError() == SolverI::E_SIZE_MISMATCH, "reject.out-size");
    }
}
static void trees(Case& c) {
    ChainOpt o = opt(c, 9);
    TreeSpec t = treespec(c.r, o, 1, c.r.chance(0.1) ? 30 : 12);
    Tree T = ktree(t);
    TreeFkSolverPos_recursive fk(T);
    c.desc = fmt("tree of %zu segments, %d joints", t.segs.size(), t.n);
    for (int rep = 0; rep < 2; rep++) {
        ref::VecR q = jv(c, t.n); JntArray kj = kq(q), keep(kj);
        double mag = 1; for (auto x : q) mag = std::max(mag, double(fabsl(x)));
        for (size_t i = 0; i < t.segs.size(); i++) {
            ref::T4 e = ref::fk(t.chainTo(int(i)), t.sub(int(i), q));
            Frame F = kframe(c.r);
            c.ok(fk.JntToCart(kj, F, t.segs[i].name) == 0, "status");
            eq(c, rt(F), e, 3e-14 * (mag + double(ref::norm(e.p))) * (8 + double(t.segs.size())), "pose");
            c.cover(fmt("depth%zu", std::min<size_t>(t.path(int(i)).size(), 12)));
        }
        Frame F = kframe(c.r);
        c.ok(fk.JntToCart(kj, F, t.root) == 0, "root.status"); eq(c, rt(F), ref::T4(), 0, "root.pose");
        c.ok(fk.JntToCart(kj, F, "no such segment") < 0, "reject.name");
        JntArray bad(t.n + 1); c.ok(fk.JntToCart(bad, F, t.segs[0].name) < 0, "reject.size");
        if (t.n > 0) { JntArray sm(t.n - 1); c.ok(fk.JntToCart(sm, F, t.segs.back().name) < 0, "reject.size"); }
        c.ok(kj.data == keep.data, "input-untouched");
    }
}
int main(int argc, char** argv) {
    Harness H("C10", argc, argv);
    H.rule("chains", 12000, chains);
    H.rule("trees", 8000, trees);
    return H.finish();
}
