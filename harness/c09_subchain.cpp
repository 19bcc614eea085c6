// C09: a chain or subtree taken out of a tree, and a tree or chain grafted onto
// one, describe the same mechanism: same relative poses, velocities, joint
// parameters and bodies for the same joint positions.
#include "gen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainjnttojacsolver.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treejnttojacsolver.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
static ref::T4 pose(const TreeSpec& t, int i, const ref::VecR& q) { return i < 0 ? ref::T4() : ref::fk(t.chainTo(i), t.sub(i, q)); }
static void subchain(Case& c) {
    ChainOpt o; o.pFixed = 0.2; o.rotorInertia = true;
    TreeSpec t = treespec(c.r, o, 2, 10);
    Tree T = ktree(t);
    ref::VecR q = joints(c.r, t.n), qd = joints(c.r, t.n, 2);
    for (int rep = 0; rep < 3; rep++) {
        int a = c.r.range(-1, int(t.segs.size()) - 1), b = c.r.range(-1, int(t.segs.size()) - 1);
        std::string na = a < 0 ? t.root : t.segs[a].name, nb = b < 0 ? t.root : t.segs[b].name;
        c.desc = na + " -> " + nb;
        Chain ch;
        if (!c.ok(T.getChain(na, nb, ch), "getChain")) return;
        std::vector<int> pa = a < 0 ? std::vector<int>() : t.path(a), pb = b < 0 ? std::vector<int>() : t.path(b);
        size_t k = 0; while (k < pa.size() && k < pb.size() && pa[k] == pb[k]) k++;
        // the joints on the way, up then down; and the frames they lead to
        std::vector<int> up(pa.rbegin(), pa.rbegin() + long(pa.size() - k)), down(pb.begin() + long(k), pb.end());
        std::vector<int> seg(up); seg.insert(seg.end(), down.begin(), down.end());
        std::vector<int> frames; for (int i : up) frames.push_back(t.parent[i]); for (int i : down) frames.push_back(i);
        if (!c.ok(ch.getNrOfSegments() == seg.size(), "nr-segments")) return;
        ref::VecR cq, cqd;
        for (int i : seg) if (t.qnr[i] >= 0) { cq.push_back(q[t.qnr[i]]); cqd.push_back(qd[t.qnr[i]]); }
        if (!c.ok(ch.getNrOfJoints() == cq.size(), "nr-joints")) return;
        c.cover(up.empty() ? "downwards" : down.empty() ? "upwards" : "across");
        ChainFkSolverPos_recursive fk(ch);
        JntArray kq_ = kq(cq);
        ref::T4 A = pose(t, a, q);
        for (size_t i = 0; i <= seg.size(); i++) {
            Frame F; c.ok(fk.JntToCart(kq_, F, int(i)) == 0, "fk.status");
            int f = i == 0 ? a : frames[i - 1];
            eq(c, rt(F), ref::inv(A) * pose(t, f, q), 1e-11, up.empty() ? "pose.down" : "pose.up", fmt("segment %zu of %zu", i, seg.size()));
        }
        for (size_t i = 0; i < seg.size(); i++) {
            const Segment& s = ch.getSegment(unsigned(i));
            const ref::JointSpec& j = t.segs[seg[i]].j;
            std::string tag = i < up.size() ? "reversed." : "forward.";
            c.ok(s.getName() == (frames[i] < 0 ? t.root : t.segs[frames[i]].name), tag + "name");
            c.ok(s.getJoint().getName() == j.name, tag + "joint-name");
            c.ok((s.getJoint().getType() == Joint::Fixed) == j.fixed(), tag + "joint-kind");
            if (!j.fixed()) {
                c.near(s.getJoint().getInertia(), double(j.inertia), 0, tag + "joint-inertia"); c.near(s.getJoint().getDamping(), double(j.damping), 0, tag + "joint-damping");
                c.near(s.getJoint().getStiffness(), double(j.stiffness), 0, tag + "joint-stiffness"); c.near(fabs(s.getJoint().getScale()), fabs(double(j.scale)), 0, tag + "joint-scale");
            }
            ref::SegSpec bdy; if (frames[i] >= 0) bdy = t.segs[frames[i]];
            c.near(s.getInertia().getMass(), double(bdy.m), 0, tag + "mass");
            if (bdy.m > 0) eq(c, rv(s.getInertia().getCOG()), bdy.cog, 1e-13, tag + "cog");
        }
        // velocity of b relative to a, seen from a
        FrameVel V; ChainFkSolverVel_recursive fv(ch);
        JntArrayVel qv(kq_, kq(cqd));
        if (c.ok(fv.JntToCart(qv, V) == 0, "vel.status")) {
            const ref::R h = 1e-5L;
            ref::VecR qp(q), qm(q); for (size_t i = 0; i < q.size(); i++) { qp[i] += h * qd[i]; qm[i] -= h * qd[i]; }
            ref::T4 X = ref::inv(A) * pose(t, b, q), P = ref::inv(pose(t, a, qp)) * pose(t, b, qp), M = ref::inv(pose(t, a, qm)) * pose(t, b, qm);
            ref::M3 W = ((P.M - M.M) * (1 / (2 * h))) * ref::T(X.M);
            eq(c, rs(V.GetTwist()), ref::S6((P.p - M.p) / (2 * h), ref::V3(W[2][1], W[0][2], W[1][0])), 1e-6, up.empty() ? "vel.down" : "vel.up");
        }
    }
}
static void subtree(Case& c) {
    ChainOpt o; o.pFixed = 0.2; o.rotorInertia = true; o.pFixed = c.r.chance(0.1) ? 1.0 : 0.2;
    TreeSpec t = treespec(c.r, o, 1, 12);
    Tree T = ktree(t);
    ref::VecR q = joints(c.r, t.n);
    int a = c.r.range(-1, int(t.segs.size()) - 1);
    std::string na = a < 0 ? t.root : t.segs[a].name;
    c.desc = "subtree of " + na + fmt(" (%zu segments)", t.segs.size());
    Tree S;
    if (!c.ok(T.getSubTree(na, S), "getSubTree")) return;
    Tree copy(T), grafted("world");
    // graft onto a moving stub
    ref::SegSpec stub = segment(c.r, o, "stub");
    grafted.addSegment(ksegment(stub), "world");
    bool hasStub = !stub.j.fixed();
    c.ok(grafted.addTree(T, "stub"), "addTree");
    double qs = c.r.uni(-2, 2);
    // each tree's joint vector is filled through the numbers it reports itself
    auto fill = [&](const Tree& X, const JntArray* extra) { (void)extra; JntArray v(X.getNrOfJoints()); for (auto& kv : X.getSegments()) { const std::string& n = kv.first; if (GetTreeElementSegment(kv.second).getJoint().getType() == Joint::Fixed) continue; int i = t.find(n); v(GetTreeElementQNr(kv.second)) = i >= 0 ? double(q[t.qnr[i]]) : qs; } return v; };
    auto tree_pose = [&](Tree& X, const JntArray& v, const std::string& n, ref::T4& out) { TreeFkSolverPos_recursive fk(X); Frame F; int r = fk.JntToCart(v, F, n); out = rt(F); return r; };
    JntArray vs = fill(S, nullptr), vc = kq(q), vg = fill(grafted, nullptr);
    ref::T4 A = pose(t, a, q), St = stub.pose(hasStub ? qs : 0);
    for (size_t i = 0; i < t.segs.size(); i++) {
        ref::T4 x;
        std::vector<int> p = t.path(int(i));
        bool under = a < 0 || std::find(p.begin(), p.end(), a) != p.end();
        if (under && int(i) != a) { if (c.ok(tree_pose(S, vs, t.segs[i].name, x) >= 0, "subtree.status")) eq(c, x, ref::inv(A) * pose(t, int(i), q), 1e-11, "subtree.pose"); }
        else if (!under) c.ok(S.getSegment(t.segs[i].name) == S.getSegments().end(), "subtree.excludes");
        if (c.ok(tree_pose(T, vc, t.segs[i].name, x) >= 0, "tree.status")) eq(c, x, pose(t, int(i), q), 1e-11, "tree.pose");
        if (c.ok(tree_pose(copy, vc, t.segs[i].name, x) >= 0, "copy.status")) eq(c, x, pose(t, int(i), q), 1e-11, "copy.pose");
        if (c.ok(tree_pose(grafted, vg, t.segs[i].name, x) >= 0, "graft.status")) eq(c, x, St * pose(t, int(i), q), 1e-11, "graft.pose");
        // and as a chain appended to the stub
        Chain ch; T.getChain(t.root, t.segs[i].name, ch);
        Chain two; two.addSegment(ksegment(stub)); two.addChain(ch);
        ref::VecR v; if (hasStub) v.push_back(qs); for (auto z : t.sub(int(i), q)) v.push_back(z);
        ChainFkSolverPos_recursive fk(two); Frame F;
        if (c.ok(fk.JntToCart(kq(v), F) >= 0, "append.status")) eq(c, rt(F), St * pose(t, int(i), q), 1e-11, "append.pose");
    }
}
int main(int argc, char** argv) {
    Harness H("C09", argc, argv);
    H.rule("subchain", 6000, subchain);
    H.rule("subtree", 4000, subtree);
    return H.finish();
}
