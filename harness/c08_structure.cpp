// C08: chains and trees as containers of segments: random edit histories are
// replayed on a plain model; after every step the whole observable structure
// (counts, names, parents, children, joint numbers, segment contents) is compared.
#include "gen.hpp"
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
struct Node { std::string name, parent; int q; int stamp; std::vector<std::string> kids; };
struct Model {
    std::string root;
    std::map<std::string, Node> n;
    int nj = 0;
    explicit Model(const std::string& r = "root") : root(r) { n[r] = Node{r, "", 0, -1, {}}; }
    bool add(const std::string& nm, const std::string& hook, bool fixed, int stamp) {
        if (!n.count(hook) || n.count(nm)) return false;
        n[nm] = Node{nm, hook, fixed ? -1 : nj, stamp, {}};
        n[hook].kids.push_back(nm);
        if (!fixed) nj++;
        return true;
    }
};
// every generated segment carries its identity in its mass
static std::vector<bool> fixedOf;
static Segment seg(Case& c, const std::string& nm, int& stamp) {
    ChainOpt o; o.inertia = false; o.pFixed = 0.3;
    ref::SegSpec s = segment(c.r, o, nm);
    stamp = int(fixedOf.size());
    fixedOf.push_back(s.j.fixed());
    s.m = stamp + 1;
    return ksegment(s);
}
static int stampOf(const Segment& s) { return int(s.getInertia().getMass()) - 1; }
static void same(Case& c, const Tree& t, const Model& m, const std::string& tag) {
    c.okf(t.getNrOfSegments() == m.n.size() - 1, tag + ".segments", [&] { return fmt("%u segments, expected %zu", t.getNrOfSegments(), m.n.size() - 1); });
    c.okf(t.getNrOfJoints() == unsigned(m.nj), tag + ".joints", [&] { return fmt("%u joints, expected %d", t.getNrOfJoints(), m.nj); });
    const SegmentMap& S = t.getSegments();
    if (!c.okf(S.size() == m.n.size(), tag + ".map-size", [&] { return fmt("%zu entries, expected %zu", S.size(), m.n.size()); })) return;
    SegmentMap::const_iterator root = t.getRootSegment();
    if (!c.ok(root != S.end() && root->first == m.root, tag + ".root")) return;
    std::set<int> used;
    for (auto& kv : m.n) {
        const Node& nd = kv.second;
        SegmentMap::const_iterator it = t.getSegment(nd.name);
        if (!c.okf(it != S.end(), tag + ".present", [&] { return nd.name; })) continue;
        const auto& kids = GetTreeElementChildren(it->second);
        if (c.okf(kids.size() == nd.kids.size(), tag + ".nr-children", [&] { return nd.name; }))
            for (size_t i = 0; i < kids.size(); i++) c.okf(kids[i]->first == nd.kids[i] && &kids[i]->second == &t.getSegment(nd.kids[i])->second, tag + ".children", [&] { return nd.name + " child " + kids[i]->first + " expected " + nd.kids[i]; });
        if (nd.name == m.root) continue;
        c.okf(GetTreeElementParent(it->second) == t.getSegment(nd.parent), tag + ".parent", [&] { return nd.name; });
        const Segment& sg = GetTreeElementSegment(it->second);
        c.okf(sg.getName() == nd.name && stampOf(sg) == nd.stamp, tag + ".content", [&] { return fmt("%s holds segment %d expected %d", nd.name.c_str(), stampOf(sg), nd.stamp); });
        if (nd.q >= 0) {
            c.okf(int(GetTreeElementQNr(it->second)) == nd.q, tag + ".joint-number", [&] { return fmt("%s has joint number %u expected %d", nd.name.c_str(), GetTreeElementQNr(it->second), nd.q); });
            c.ok(int(GetTreeElementQNr(it->second)) < m.nj && used.insert(int(GetTreeElementQNr(it->second))).second, tag + ".joint-numbers-distinct");
        }
    }
}
static void addRec(Model& m, const Model& src, const std::string& from, const std::string& hook, bool& ok) {
    std::vector<std::string> kids = src.n.at(from).kids;
    for (auto& k : kids) {
        if (!ok) return;
        const Node& nd = src.n.at(k);
        if (!m.add(k, hook, nd.q < 0, nd.stamp)) { ok = false; return; }
        addRec(m, src, k, k, ok);
    }
}
static void trees(Case& c) {
    fixedOf.clear();
    const int NT = 3;
    std::vector<Tree> T; std::vector<Model> M;
    static const char* roots[] = {"root", "base", "a"};
    for (int i = 0; i < NT; i++) { T.push_back(Tree(roots[i])); M.push_back(Model(roots[i])); }
    bool big = c.r.chance(0.06); if (big) c.cover("big trees");
    auto name = [&] { std::string n(1, char('a' + c.r.below(20))); if (big) n += std::to_string(c.r.below(40)); return n; };
    auto existing = [&](const Model& m) { auto it = m.n.begin(); std::advance(it, c.r.below(int(m.n.size()))); return it->first; };
    auto hookOf = [&](const Model& m) { return c.r.chance(0.1) ? std::string("nowhere") : existing(m); };
    int steps = c.r.range(5, big ? 90 : 30);
    std::string log;
    for (int s = 0; s < steps; s++) {
        int i = c.r.below(NT), k = c.r.below(NT);
        switch (c.r.below(12)) {
        default: { // add a segment
            std::string nm = name(), hk = hookOf(M[i]); int st; Segment sg = seg(c, nm, st);
            log += fmt("add(%d,%s->%s) ", i, nm.c_str(), hk.c_str());
            bool r = T[i].addSegment(sg, hk), e = M[i].add(nm, hk, fixedOf[st], st);
            c.okf(r == e, "addSegment.result", [&] { return log; });
            break; }
        case 6: { // add a chain: stops at the first segment that does not fit
            Chain ch; std::string hk = hookOf(M[i]), at = hk; bool e = true;
            int n = c.r.range(0, big ? 25 : 4);
            log += fmt("chain(%d,%d at %s) ", i, n, hk.c_str());
            std::vector<std::pair<std::string, int>> v;
            for (int q = 0; q < n; q++) { int st; std::string nm = name() + name(); ch.addSegment(seg(c, nm, st)); v.push_back({nm, st}); }
            for (auto& x : v) { if (!M[i].add(x.first, at, fixedOf[x.second], x.second)) { e = false; break; } at = x.first; }
            c.okf(T[i].addChain(ch, hk) == e, "addChain.result", [&] { return log; });
            break; }
        case 7: { // graft another tree
            if (i == k) break;
            std::string hk = hookOf(M[i]);
            log += fmt("graft(%d<-%d at %s) ", i, k, hk.c_str());
            bool e = true; addRec(M[i], M[k], M[k].root, hk, e);
            c.okf(T[i].addTree(T[k], hk) == e, "addTree.result", [&] { return log; });
            break; }
        case 8: log += fmt("assign(%d=%d) ", i, k); T[i] = T[k]; M[i] = M[k]; break;
        case 9: { log += fmt("copy(%d=%d) ", i, k); Tree cp(T[k]); same(c, cp, M[k], "copy"); Tree cp2(cp); T[i] = cp2; M[i] = M[k]; break; }
        case 10: { // subtree; k == i extracts into the tree itself
            std::string nm = c.r.chance(0.1) ? "nowhere" : existing(M[k]);
            log += fmt("sub(%d=%d from %s) ", i, k, nm.c_str());
            Model sub(nm); bool e = M[k].n.count(nm) > 0;
            if (e) { addRec(sub, M[k], nm, nm, e); }
            bool r = T[k].getSubTree(nm, T[i]);
            c.okf(r == e, "getSubTree.result", [&] { return log; });
            if (M[k].n.count(nm)) M[i] = sub;
            break; }
        case 11: { // self graft: the names collide, nothing may change
            log += fmt("selfgraft(%d) ", i);
            bool has = !M[i].n[M[i].root].kids.empty();
            c.ok(T[i].addTree(T[i], M[i].root) == !has, "addTree.self", log);
            break; }
        }
        c.desc = log;
        for (int t = 0; t < NT; t++) same(c, T[t], M[t], "tree");
    }
    // a chain between two segments lists the segments between them
    for (int q = 0; q < 3; q++) {
        int i = c.r.below(NT);
        std::string a = c.r.chance(0.1) ? "nowhere" : existing(M[i]), b = c.r.chance(0.1) ? "nowhere" : existing(M[i]);
        Chain ch; int junk; ch.addSegment(seg(c, "junk", junk));
        bool r = T[i].getChain(a, b, ch), e = M[i].n.count(a) && M[i].n.count(b);
        c.okf(r == e, "getChain.result", [&] { return log + a + "->" + b; });
        if (!e) continue;
        auto up = [&](std::string x) { std::vector<std::string> p; while (true) { p.push_back(x); if (x == M[i].root) break; x = M[i].n[x].parent; } return p; };
        auto A = up(a), B = up(b); std::string common = M[i].root;
        while (!A.empty() && !B.empty() && A.back() == B.back()) { common = A.back(); A.pop_back(); B.pop_back(); }
        std::vector<std::string> names; int joints = 0;
        A.push_back(common);
        for (size_t x = 0; x + 1 < A.size(); x++) { names.push_back(A[x + 1]); joints += M[i].n[A[x]].q >= 0; }
        for (size_t x = B.size(); x-- > 0;) { names.push_back(B[x]); joints += M[i].n[B[x]].q >= 0; }
        if (c.okf(ch.getNrOfSegments() == names.size(), "getChain.length", [&] { return log + a + "->" + b; })) {
            for (size_t x = 0; x < names.size(); x++) c.okf(ch.getSegment(unsigned(x)).getName() == names[x], "getChain.names", [&] { return ch.getSegment(unsigned(x)).getName() + " expected " + names[x]; });
            c.ok(int(ch.getNrOfJoints()) == joints, "getChain.joints");
        }
    }
}
static void chains(Case& c) {
    fixedOf.clear();
    const int N = 3;
    std::vector<Chain> C(N); std::vector<std::vector<int>> M(N);
    auto same = [&](const char* tag) {
        for (int i = 0; i < N; i++) {
            int j = 0; for (int s : M[i]) j += !fixedOf[s];
            c.okf(C[i].getNrOfSegments() == M[i].size(), std::string(tag) + ".segments", [&] { return fmt("%u expected %zu", C[i].getNrOfSegments(), M[i].size()); });
            c.okf(int(C[i].getNrOfJoints()) == j, std::string(tag) + ".joints", [&] { return fmt("%u expected %d", C[i].getNrOfJoints(), j); });
            if (C[i].getNrOfSegments() == M[i].size()) for (size_t k = 0; k < M[i].size(); k++) {
                const Chain& cc = C[i];
                c.ok(stampOf(cc.getSegment(unsigned(k))) == M[i][k] && stampOf(C[i].getSegment(unsigned(k))) == M[i][k] && stampOf(cc.segments[k]) == M[i][k], std::string(tag) + ".order");
            }
        }
    };
    int steps = c.r.range(3, 25);
    std::string log;
    for (int s = 0; s < steps; s++) {
        int i = c.r.below(N), k = c.r.below(N);
        switch (c.r.below(8)) {
        default: { int st; C[i].addSegment(seg(c, "s", st)); M[i].push_back(st); log += fmt("add%d ", i); break; }
        case 4: { if (M[i].size() + M[k].size() > 40) break; log += fmt("append(%d,%d) ", i, k); std::vector<int> x = M[k]; C[i].addChain(C[k]); M[i].insert(M[i].end(), x.begin(), x.end()); break; }
        case 5: log += fmt("assign(%d,%d) ", i, k); C[i] = C[k]; M[i] = M[k]; break;
        case 6: { log += fmt("copy(%d,%d) ", i, k); Chain cp(C[k]); C[i] = cp; M[i] = M[k]; break; }
        case 3: if (!M[i].empty()) { unsigned x = unsigned(c.r.below(int(M[i].size()))); log += fmt("dup(%d,%u) ", i, x); C[i].addSegment(C[i].getSegment(x)); int st = M[i][x]; M[i].push_back(st); } break;
        case 7: { log += fmt("swap(%d,%d) ", i, k); std::swap(C[i], C[k]); std::swap(M[i], M[k]); break; }
        }
        c.desc = log;
        same("chain");
    }
}
int main(int argc, char** argv) {
    Harness H("C08", argc, argv);
    H.rule("trees", 4000, trees);
    H.rule("chains", 6000, chains);
    return H.finish();
}
