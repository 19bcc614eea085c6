// C23: every solver speaks the same protocol: sizes, segment numbers and changed
// chains are checked before anything is touched, codes are returned, recorded and
// explained, and after updateInternalDataStructures a solver is as good as new.
#include "solvers.hpp"
#include <set>
using namespace gen; using namespace sol;
using vh::Case; using vh::Harness; using vh::fmt;
static ref::ChainSpec arm(Case& c, int minj = 1) { ChainOpt o; o.minSeg = 1; o.maxSeg = c.r.chance(0.8) ? 5 : 9; o.pFixed = c.r.chance(0.4) ? 0 : 0.3; ref::ChainSpec sp; do sp = chain(c.r, o); while (ref::nj(sp) < minj); for (auto& s : sp) s.ftip = rt(kf(s.ftip)); return sp; }
static const int SIZE = SolverI::E_SIZE_MISMATCH, STALE = SolverI::E_NOT_UP_TO_DATE, RANGE = SolverI::E_OUT_OF_RANGE, NIMP = SolverI::E_NOT_IMPLEMENTED;
static int err(const Solver& S, int rc) { return S.s ? S.s->getError() : rc; }
static const char* text(const Solver& S, int rc) { return S.s ? S.s->strError(rc) : "not accessible"; }
static bool known(const Solver& S, int rc) { return std::find(S.codes.begin(), S.codes.end(), rc) != S.codes.end(); }
static void verdict(Case& c, const Solver& S, const Op& o, int rc, int want, const char* key, const std::string& what) {
    c.okf(rc == want, key, [&] { return S.name + "." + o.name + fmt(" returned %d, expected %d: ", rc, want) + what; });
    c.okf(err(S, rc) == rc, "recorded", [&] { return S.name + "." + o.name + fmt(" returned %d but getError() is %d", rc, err(S, rc)); });
    const char* t = text(S, rc); c.okf(t && *t && std::string(t) != "UNKNOWN ERROR", "explained", [&] { return S.name + fmt(" cannot explain its own code %d", rc); });
}
static int expected(const ref::ChainSpec& sp, const Solver& S, const Op& o, const Args& a) {   // 0 = one of the solver's own outcomes
    if (o.onlyCode != 1000) return o.onlyCode; if (S.name == "hd" && a.n != a.ns) return NIMP; if (o.vec && a.seg == 0) return RANGE; return 0;
}
// the right call: an outcome of the solver, and the same numbers as a solver that has seen nothing
static void right(Case& c, const ref::ChainSpec& sp, const Chain& ch, Solver& S, size_t k, const Cfg& cf, const char* after) {
    Op& o = S.ops[k]; Args a = args(c.r, sp, cf, o.jdot), b = a; Out in = inputs(a); int want = expected(sp, S, o, a), rc = o.call(a);
    if (want) verdict(c, S, o, rc, want, "unsupported", after);
    else { c.okf(known(S, rc), "outcome", [&] { return S.name + "." + o.name + fmt(" returned %d after ", rc) + after; }); c.okf(err(S, rc) == rc, "recorded", [&] { return S.name + "." + o.name + fmt(" returned %d but getError() is %d", rc, err(S, rc)); }); const char* t = text(S, rc); c.ok(t && std::string(t) != "UNKNOWN ERROR", "explained", S.name); }
    c.okf(same(in, inputs(a)), "inputs", [&] { return S.name + "." + o.name + " changed its inputs: " + differ(inputs(a), in); });
    if (!S.history && !want) { Solver N = make(S.name, ch, cf); int e = N.apply(cf); c.ok(e == 0, "configure", S.name + fmt(": %d", e)); int r2 = N.ops[k].call(b); Out x, y; o.read(a, x); N.ops[k].read(b, y); c.okf(rc == r2 && same(x, y), std::string("as-new.") + after, [&] { return S.name + "." + o.name + fmt(": returned %d, a new solver %d; ", rc, r2) + differ(x, y); }); c.cover(S.name + "." + o.name + fmt(" = %d", rc)); }
}
static void calls(Case& c) {
    ref::ChainSpec sp = arm(c); Chain ch = kchain(sp); c.desc = describe(sp); Cfg cf = cfg(c.r, ref::nj(sp)); int n = ref::nj(sp);
    for (auto& kind : kinds()) {
        Solver S = make(kind, ch, cf); if (S.s) c.ok(S.s->getError() == 0, "initial", kind); int e = S.apply(cf); c.ok(e == 0, "configure", kind + fmt(": %d", e)); if (S.s) c.ok(S.s->getError() == 0, "initial", kind);
        for (size_t k = 0; k < S.ops.size(); k++) {
            Op& o = S.ops[k]; right(c, sp, ch, S, k, cf, "set-up");
            for (auto& sl : o.slots) for (int rep = 0; rep < 2; rep++) {
                Args a = args(c.r, sp, cf, o.jdot); int z = sl.size(a); static const int d[] = {1, -1, 3, -1000}; int w = std::max(0, z + d[c.r.below(4)]); if (w == z) w = z + 1; sl.set(a, w); int pre = expected(sp, S, o, a); if (o.vec && a.seg == 0) continue;
                int rc = o.call(a); verdict(c, S, o, rc, pre ? pre : SIZE, "size", sl.name + fmt(" of size %d instead of %d", w, z)); c.cover("size:" + S.name + "." + o.name + "." + sl.name);
                if (rep) right(c, sp, ch, S, k, cf, "refused-size");
            }
            if (o.seg) for (int bad : {int(sp.size()) + 1, int(sp.size()) + c.r.range(2, 50)}) { Args a = args(c.r, sp, cf, o.jdot); a.seg = bad; a.Fs.resize(bad); a.FVs.resize(bad); verdict(c, S, o, o.call(a), RANGE, "segment", fmt("segment %d of %zu", bad, sp.size())); right(c, sp, ch, S, k, cf, "refused-segment"); }
        }
        // settings of the wrong size
        for (int d : {1, -1}) { Cfg b = cfg(c.r, std::max(0, n + d)); if (kind == "jac" || kind == "jacdot" || kind == "nso" || kind == "nrjl" || kind == "wdls") { int e = S.apply(b); c.okf(e == SIZE && S.s->getError() == SIZE, "setting.size", [&] { return kind + fmt(": returned %d, getError() %d for settings of %d joints instead of %d", e, S.s->getError(), n + d, n); }); e = S.apply(cf); c.ok(e == 0, "configure", kind); for (size_t k = 0; k < S.ops.size(); k++) right(c, sp, ch, S, k, cf, "refused-setting"); } }
    }
}
static void stale(Case& c) {
    ref::ChainSpec sp = arm(c); Chain ch = kchain(sp); Cfg cf = cfg(c.r, ref::nj(sp)); std::vector<Solver> all; for (auto& k : kinds()) { all.push_back(make(k, ch, cf)); all.back().apply(cf); if (c.r.chance(0.5)) for (size_t i = 0; i < all.back().ops.size(); i++) right(c, sp, ch, all.back(), i, cf, "set-up"); }
    for (int round = 0; round < 3; round++) {
        ref::ChainSpec old = sp; int on = ref::nj(sp), os = int(sp.size()), how = c.r.below(5);
        ChainOpt o; if (how == 0) { o.pFixed = 0; auto s = segment(c.r, o, "x"); s.ftip = rt(kf(s.ftip)); sp.push_back(s); ch.addSegment(ksegment(s)); }
        else if (how == 1) { auto s = segment(c.r, o, "x"); s.j = ref::JointSpec(); s.j.name = "xf"; s.j.type = ref::Fixed; s.ftip = rt(kf(s.ftip)); sp.push_back(s); ch.addSegment(ksegment(s)); }
        else if (how == 2) { auto x = arm(c, 0); Chain k = kchain(x); ch.addChain(k); for (auto& s : x) sp.push_back(s); }
        else if (how == 3) { sp = arm(c); ch = kchain(sp); }
        else { do sp = arm(c); while (ref::nj(sp) == on); while (int(sp.size()) < os) { auto s = segment(c.r, o, "x"); s.j = ref::JointSpec(); s.j.name = "xf"; s.j.type = ref::Fixed; s.ftip = rt(kf(s.ftip)); sp.push_back(s); } ch = kchain(sp); }   // e.g. as many segments, but other joints
        int n = ref::nj(sp), ns = int(sp.size()); c.desc = describe(old) + " -> " + describe(sp); Cfg c2 = cfg(c.r, n); c2.nc = cf.nc; c2.eps = cf.eps; c2.positer = cf.positer; c2.g = cf.g; c2.freq = cf.freq; c2.gain = cf.gain; c2.filt = cf.filt; c.cover(fmt("joints%s segments%s", n > on ? "+" : n < on ? "-" : "=", ns > os ? "+" : ns < os ? "-" : "="));
        for (auto& S : all) {
            for (size_t k = 0; k < S.ops.size(); k++) {
                Op& o = S.ops[k]; if (o.onlyCode != 1000) continue; bool must = o.stale == 1 ? n != on : o.stale == 2 ? (n != on || ns != os) : false;
                if (must) { for (int rep = 0; rep < 2; rep++) { Args a = args(c.r, rep ? old : sp, rep ? cf : c2, o.jdot); Out in = inputs(a); verdict(c, S, o, o.call(a), STALE, "stale", rep ? "arguments for the old chain" : "arguments for the new chain"); c.ok(same(in, inputs(a)), "inputs", S.name); c.cover("stale:" + S.name + "." + o.name); } }
                else if (o.stale == 0) right(c, sp, ch, S, k, c2, "chain-change");
            }
            if (n != on && (S.name == "jac" || S.name == "jacdot" || S.name == "wdls" || S.name == "nso" || S.name == "nrjl")) { int e = S.apply(c2); c.okf(e == STALE || e == SIZE, "stale.setting", [&] { return S.name + fmt(" accepted settings for a chain it has not been updated to (%d)", e); }); }
            update(S); if (c.r.chance(0.2)) update(S); int e = S.apply(c2); c.okf(e == 0, "update.configure", [&] { return S.name + fmt(": %d", e); });
            for (size_t k = 0; k < S.ops.size(); k++) for (int rep = 0; rep < 2; rep++) right(c, sp, ch, S, k, c2, "update");
        }
        cf = c2;
    }
}
// every code of every solver has its own explanation, and only those do
static void codes(Case& c) {
    ref::ChainSpec sp = arm(c); Chain ch = kchain(sp); Cfg cf = cfg(c.r, ref::nj(sp)); static const int sys[] = {1, 0, -1, -2, -3, -4, -5, -6, -7, -8};
    for (auto& kind : kinds()) { Solver S = make(kind, ch, cf); if (!S.s) continue; std::map<std::string, int> seen; std::set<int> mine(S.codes.begin(), S.codes.end()); for (int z : sys) mine.insert(z);
        for (int e = -200; e <= 200; e++) { const char* t = S.s->strError(e); if (!c.ok(t && *t, "text.exists", kind)) continue; std::string x = t; c.okf((x == "UNKNOWN ERROR") == !mine.count(e), "text.known", [&] { return kind + fmt(" calls code %d \"%s\"", e, t); }); if (x != "UNKNOWN ERROR") { c.okf(!seen.count(x), "text.distinct", [&] { return kind + fmt(" calls codes %d and %d both \"%s\"", seen[x], e, t); }); seen[x] = e; } }
        c.ok(S.s->getError() == 0, "text.pure", kind); }
}
int main(int argc, char** argv) {
    Harness H("C23", argc, argv);
    H.rule("calls", 250, calls); H.rule("stale", 250, stale); H.rule("codes", 30, codes);
    return H.finish();
}
