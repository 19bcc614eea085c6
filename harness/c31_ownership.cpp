// C31: every object handed over is deleted exactly once by its owner and every other
// one never; whatever is built, refused, cloned, copied or half read gives back all
// memory. ASan watches the accesses, its allocation hooks the balance, counted parts the owners.
#include "solvers.hpp"
#include "jntspaceinertiamatrix.hpp"
#include "path_circle.hpp"
#include "path_composite.hpp"
#include "path_cyclic_closed.hpp"
#include "path_line.hpp"
#include "path_point.hpp"
#include "path_roundedcomposite.hpp"
#include "rotational_interpolation_sa.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_stationary.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treejnttojacsolver.hpp"
#include "utilities/error.h"
#include "utilities/error_stack.h"
#include "velocityprofile_dirac.hpp"
#include "velocityprofile_rect.hpp"
#include "velocityprofile_spline.hpp"
#include "velocityprofile_trap.hpp"
#include "velocityprofile_traphalf.hpp"
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
using namespace gen;
using vh::Case; using vh::Harness; using vh::Rng; using vh::fmt;
using namespace KDL;
// ---- which blocks of a scenario are still allocated
namespace bal {
static const size_t N = 1 << 18; static const void* slot[N]; static bool armed = false; static long live = 0, total = 0, most = 0;
static const void* const GONE = (const void*)1;
static size_t at(const void* p) { return (uint64_t(p) >> 4) * 0x9E3779B97F4A7C15ull >> 46; }
static void in(const volatile void* vp, size_t) { if (!armed || !vp) return; const void* p = const_cast<const void*>(vp); total++; if (live > long(N / 2)) return; for (size_t i = at(p);; i = (i + 1) % N) if (!slot[i] || slot[i] == GONE || slot[i] == p) { slot[i] = p; break; } if (++live > most) most = live; }
static void out(const volatile void* vp) { if (!armed || !vp) return; const void* p = const_cast<const void*>(vp); for (size_t i = at(p), k = 0; slot[i] && k < N; i = (i + 1) % N, k++) if (slot[i] == p) { slot[i] = GONE; live--; return; } }
static void start() { memset(slot, 0, sizeof slot); live = total = most = 0; armed = true; }
static std::string leak() { for (size_t i = 0; i < N; i++) if (slot[i] && slot[i] != GONE) { void* t[16]; int id, n = __asan_get_alloc_stack((void*)slot[i], t, 16, &id); std::string o; for (int k = 0; k < n && o.size() < 400; k++) { char b[300]; __sanitizer_symbolize_pc(t[k], "%f %s:%l", b, sizeof b); std::string s = b; if (s.find("orocos_kdl") != std::string::npos || s.find("c31_") != std::string::npos) o += s.substr(0, s.find('(')) + " at" + s.substr(s.rfind('/')) + " < "; } return o; } return ""; }
}
// ---- counted parts
static int nlive = 0, doubled = 0; static std::set<const void*> alive_;
struct Counted { Counted() { bool a = bal::armed; bal::armed = false; alive_.insert(this); bal::armed = a; } Counted(const Counted&) : Counted() {} ~Counted() { bool a = bal::armed; bal::armed = false; if (!alive_.erase(this)) doubled++; bal::armed = a; } };
struct CI : RotationalInterpolation_SingleAxis, Counted { RotationalInterpolation* Clone() const override { return new CI(); } };
struct CL : Path_Line, Counted { CL(const Frame& a, const Frame& b, RotationalInterpolation* o, double e, bool g) : Path_Line(a, b, o, e, g) {} };
struct TV : VelocityProfile_Trap, Counted { TV(double v, double a) : VelocityProfile_Trap(v, a) {} VelocityProfile* Clone() const override { TV* t = new TV(1, 1); t->SetProfileDuration(Pos(0), Pos(Duration()), Duration()); return t; } };
struct TT : Trajectory_Stationary, Counted { TT(double d, const Frame& f) : Trajectory_Stationary(d, f) {} Trajectory* Clone() const override { return new TT(Duration(), Pos(0)); } };
static const char* wrong = nullptr; static void bad(const char* w) { if (!wrong) wrong = w; }
static bool lives(const Counted* c) { return alive_.count(c); }
static long refused = 0, cloned = 0, kept_ = 0, built = 0;
static Vector rvec(Rng& r) { return kv(vec(r, 1)); }
// ---- a scene of paths, profiles and trajectories that own each other or not
struct Scene {
    Rng& r; struct Loose { RotationalInterpolation* p = nullptr; Path* path = nullptr; VelocityProfile* v = nullptr; const Counted* c = nullptr; }; std::vector<Path*> pool; std::vector<Trajectory*> traj; std::vector<Loose> loose;  // loose: outlives its users, deleted by us
    Scene(Rng& x) : r(x) {}
    Path* take() { size_t i = r.below(pool.size()); Path* p = pool[i]; pool.erase(pool.begin() + i); return p; }
    void keep(RotationalInterpolation* o, const Counted* c) { Loose l; l.p = o; l.c = c; loose.push_back(l); kept_++; }
    void path() {
        double eq = r.uni(0.1, 2); bool own = r.chance(0.6); Frame a = kframe(r, 1); int k = r.below(pool.empty() ? 4 : 7); built++;
        switch (k) {
        case 0: { CI* o = new CI(); pool.push_back(new CL(a, kframe(r, 1), o, eq, own)); if (!own) keep(o, o); break; }
        case 1: { // circles are refused without a radius or a plane
            CI* o = new CI(); Vector x = kv(unitvec(r)), y = r.chance(0.2) ? x : kv(unitvec(r)); if (r.chance(0.1)) x = Vector::Zero(); const Counted* c = o; Path* p = nullptr;
            try { p = new Path_Circle(a, a.p + x, a.p + x + y, kframe(r).M, r.uni(0, 7), o, eq, own); } catch (const Error_MotionPlanning&) { refused++; }
            if (p) { pool.push_back(p); if (!own) keep(o, c); } else { if (own && lives(c)) bad("a refused circle kept the interpolation it took over"); if (!own) { if (!lives(c)) bad("a refused circle deleted an interpolation that was not its own"); else delete o; } }
            break; }
        case 2: { double rad = r.uni(0.01, 0.3), e2 = r.chance(0.15) ? -eq : eq; CI* o = new CI(); const Counted* c = o; Path_RoundedComposite* p = nullptr; try { p = new Path_RoundedComposite(rad, e2, o, own); } catch (const Error_MotionPlanning&) { refused++; }
            if (!p) { if (own && lives(c)) bad("a refused rounded composite kept the interpolation it took over"); if (!own) { if (!lives(c)) bad("a refused rounded composite deleted an interpolation that was not its own"); else delete o; } break; }
            if (!own) keep(o, c); Vector q; for (int i = r.size(0, 6, 16); i > 0; i--) { try { p->Add(Frame(kframe(r).M, q)); } catch (const Error_MotionPlanning&) { refused++; } if (!r.chance(0.1)) q = q + rvec(r); if (r.chance(0.1)) { pool.push_back(p->Clone()); cloned++; } } if (r.chance(0.85)) p->Finish(); pool.push_back(p); break; }
        case 3: pool.push_back(new Path_Point(a)); break;
        case 4: { auto* p = new Path_Composite(); for (int i = r.size(0, 3, 12); i > 0 && !pool.empty(); i--) { Path* q = take(); bool g = r.chance(0.6); p->Add(q, g); if (!g) { Loose l; l.path = q; l.c = dynamic_cast<Counted*>(q); loose.push_back(l); kept_++; } } pool.push_back(p); break; }
        case 5: { Path* q = take(); bool g = r.chance(0.6); pool.push_back(new Path_Cyclic_Closed(q, r.range(1, 3), g)); if (!g) { Loose l; l.path = q; l.c = dynamic_cast<Counted*>(q); loose.push_back(l); kept_++; } break; }
        default: { Path* q = pool[r.below(pool.size())]->Clone(); cloned++; pool.push_back(q); }
        }
    }
    VelocityProfile* profile() { switch (r.below(6)) { case 0: return new VelocityProfile_Rectangular(1); case 1: return new VelocityProfile_TrapHalf(1, 1, true); case 2: return new VelocityProfile_Spline(); case 3: return new VelocityProfile_Dirac(); default: return new TV(1, 1); } }
    void trajectory() {
        switch (r.below(5)) {
        case 0: traj.push_back(new TT(r.uni(0, 2), kframe(r))); break;
        case 1: if (!traj.empty()) { traj.push_back(traj[r.below(traj.size())]->Clone()); cloned++; } break;
        case 2: { auto* q = new Trajectory_Composite(); for (int i = r.size(0, 3, 12); i > 0 && !traj.empty(); i--) { q->Add(traj.back()); traj.pop_back(); } if (r.chance(0.2)) q->Destroy(); if (r.chance(0.3)) q->Add(new TT(1, Frame::Identity())); traj.push_back(q); break; }
        default: { if (pool.empty()) return; Path* p = take(); VelocityProfile* v = profile(); bool g = r.chance(0.6); double L = p->PathLength(); if (!std::isfinite(L)) L = 1; Trajectory* t; if (r.chance(0.5)) { v->SetProfile(0, L); t = new Trajectory_Segment(p, v, g); } else t = new Trajectory_Segment(p, v, r.uni(1, 10), g); traj.push_back(t);
            if (!g) { Loose l; l.path = p; l.c = dynamic_cast<Counted*>(p); loose.push_back(l); Loose m; m.v = v; m.c = dynamic_cast<Counted*>(v); loose.push_back(m); kept_++; } } }
    }
    void touch() { if (!pool.empty() && r.chance(0.5)) { Path* p = pool[r.below(pool.size())]; if (p->getIdentifier() != Path::ID_COMPOSITE && p->getIdentifier() != Path::ID_ROUNDED_COMPOSITE && p->getIdentifier() != Path::ID_CYCLIC_CLOSED) { p->Pos(0.1); p->Vel(0, 1); } p->PathLength(); } if (!traj.empty() && r.chance(0.3)) traj[r.below(traj.size())]->Duration(); }
    void drop() { if (!pool.empty() && r.chance(0.5)) delete take(); else if (!traj.empty()) { size_t i = r.below(traj.size()); delete traj[i]; traj.erase(traj.begin() + i); } }
    void finish() { while (!pool.empty()) delete take(); while (!traj.empty()) { size_t i = r.below(traj.size()); delete traj[i]; traj.erase(traj.begin() + i); } for (auto& l : loose) if (l.c && !lives(l.c)) bad("a part that its user did not own was deleted with it"); if (wrong) { loose.clear(); return; }
        // paths may use the loose interpolations and paths below them: last in, first out
        while (!loose.empty()) { Loose l = loose.back(); loose.pop_back(); delete l.path; delete l.v; delete l.p; } }
};
static void motion(Rng& r) { Scene s(r); for (int i = r.range(5, 40); i > 0; i--) { double u = r.u01(); if (u < 0.55) s.path(); else if (u < 0.75) s.trajectory(); else if (u < 0.9) s.touch(); else s.drop(); } s.finish(); }
// ---- text that is cut off, damaged, or read and written over failing streams
struct Failing : std::stringbuf { long left; bool thrower; Failing(const std::string& s, long n, bool t) : std::stringbuf(s, std::ios::in | std::ios::out), left(n), thrower(t) {} int_type underflow() override { return gone() ? traits_type::eof() : std::stringbuf::underflow(); } int_type uflow() override { if (left-- <= 0) return gone() ? traits_type::eof() : traits_type::eof(); return std::stringbuf::uflow(); } bool gone() { if (left > 0) return false; if (thrower) throw std::runtime_error("device"); return true; } std::streamsize xsputn(const char* s, std::streamsize n) override { if ((left -= n) <= 0 && gone()) return 0; return std::stringbuf::xsputn(s, n); } };
static void text(Rng& r) {
    Scene s(r); for (int i = r.range(2, 8); i > 0; i--) s.path(); std::string t; int what = r.below(3);
    { std::ostringstream o; if (what == 0 && !s.pool.empty()) s.pool.back()->Write(o); else if (what == 1) { CI x; x.Write(o); VelocityProfile_Trap(1, 2).Write(o); } else if (!s.pool.empty()) { o << "SEGMENT["; s.pool.back()->Write(o); VelocityProfile_Trap(1, 2).Write(o); o << "]"; } t = o.str(); }
    if (!t.empty()) { double u = r.u01(); if (u < 0.4) t.resize(r.below(t.size())); else if (u < 0.7) { for (int k = r.range(1, 3); k > 0; k--) t[r.below(t.size())] = "[]{},.-0 19eCLPRX\n"[r.below(18)]; } }
    std::istringstream is(t); if (r.chance(0.4)) is.exceptions(r.chance(0.5) ? std::ios::failbit : std::ios::badbit | std::ios::eofbit);
    try { switch (what) { case 0: delete Path::Read(is); break; case 1: delete RotationalInterpolation::Read(is); delete VelocityProfile::Read(is); break; default: delete Trajectory::Read(is); } built++; } catch (const Error&) { refused++; } catch (const std::exception&) { refused++; }
    { std::ostringstream sink; IOTraceOutput(sink); }
    // the same over a device that gives up
    if (!s.pool.empty()) { Failing b(t, r.below(t.size() + 1), r.chance(0.5)); std::iostream io(&b); if (r.chance(0.6)) io.exceptions(std::ios::badbit); bool wr = r.chance(0.5); Path* p = nullptr; try { if (wr) s.pool.back()->Write(io); else p = Path::Read(io); } catch (const Error&) { refused++; } catch (const std::exception&) { refused++; } delete p; std::ostringstream sink; IOTraceOutput(sink); }
    s.finish();
}
// ---- chains, trees and their solvers
static void models(Rng& r) {
    ChainOpt o; o.maxSeg = 6; std::vector<std::unique_ptr<Chain>> cs; std::vector<std::unique_ptr<Tree>> ts; auto spec = [&] { ref::ChainSpec sp = chain(r, o); if (r.chance(0.5)) for (auto& s : sp) s.name += "_with_a_name_that_lives_on_the_heap"; return sp; };
    for (int i = r.range(3, 15); i > 0; i--) switch (r.below(cs.empty() || ts.empty() ? 2 : 12)) {
        case 0: cs.emplace_back(new Chain(kchain(spec()))); break;
        case 1: { TreeSpec t = treespec(r, o, 0, 8); ts.emplace_back(new Tree(ktree(t))); break; }
        case 2: cs.emplace_back(new Chain(*cs[r.below(cs.size())])); break;
        case 3: *cs[r.below(cs.size())] = *cs[r.below(cs.size())]; break;
        case 4: { size_t k = r.below(cs.size()); Chain c(*cs[r.below(cs.size())]); cs[k]->addChain(c); break; }
        case 5: ts.emplace_back(new Tree(*ts[r.below(ts.size())])); break;
        case 6: *ts[r.below(ts.size())] = *ts[r.below(ts.size())]; break;
        case 7: { Tree& t = *ts[r.below(ts.size())]; auto it = t.getSegments().begin(); std::advance(it, r.below(t.getSegments().size())); if (!t.addChain(*cs[r.below(cs.size())], r.chance(0.8) ? it->first : "nowhere")) refused++; break; }
        case 8: { Tree& t = *ts[r.below(ts.size())]; Tree u(*ts[r.below(ts.size())]); if (!t.addTree(u, r.chance(0.8) ? t.getRootSegment()->first : "nowhere")) refused++; break; }
        case 9: { Tree& t = *ts[r.below(ts.size())]; auto it = t.getSegments().begin(); std::advance(it, r.below(t.getSegments().size())); Chain c; if (!t.getChain(r.chance(0.8) ? t.getRootSegment()->first : "nowhere", it->first, c)) refused++; else cs.emplace_back(new Chain(c)); break; }
        case 10: { Tree& t = *ts[r.below(ts.size())]; auto it = t.getSegments().begin(); std::advance(it, r.below(t.getSegments().size())); Tree u; if (!t.getSubTree(it->first, u)) refused++; if (!t.addSegment(ksegment(segment(r, o, r.chance(0.3) ? it->first : "new")), it->first)) refused++; break; }
        default: if (r.chance(0.5)) cs.erase(cs.begin() + r.below(cs.size())); else ts.erase(ts.begin() + r.below(ts.size()));
    }
    built += cs.size() + ts.size();
}
static void solving(Rng& r) {
    ChainOpt o; o.maxSeg = 7; o.rotorInertia = true; ref::ChainSpec sp; do sp = chain(r, o); while (ref::nj(sp) < 1); Chain ch = kchain(sp); sol::Cfg cf = sol::cfg(r, ref::nj(sp)); const auto& kd = sol::kinds(); std::vector<sol::Solver> ss; for (int i = r.range(1, 3); i > 0; i--) { ss.push_back(sol::make(kd[r.below(kd.size())], ch, cf)); ss.back().apply(cf); }
    for (int st = r.range(2, 8); st > 0; st--) {
        if (r.chance(0.25)) { do sp = chain(r, o); while (ref::nj(sp) < 1); ch = kchain(sp); unsigned nc = cf.nc; cf = sol::cfg(r, ref::nj(sp)); cf.nc = nc; if (r.chance(0.8)) for (auto& S : ss) { sol::update(S); S.apply(cf); } else { for (auto& S : ss) { sol::Op& p = S.ops[0]; sol::Args a = sol::args(r, sp, cf, p.jdot); p.call(a); } for (auto& S : ss) { sol::update(S); S.apply(cf); } } continue; }
        sol::Solver& S = ss[r.below(ss.size())]; sol::Op& p = S.ops[r.below(S.ops.size())]; sol::Args a = sol::args(r, sp, cf, p.jdot); if (r.chance(0.2) && !p.slots.empty()) { auto& sl = p.slots[r.below(p.slots.size())]; sl.set(a, r.below(12)); } p.call(a); built++;
    }
    TreeSpec t; do t = treespec(r, o, 1, 7); while (t.n == 0); Tree T = ktree(t); int n = t.n; std::vector<std::string> ends{t.segs.back().name}; JntArray lo(n), hi(n), vm(n), q(n), out(n); for (int i = 0; i < n; i++) { lo(i) = -2; hi(i) = 2; vm(i) = 1; q(i) = r.uni(-1, 1); }
    TreeFkSolverPos_recursive fk(T); TreeJntToJacSolver js(T); TreeIdSolver_RNE id(T, Vector(0, 0, -9.81)); TreeIkSolverVel_wdls ik(T, ends); TreeIkSolverPos_NR_JL nr(T, ends, lo, hi, fk, ik, 10, 1e-4); TreeIkSolverPos_Online on(n, ends, lo, hi, vm, 1, 1, fk, ik); Frames fr; fr[ends[0]] = kframe(r, 1); if (r.chance(0.2)) fr["nowhere"] = Frame::Identity(); WrenchMap w; Frame F; Jacobian J(n);
    fk.JntToCart(q, F, ends[0]); fk.JntToCart(q, F, "nowhere"); js.JntToJac(q, J, ends[0]); id.CartToJnt(q, q, q, w, out); nr.CartToJnt(q, fr, out); on.CartToJnt(q, fr, out); if (r.chance(0.5)) { T = Tree("x"); id.updateInternalDataStructures(); }
}
static void scenario(Case& c, const char* key, void (*f)(Rng&)) {
    wrong = nullptr; doubled = 0; alive_.clear(); Rng again = c.r; f(c.r);      // the first run sets up whatever is set up once
    refused = cloned = kept_ = built = 0; Rng& r = again; bal::start(); f(r); bal::armed = false; long left = bal::live;
    c.desc = fmt("%s: %ld built, %ld cloned, %ld kept by the caller, %ld refused; %ld allocations, at most %ld at a time", key, built, cloned, kept_, refused, bal::total, bal::most);
    c.ok(!wrong, std::string(key) + ".owner", wrong ? wrong : ""); c.ok(doubled == 0, std::string(key) + ".once", "a part was deleted twice"); c.okf(alive_.empty() || wrong, std::string(key) + ".parts", [&] { return fmt("%zu parts are never deleted", alive_.size()); });
    c.okf(left == 0 || wrong, std::string(key) + ".balance", [&] { return fmt("%ld blocks are still allocated, e.g. ", left) + bal::leak(); });
    if (refused) c.cover(std::string(key) + " with refusals"); if (cloned) c.cover("clones"); if (kept_) c.cover("parts kept by the caller"); if (bal::total > 10) c.cover(std::string(key) + " on the heap");
}
int main(int argc, char** argv) {
    Harness H("C31", argc, argv); __sanitizer_install_malloc_and_free_hooks(bal::in, bal::out);
    H.rule("monitor", 8, [](Case& c) { bal::start(); void* volatile p = malloc(10); int* volatile q = new int(3); std::string* volatile s = new std::string(100, 'x'); bool a = bal::live == 4; delete q; free(p); bool b = bal::live == 2; delete s; bool d = bal::live == 0; bal::armed = false; c.ok(a && b && d, "sees"); }, false);
    H.rule("motion", 12000, [](Case& c) { scenario(c, "motion", motion); }); H.rule("text", 12000, [](Case& c) { scenario(c, "text", text); }); H.rule("models", 8000, [](Case& c) { scenario(c, "models", models); }); H.rule("solvers", 4000, [](Case& c) { scenario(c, "solvers", solving); });
    return H.finish();
}
