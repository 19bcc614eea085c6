// C27: a trajectory is its path travelled by its velocity profile; sequences of
// trajectories play their parts one after another, once each, and stand still before
// and after; rotational interpolations turn about one axis from start to end.
#include "gen.hpp"
#include "utilities/error.h"
#include "path_line.hpp"
#include "path_circle.hpp"
#include "path_point.hpp"
#include "path_composite.hpp"
#include "path_roundedcomposite.hpp"
#include "path_cyclic_closed.hpp"
#include "rotational_interpolation_sa.hpp"
#include "velocityprofile_trap.hpp"
#include "velocityprofile_traphalf.hpp"
#include "velocityprofile_rect.hpp"
#include "velocityprofile_dirac.hpp"
#include "velocityprofile_spline.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_stationary.hpp"
using namespace KDL; using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using ref::R; using ref::V3; using ref::M3; using ref::T4; using ref::S6;
typedef RotationalInterpolation_SingleAxis SA;
static T4 at(Case& c, double m = 2) { return T4(rotation(c.r), vec(c.r, m)); }
static T4 from(Case& c, const T4& f) { return T4(f.M * ref::rot(unitvec(c.r), c.r.chance(0.3) ? 0 : c.r.uni(0.01, 2.9)), f.p + (c.r.chance(0.2) ? V3() : unitvec(c.r) * R(c.r.uni(0.05, 2)))); }
static Path* path(Case& c, const T4& f, double& eq, int depth = 1) {
    eq = c.r.uni(0.1, 1.5);
    switch (c.r.below(depth ? 8 : 4)) {
    case 0: return new Path_Point(kf(f));
    case 1: case 5: { V3 x = unitvec(c.r), y; do y = unitvec(c.r); while (ref::norm(ref::cross(x, y)) < 0.2); Vector k = kv(f.p - x * R(c.r.uni(0.1, 1))); return new Path_Circle(kf(f), k, k + kv(y), km(from(c, f).M), c.r.uni(0.1, 6), new SA(), eq); }
    case 6: { auto* q = new Path_RoundedComposite(c.r.uni(0.01, 0.05), eq, new SA()); T4 g = f; try { for (int i = 0; i < 4; i++) { q->Add(kf(g)); g = from(c, g); } } catch (const Error_MotionPlanning&) { } q->Finish(); if (q->GetNrOfSegments() == 0) { delete q; return new Path_Point(kf(f)); } return q; }
    case 7: { auto* q = new Path_Composite(); double e2 = eq; eq = 0; T4 g = f; for (int i = c.r.size(1, 4, 14); i > 0; i--) { std::unique_ptr<Path> k; do k.reset(path(c, g, e2, 0)); while (k->PathLength() < 1e-2); g = rt(k->Pos(k->PathLength())); q->Add(k.release()); } return q; }
    default: return new Path_Line(kf(f), kf(from(c, f)), new SA(), eq);
    }
}
struct Elem { double dur = 0; bool still = false; Frame pose; std::unique_ptr<Path> p; std::unique_ptr<VelocityProfile> v; bool noacc = false, novel = false; double maxvel = 0, maxacc = 0, eq = 0; std::string d; };
// the same part twice: once for the library's trajectory, once for the model
static VelocityProfile* profile(Case& c, Elem& e, int kind, double L, bool set, double T) {
    e.maxvel = c.r.uni(0.1, 3); e.maxacc = c.r.uni(0.1, 5); VelocityProfile* v; bool starting = c.r.chance(0.5); double frac = c.r.uni(0.1, 1), vel = c.r.uni(0, 2) * L / T;
    if (kind == 0) { e.noacc = true; v = new VelocityProfile_Rectangular(e.maxvel); e.d = "constant"; } else if (kind == 1) { e.noacc = e.novel = true; v = new VelocityProfile_Dirac(); e.d = "jump"; } else if (kind == 2) { v = new VelocityProfile_TrapHalf(e.maxvel, e.maxacc, starting); e.d = "half"; }
    else if (kind == 3) { auto* s = new VelocityProfile_Spline(); e.d = "spline"; e.maxvel = 0; if (set) s->SetProfileDuration(0, vel, L, vel, T); v = s; return v; } else { auto* t = new VelocityProfile_Trap(e.maxvel, e.maxacc); v = t; e.d = "trap"; if (set && c.r.chance(0.3)) { t->SetProfileVelocity(0, L, frac); return v; } }
    if (set) { if (c.r.chance(0.5)) v->SetProfile(0, L); else v->SetProfileDuration(0, L, T); } return v;
}
static Trajectory* segment(Case& c, std::vector<Elem>& m, std::vector<std::unique_ptr<Path>>& ps, std::vector<std::unique_ptr<VelocityProfile>>& vs) {
    Elem e; T4 f = at(c); int kind = c.r.below(8); bool late = kind != 3 && c.r.chance(0.4), own = c.r.chance(0.75); double T = c.r.chance(0.2) ? c.r.logu(1e-2, 1e3) : c.r.uni(0.2, 10);
    vh::Rng before = c.r; Path* p = path(c, f, e.eq); double L = p->PathLength(); VelocityProfile* v = profile(c, e, kind, L, !late, T); vh::Rng after = c.r; Trajectory* t = late ? new Trajectory_Segment(p, v, T, own) : new Trajectory_Segment(p, v, own);
    c.r = before; Elem e2; e.p.reset(path(c, f, e2.eq)); e.v.reset(profile(c, e2, kind, L, !late, T)); if (late) e.v->SetProfileDuration(0, L, T); c.r = after; e.dur = e.v->Duration(); if (late) e.d += " by duration"; if (!own) { ps.emplace_back(p); vs.emplace_back(v); e.d += " shared"; }
    auto* s = static_cast<Trajectory_Segment*>(t); c.ok(s->GetPath() == p && s->GetProfile() == v, "segment.parts"); if (late && e.d.compare(0, 4, "jump")) c.okf(e.dur >= T * (1 - 1e-9), "segment.duration", [&] { return fmt("%.17g instead of %.17g", e.dur, T); }); c.cover(fmt("%s on path %d", e.d.c_str(), int(p->getIdentifier()))); m.push_back(std::move(e)); return t;
}
static Trajectory* build(Case& c, std::vector<Elem>& m, std::vector<std::unique_ptr<Path>>& ps, std::vector<std::unique_ptr<VelocityProfile>>& vs, int depth) {
    int k = c.r.below(depth ? 4 : 3); if (k == 0) { Elem e; e.still = true; e.dur = c.r.chance(0.2) ? 0 : c.r.uni(0, 5); e.pose = kf(at(c)); e.d = "still"; Trajectory* t = new Trajectory_Stationary(e.dur, e.pose); c.cover("still"); m.push_back(std::move(e)); return t; }
    if (k < 3) return segment(c, m, ps, vs); auto* q = new Trajectory_Composite(); for (int i = c.r.size(1, 4, 14); i > 0; i--) q->Add(build(c, m, ps, vs, depth - 1)); c.cover("composite"); return q;
}
static bool same(const Frame& a, const Frame& b) { return a.p == b.p && std::equal(a.M.data, a.M.data + 9, b.M.data); }
static void answer(Case& c, const Trajectory& t, const std::vector<Elem>& m, const std::vector<double>& end, double s, const std::string& key, bool composite) {
    size_t k = 0; double T = t.Duration(); bool out = s < 0 || s > T; double u; if (!composite) { u = s; }
    else { while (k < m.size() && !(s < end[k])) k++; if (k == m.size()) { k--; u = m[k].dur; } else u = s < 0 ? 0 : s - (k ? end[k - 1] : 0); if (s < 0) k = 0; }
    const Elem& e = m[k]; Frame x = t.Pos(s); std::string where = fmt("at %.9g of %.9g in part %zu (%s)", s, T, k, e.d.c_str()); Frame want = e.still ? e.pose : e.p->Pos(e.v->Pos(u));
    double L = e.still ? 0 : e.p->PathLength(), dt = 1e-13 * (T + 1), sp = e.still ? 0 : 1, big = 1 + (e.still ? 0 : L) ; (void)sp; double slack = dt * (composite ? (e.maxvel + L / std::max(1e-9, e.dur)) : 0); if (!e.still && e.p->getIdentifier() == Path::ID_CYCLIC_CLOSED) return;
    eq(c, rt(x), rt(want), 1e-11 * big * big + 20 * slack * (1 + 1 / std::max(0.1, e.eq)), key + ".pos", where);
    if (!e.novel || e.still) { Twist v = t.Vel(s), w = e.still || (out && composite) ? Twist::Zero() : e.p->Vel(e.v->Pos(u), e.v->Vel(u)); double va = 1 + double(ref::norm(rs(w).a) + ref::norm(rs(w).b)); eq(c, rs(v), rs(w), 1e-10 * big * va + 100 * slack * (1 + e.maxacc) * (1 + 30 / std::max(0.1, e.eq)) * va, key + ".vel", where); if (e.maxvel > 0) { c.okf(v.vel.Norm() <= e.maxvel * (1 + 1e-6) + 1e-9, key + ".speed", [&] { return fmt("%g exceeds %g ", v.vel.Norm(), e.maxvel) + where; }); if (e.eq > 0) c.ok(v.rot.Norm() * e.eq <= e.maxvel * (1 + 1e-6) + 1e-9, key + ".turnspeed", where); } }
    if (!e.noacc) { Twist a = t.Acc(s), w = e.still || (out && composite) ? Twist::Zero() : e.p->Acc(e.v->Pos(u), e.v->Vel(u), e.v->Acc(u)); double va = 1 + double(ref::norm(rs(w).a) + ref::norm(rs(w).b)); eq(c, rs(a), rs(w), 1e-9 * big * va + 1e3 * slack * va * (1 + e.maxacc) * (1 + 30 / std::max(0.1, e.eq)), key + ".acc", where); }
}
static bool smooth(const std::vector<Elem>& m, const std::vector<double>& end, double a, double b, size_t& k) { // no corner of the motion between a and b
    for (k = 0; k < m.size(); k++) { double s = k ? end[k - 1] : 0; if (a > s && b < end[k]) { if (m[k].still) return true; if (m[k].novel) return false; double u = a - s, w = b - s; const VelocityProfile& v = *m[k].v; if (m[k].noacc) return true; if (std::fabs(v.Acc(u) - v.Acc(w)) > 1e-3 * (1 + std::fabs(v.Acc(u)))) return false; auto* q = dynamic_cast<Path_Composite*>(m[k].p.get()); Twist x = m[k].p->Acc(v.Pos(u), 1, 0), y = m[k].p->Acc(v.Pos(w), 1, 0), p = m[k].p->Vel(v.Pos(u), 1), r = m[k].p->Vel(v.Pos(w), 1); (void)q; return Equal(x, y, 1e-2) && Equal(p, r, 1e-2); } } return false;
}
static void play(Case& c) {
    std::vector<Elem> m; std::vector<std::unique_ptr<Path>> ps; std::vector<std::unique_ptr<VelocityProfile>> vs; bool comp = c.r.chance(0.6); std::unique_ptr<Trajectory> t; Trajectory_Composite* q = nullptr;
    if (comp) { q = new Trajectory_Composite(); t.reset(q); int n = c.r.size(1, 5, 20); for (int i = 0; i < n; i++) q->Add(build(c, m, ps, vs, 2)); } else t.reset(build(c, m, ps, vs, 0)); if (comp && c.r.chance(0.25)) { q->Destroy(); c.ok(q->Duration() == 0, "destroy.duration"); m.clear(); int n = c.r.size(1, 3, 12); for (int i = 0; i < n; i++) q->Add(build(c, m, ps, vs, 1)); c.cover("after Destroy"); }
    for (auto& e : m) c.desc += e.d + fmt("(%.6g s) ", e.dur);
    for (int round = 0; round < 3; round++) {
        std::vector<double> end; double T = 0; for (auto& e : m) end.push_back(T += e.dur); c.near(t->Duration(), T, 1e-12 * (1 + T), "duration"); const char* key = round == 0 ? "play" : round == 1 ? "clone" : "original";
        // exact ends of nested sequences depend on the order of summation: stay clear of them by a hair
        for (int i = 0; i < 10 + 3 * int(m.size()); i++) { double u = c.r.u01(), s; if (u < 0.08) s = -c.r.uni(0.001, 2); else if (u < 0.16) s = T + c.r.uni(0.001, 2); else if (u < 0.3) { size_t k = c.r.below(m.size()); double hair = m[k].still || m[k].p->getIdentifier() == Path::ID_LINE || m[k].p->getIdentifier() == Path::ID_CIRCLE ? 1e-9 : 1e-3; s = (k ? end[k - 1] : 0) + m[k].dur * (c.r.chance(0.5) ? hair : 1 - hair); } else if (u < 0.34) s = 0; else if (u < 0.4 && !comp) s = T; else s = c.r.uni(0, T); bool clear = true; if (comp) for (double x : end) clear = clear && (std::fabs(s - x) > 1e-11 * (1 + T) || s == x && s == 0); if (!comp && m[0].d.compare(0, 6, "spline") == 0) s = std::min(std::max(s, 0.0), T); // extrapolates
            if (!clear || (comp && s <= 0 && m[0].dur == 0)) continue; answer(c, *t, m, end, s, key, comp); }
        if (comp && T > 0) for (int i = 0; i < 6; i++) { double h = 1e-5 * std::min(1.0, T), s = c.r.uni(h * 2, T - 2 * h); size_t k; if (!smooth(m, end, s - 1.1 * h, s + 1.1 * h, k)) continue; Frame a = t->Pos(s - h), b = t->Pos(s + h), x = t->Pos(s); Twist v = t->Vel(s); V3 lin = (rv(b.p) - rv(a.p)) / (2 * h); M3 dr = rm(b.M) * ref::T(rm(a.M)); V3 rot = V3(dr[2][1] - dr[1][2], dr[0][2] - dr[2][0], dr[1][0] - dr[0][1]) / (4 * h); double sc = 1 + v.vel.Norm() + v.rot.Norm(); eq(c, rv(v.vel), lin, 1e-4 * sc * sc * sc, "derivative.vel", fmt("at %g", s)); eq(c, rv(v.rot), rot, 1e-4 * sc * sc * sc, "derivative.rot", fmt("at %g in %s", s, m[k].d.c_str())); (void)x; if (!m[k].noacc) { Twist va = t->Vel(s - h), vb = t->Vel(s + h), ac = t->Acc(s); eq(c, rs(ac), (rs(vb) - rs(va)) * (1 / (2 * h)), 1e-3 * std::pow(sc + ac.vel.Norm() + ac.rot.Norm(), 3), "derivative.acc", fmt("at %g", s)); } }
        if (round == 0) { std::unique_ptr<Trajectory> k(t->Clone()); c.ok(typeid(*k) == typeid(*t), "clone.kind"); if (c.r.chance(0.5)) { t = std::move(k); q = dynamic_cast<Trajectory_Composite*>(t.get()); } else { std::swap(t, k); k.reset(); q = dynamic_cast<Trajectory_Composite*>(t.get()); } }
        if (round == 1 && comp && q) { q->Add(build(c, m, ps, vs, 0)); c.desc += "+ " + m.back().d + fmt("(%.6g s) ", m.back().dur); }   // goes on growing
        if (round == 1 && !comp) break;
    }
    // questions do not change the answers
    std::vector<std::pair<double, Frame>> first; double T = t->Duration(); for (int i = 0; i < 8; i++) { double s = m[0].d.compare(0, 6, "spline") == 0 ? c.r.u01() * T : c.r.uni(-0.1, 1.1) * T; first.push_back({s, t->Pos(s)}); } for (int i = 7; i >= 0; i--) { try { t->Vel(c.r.uni(0, T)); } catch (const Error_MotionPlanning_Incompatible&) { } c.ok(same(t->Pos(first[i].first), first[i].second), "history"); }
}
// read back from text, a trajectory can be played
static void text(Case& c) {
    std::vector<std::unique_ptr<Path>> ps; double e; T4 f = at(c); std::unique_ptr<Path> p; do p.reset(path(c, f, e)); while (p->getIdentifier() == Path::ID_ROUNDED_COMPOSITE); double mv = c.r.uni(0.1, 3), ma = c.r.uni(0.1, 5); bool trap = c.r.chance(0.7); VelocityProfile* v = trap ? (VelocityProfile*)new VelocityProfile_Trap(mv, ma) : new VelocityProfile_Rectangular(mv); v->SetProfile(0, p->PathLength()); Trajectory_Segment a(p.release(), v); std::ostringstream o; o.precision(17); a.Write(o); std::istringstream i(o.str()); std::unique_ptr<Trajectory> b; std::string x; try { b.reset(Trajectory::Read(i)); } catch (const Error& q) { x = q.Description(); } if (!c.okf(bool(b), "text.reads", [&] { return x; })) return;
    double T = a.Duration(); c.near(b->Duration(), T, 1e-9 * (1 + T), "text.duration"); for (int k = 0; k < 5; k++) { double s = c.r.u01() * T; eq(c, rt(b->Pos(s)), rt(a.Pos(s)), 1e-6, "text.pos", fmt("at %g of %g", s, T)); } c.cover(trap ? "text trap" : "text constant");
}
static void rotate(Case& c) {
    SA r; int n = c.r.size(1, 3, 12); for (int i = 0; i < n; i++) {
        M3 a = rm(km(rotation(c.r))); V3 ax = unitvec(c.r); R th = c.r.chance(0.1) ? 0 : c.r.chance(0.15) ? c.r.logu(1e-5, 1e-2) : c.r.chance(0.1) ? R(M_PI) - c.r.logu(1e-5, 1e-2) : R(c.r.uni(0.01, 3.1)); M3 b = rm(km(a * ref::rot(ax, th))); r.SetStartEnd(km(a), km(b)); double tol = 1e-9 + 2e-6 * 0; c.desc = fmt("turn by %.6Lg about %s", th, s(ax).c_str()); if (th < 1e-4L || th > 3.1L) tol = 3e-6;
        double A = r.Angle(); c.near(A, double(th), tol, "rotate.angle"); eq(c, rm(r.Pos(0)), a, 1e-12, "rotate.start"); eq(c, rm(r.Pos(A)), b, tol, "rotate.end"); for (int k = 0; k < 4; k++) { double t = c.r.uni(-1, 2) * (A + 0.1), td = c.r.uni(-3, 3), tdd = c.r.uni(-3, 3); if (th == 0) { eq(c, rm(r.Pos(t * 0)), a, 1e-12, "rotate.nothing"); continue; } R rel = tol / std::max(R(1e-5), th) + tol; eq(c, rm(r.Pos(t)), a * ref::rot(ax, t), double(4 * rel), "rotate.pos"); eq(c, rv(r.Vel(t, td)), a * ax * R(td), double(4 * rel), "rotate.vel"); eq(c, rv(r.Acc(t, td, tdd)), a * ax * R(tdd), double(4 * rel), "rotate.acc"); }
        std::unique_ptr<RotationalInterpolation> k(r.Clone()); k->SetStartEnd(km(a), km(b)); c.near(k->Angle(), A, 0, "rotate.clone"); c.near(r.Angle(), A, 0, "rotate.original"); c.cover(fmt("turn 1e%d", th == 0 ? -99 : int(floorl(log10l(th))))); }
}
int main(int argc, char** argv) {
    Harness H("C27", argc, argv);
    H.rule("play", 12000, play); H.rule("text", 3000, text); H.rule("rotate", 10000, rotate);
    return H.finish();
}
