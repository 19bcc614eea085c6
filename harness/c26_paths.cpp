// C26: paths run from their start to their end along the described curve, at unit
// equivalent speed, with position, velocity and acceleration that belong together,
// as pure functions of the path variable; composition, rounding, repetition, copies.
#include "gen.hpp"
#include "utilities/error.h"
#include "path.hpp"
#include "path_line.hpp"
#include "path_circle.hpp"
#include "path_point.hpp"
#include "path_composite.hpp"
#include "path_roundedcomposite.hpp"
#include "path_cyclic_closed.hpp"
#include "rotational_interpolation_sa.hpp"
using namespace KDL; using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using ref::R; using ref::V3; using ref::M3; using ref::T4; using ref::S6;
typedef RotationalInterpolation_SingleAxis SA;
// ---- the described curve -------------------------------------------------
struct Piece {
    bool arc = false, half = false; T4 a; V3 dir; R dist = 0; V3 ax; R ang = 0; V3 ctr, x, y; R rad = 0, turn = 0, eq = 1, len = 0;
    void done() { R lin = arc ? rad * turn : dist, ro = ang * eq; len = lin > ro ? lin : ro; }
    R lin() const { return arc ? rad * turn : dist; }
    T4 pos(R s) const { R u = len > 0 ? s / len : 0; T4 o; o.M = a.M * ref::rot(ax, ang * u); o.p = arc ? ctr + x * (rad * cosl(turn * u)) + y * (rad * sinl(turn * u)) : a.p + dir * (dist * u); return o; }
    S6 d(R s) const { if (len == 0) return S6(); R u = s / len; V3 w = a.M * ax * (ang / len); return S6(arc ? (x * -sinl(turn * u) + y * cosl(turn * u)) * (rad * turn / len) : dir * (dist / len), w); }
    S6 dd(R s) const { if (len == 0 || !arc) return S6(); R u = s / len, k = turn / len; return S6((x * -cosl(turn * u) - y * sinl(turn * u)) * (rad * k * k), V3()); }
};
typedef std::vector<Piece> Curve;                                        // pieces in order
static R total(const Curve& c) { R l = 0; for (auto& p : c) l += p.len; return l; }
static void logR(const M3& m, V3& ax, R& th) { V3 v((m[2][1] - m[1][2]) / 2, (m[0][2] - m[2][0]) / 2, (m[1][0] - m[0][1]) / 2); R n = ref::norm(v), cs = (m[0][0] + m[1][1] + m[2][2] - 1) / 2; th = atan2l(n, cs); ax = n > 1e-9L ? v / n : V3(0, 0, 1); if (n <= 1e-9L && cs > 0) th = 0; }
struct Made { std::unique_ptr<Path> p; Curve c; std::string d; R size = 1; std::vector<std::function<void()>> later; std::vector<std::unique_ptr<Path>> own; std::vector<std::unique_ptr<RotationalInterpolation>> rots; };
static R angle(Case& c) { return c.r.chance(0.2) ? 0 : c.r.chance(0.2) ? c.r.logu(1e-4, 0.1) : c.r.uni(0.05, 3.1); }
static double eqr(Case& c) { return c.r.chance(0.7) ? c.r.uni(0.05, 2) : c.r.logu(1e-3, 50); }
static T4 at(Case& c, double m = 2) { return T4(rotation(c.r), vec(c.r, m)); }
static RotationalInterpolation* rot(Case& c, Made& m, bool own) { RotationalInterpolation* r = new SA(); if (!own) m.rots.emplace_back(r); (void)c; return r; }
static void line(Case& c, Made& m, const T4* from = nullptr) {
    Piece p; p.a = rt(kf(from ? *from : at(c))); V3 u = unitvec(c.r); p.dist = c.r.chance(0.2) ? 0 : c.r.chance(0.1) ? c.r.logu(1e-4, 1e3) : c.r.uni(0.01, 3); p.ax = unitvec(c.r); p.ang = angle(c); p.eq = eqr(c); bool own = c.r.chance(0.7), tw = c.r.chance(0.2);
    if (tw) { V3 v = u * p.dist, w = p.ax * p.ang; Vector kvv = kv(v), kww = kv(w); p.ax = ref::T(p.a.M) * p.ax; p.done(); p.dir = u; m.p.reset(new Path_Line(kf(p.a), Twist(kvv, kww), rot(c, m, own), double(p.eq), own)); }
    else { T4 e(p.a.M * ref::rot(p.ax, p.ang), p.a.p + u * p.dist); e = rt(kf(e)); V3 dv = e.p - p.a.p; p.dist = ref::norm(dv); p.dir = p.dist > 0 ? dv / p.dist : V3(); p.done(); m.p.reset(new Path_Line(kf(p.a), kf(e), rot(c, m, own), double(p.eq), own)); }
    m.d = fmt("%s(length %.4Lg angle %.4Lg eqradius %.4Lg%s)", tw ? "line-by-twist" : "line", p.dist, p.ang, p.eq, own ? "" : " shared"); m.c = {p}; m.size = 1 + ref::norm(p.a.p) + p.dist;
    c.cover(std::string(tw ? "twist" : "line") + (p.dist == 0 ? p.ang == 0 ? " nothing" : " turn" : p.ang == 0 ? " shift" : p.ang * p.eq > p.dist ? " rotation-limited" : " translation-limited"));
}
static void circle(Case& c, Made& m, const T4* from = nullptr, bool closed = false) {
    Piece p; p.arc = true; p.a = rt(kf(from ? *from : at(c))); p.rad = c.r.chance(0.8) ? c.r.uni(0.1, 2) : c.r.logu(1e-3, 100); V3 x = unitvec(c.r), y; do y = unitvec(c.r); while (ref::norm(ref::cross(x, y)) < 0.2); V3 z = ref::unit(ref::cross(x, y)); Vector kc = kv(p.a.p - x * p.rad); p.ctr = rv(kc); V3 ra = p.a.p - p.ctr; p.rad = ref::norm(ra); p.x = ra / p.rad; Vector kp = kv(p.ctr + y * R(c.r.uni(0.3, 3)) * p.rad); z = ref::unit(ref::cross(p.x, rv(kp) - p.ctr)); p.y = ref::cross(z, p.x);
    p.turn = closed ? 2 * R(M_PI) : c.r.chance(0.08) ? 0 : c.r.uni(0.05, 7); p.ax = unitvec(c.r); p.ang = closed ? 0 : angle(c); p.eq = eqr(c); p.done(); bool own = c.r.chance(0.7); Rotation e = km(p.a.M * ref::rot(p.ax, p.ang));
    m.p.reset(new Path_Circle(kf(p.a), kc, kp, e, double(p.turn), rot(c, m, own), double(p.eq), own)); m.d = fmt("circle(radius %.4Lg over %.4Lg angle %.4Lg eqradius %.4Lg%s)", p.rad, p.turn, p.ang, p.eq, own ? "" : " shared"); m.c = {p}; m.size = (1 + ref::norm(p.a.p) + p.rad) * (1 + p.turn); c.cover(std::string("circle") + (p.turn == 0 ? p.ang == 0 ? " nothing" : " turn" : p.ang * p.eq > p.lin() ? " rotation-limited" : " translation-limited"));
}
static void take(Made& m, Made& k) { for (auto& p : k.c) m.c.push_back(p); m.d += k.d + " "; m.size = std::max(m.size, k.size); for (auto& o : k.own) m.own.push_back(std::move(o)); for (auto& o : k.rots) m.rots.push_back(std::move(o)); }
static void build(Case& c, Made& m, int depth) {
    switch (c.r.below(depth > 0 ? 7 : 3)) {
    case 0: { if (c.r.chance(0.5)) { Piece p; p.a = rt(kf(at(c))); p.ax = V3(0, 0, 1); m.p.reset(new Path_Point(kf(p.a))); m.c = {p}; m.d = "point"; c.cover("point"); break; } }
    case 1: case 4: line(c, m); break;
    case 2: circle(c, m); break;
    case 3: case 5: { auto* q = new Path_Composite(); m.p.reset(q); m.d = "composite( "; int n = c.r.size(1, 5, 18); bool chain = c.r.chance(0.5); for (int i = 0; i < n; i++) { Made k; T4 f = m.c.empty() ? at(c) : m.c.back().pos(m.c.back().len); if (chain && c.r.chance(0.6)) line(c, k, &f); else if (chain && c.r.chance(0.7)) circle(c, k, &f); else build(c, k, depth - 1); take(m, k); bool own = c.r.chance(0.7); q->Add(k.p.get(), own); if (own) k.p.release(); else m.own.push_back(std::move(k.p)); } m.d += ")"; c.cover("composite"); break; }
    default: { Made k; do { k = Made(); build(c, k, depth - 1); } while (total(k.c) < 1e-2); int n = c.r.size(1, 4, 12); m.d = fmt("%d times ", n); Curve once = k.c; take(m, k); m.c.clear(); for (int i = 0; i < n; i++) for (auto& p : once) m.c.push_back(p); bool own = c.r.chance(0.7); m.p.reset(new Path_Cyclic_Closed(k.p.get(), n, own)); if (own) k.p.release(); else m.own.push_back(std::move(k.p)); c.cover("cyclic"); }
    }
}
// ---- the monitor ---------------------------------------------------------
struct Rates { Frame f; Twist v, a; };
static Rates look(const Path& p, double s, double sd, double sdd) { return {p.Pos(s), p.Vel(s, sd), p.Acc(s, sd, sdd)}; }
static bool identical(const Rates& x, const Rates& y) { for (int i = 0; i < 3; i++) if (x.f.p(i) != y.f.p(i) || x.v.vel(i) != y.v.vel(i) || x.v.rot(i) != y.v.rot(i) || x.a.vel(i) != y.a.vel(i) || x.a.rot(i) != y.a.rot(i)) return false; for (int i = 0; i < 9; i++) if (x.f.M.data[i] != y.f.M.data[i]) return false; return true; }
static R faintness(const Piece& q) { return (q.ang > 0 && q.ang < 3e-6L ? 3e-6L * std::max(R(1), q.eq) : 0) + (!q.arc && q.dist > 0 && q.dist < 3e-6L ? 3e-6L : 0); } // below the library's resolution of 1e-6 in angles and displacements
static void follows(Case& c, const Path& p, const Curve& cv, R size, const std::string& key, int n) {
    R L = total(cv), tol = 1e-10L * size; std::vector<R> cum{0}; R slack = 0; for (auto& q : cv) { cum.push_back(cum.back() + q.len); if (cv.size() > 1) slack += faintness(q); }
    for (int i = 0; i < n; i++) {
        size_t k = c.r.below(cv.size()); const Piece& q = cv[k]; R fz = faintness(q); double sd = c.r.uni(-2, 2), sdd = c.r.uni(-3, 3); bool faint = q.arc && q.turn < 1e-2L && q.turn > 0, multi = cv.size() > 1;
        if (multi && (q.len == 0 || q.len < 1e-6L * L || q.len < 10 * slack)) continue; // its limits inside the whole are not known well enough
        if (fz > 0 && q.len < 2 * fz) continue;
        R in = q.len * (c.r.chance(0.15) ? 1e-7 : c.r.chance(0.15) ? 1 - 1e-7 : c.r.uni(1e-6, 1 - 1e-6)); if (faint || (multi && (slack > 0 || q.len < 1e-4L * (L + size)))) in = q.len * R(c.r.uni(0.2, 0.8)); double s = double(cum[k] + in); if (!multi && c.r.chance(0.2)) s = c.r.chance(0.5) || c.desc.find("times") != std::string::npos ? 0 : double(L); in = (R)s - cum[k];
        Rates r = look(p, s, sd, sdd); R ratio = q.len > 0 ? (slack + fz) / q.len : 0, tr = tol + (q.len > 0 ? 1e-15L * L / q.len * (1 + q.ang + q.turn) * size : 0); std::string where = fmt("s=%.9g of %.9Lg", s, L); if (faint) tr += 1e-12L / (q.turn * q.turn);
        tr += fz + ratio * (q.lin() + q.ang); eq(c, rt(r.f), q.pos(in), double(tr), key + ".pos", where);
        if (q.len == 0 || faint) continue; S6 d = q.d(in), dd = q.dd(in); R k2 = (q.ang + q.turn) / q.len, sp = ref::norm(d.a) + ref::norm(d.b), tf = fz / q.len + ratio * sp; eq(c, rs(r.v), d * sd, double((tr * (1 + k2) + tf) * (1 + fabs(sd))), key + ".vel", where); eq(c, rs(r.a), d * sdd + dd * ((R)sd * sd), double((tr * (1 + k2) * (1 + k2) + tf * (1 + k2)) * (1 + sd * sd + fabs(sdd))), key + ".acc", where);
        R lv = ref::norm(rv(r.v.vel)), av = ref::norm(rv(r.v.rot)) * q.eq; c.near(double(std::max(lv, av)), fabs(sd), double((1e-8L + tr * k2 * q.eq + tf * (1 + q.eq)) * (1 + fabs(sd))), key + ".unit-speed", where);
    }
}
static void whole(Case& c, Path& p, const Curve& cv, R size, const std::string& key) {
    R L = total(cv); c.near(p.PathLength(), double(L), 1e-10 * double(size + L), key + ".length"); follows(c, p, cv, size + L, key, 8 + 2 * int(cv.size()));
}
static void history(Case& c, const Path& p, double L, const std::vector<double>& marks) {
    std::vector<double> s = marks; for (int i = 0; i < 4; i++) s.push_back(c.r.uni(0, L)); std::vector<Rates> first; for (double x : s) first.push_back(look(p, x, 1.5, -0.5)); for (int k = 0; k < 25; k++) { size_t i = c.r.below(s.size()); if (c.r.chance(0.5)) p.Pos(c.r.uni(0, L)); Rates r = look(p, s[i], 1.5, -0.5); c.okf(identical(r, first[i]), "history", [&] { return fmt("the answer at s=%.17g of %.17g changed after other questions", s[i], L); }); }
}
static void any(Case& c) {
    Made m; build(c, m, 2); c.desc = m.d; whole(c, *m.p, m.c, m.size, "path"); std::vector<double> marks{0, m.p->PathLength()}; double cum = 0; if (auto* q = dynamic_cast<Path_Composite*>(m.p.get())) {
        int n = q->GetNrOfSegments(); for (int i = 0; i < n; i++) { double b = cum; cum += q->GetSegment(i)->PathLength(); c.near(q->GetLengthToEndOfSegment(i), cum, 1e-12 * (1 + cum), "segments.end"); marks.push_back(cum); double s = b + (cum - b) * c.r.u01(), in = -1; int k = -1; q->GetCurrentSegmentLocation(s, k, in); c.okf(k >= 0 && k < n && std::fabs((k ? q->GetLengthToEndOfSegment(k - 1) : 0) + in - s) <= 1e-12 * (1 + s) && in >= -1e-12 * (1 + s) && in <= q->GetSegment(k)->PathLength() + 1e-12 * (1 + s), "segments.location", [&] { return fmt("s=%g: segment %d of %d at %g", s, k, n, in); }); if (k >= 0 && k < n) { Rates x = look(*q, s, 1, 2), y = look(*q->GetSegment(k), in, 1, 2); c.ok(identical(x, y), "segments.delegate"); } }
        c.near(q->PathLength(), cum, 1e-12 * (1 + cum), "segments.total"); bool no = false; try { q->LengthToS(1); } catch (const Error_MotionPlanning_Not_Applicable&) { no = true; } c.ok(no, "lengthtos.refused"); }
    else if (m.c.size() == 1 && m.c[0].lin() > 1e-3 && (m.p->getIdentifier() == Path::ID_LINE || m.p->getIdentifier() == Path::ID_CIRCLE)) { const Piece& p = m.c[0]; double l = double(p.lin()) * c.r.u01(), s = m.p->LengthToS(l); c.near(s, double(l / p.lin() * p.len), 1e-10 * double(p.len), "lengthtos"); }
    double L = m.p->PathLength(); if (m.p->getIdentifier() == Path::ID_CYCLIC_CLOSED) marks.clear(); history(c, *m.p, L, marks);
    // copies are equal and live on their own
    std::unique_ptr<Path> k(m.p->Clone()); c.ok(k->getIdentifier() == m.p->getIdentifier(), "clone.kind"); bool shared = !m.rots.empty(); auto rots = std::move(m.rots); m.p.reset(); m.own.clear(); whole(c, *k, m.c, m.size, "clone"); std::unique_ptr<Path> k2(k->Clone()); k.reset(); whole(c, *k2, m.c, m.size, "clone-of-clone"); (void)shared;
}
// rotations by (nearly) half a turn: the axis is the library's choice, but it is one choice
static void halfturn(Case& c) {
    T4 a = rt(kf(at(c))); V3 ax = unitvec(c.r); R th = R(M_PI) - (c.r.chance(0.4) ? 0 : c.r.logu(1e-16, 1e-3)); T4 e(a.M * ref::rot(ax, th), a.p + unitvec(c.r) * (c.r.chance(0.3) ? 0 : c.r.uni(0.1, 2))); e = rt(kf(e)); double eqrad = eqr(c); bool arc = c.r.chance(0.3); c.desc = fmt("half turn minus %.3Lg about %s", R(M_PI) - th, s(ax).c_str()); std::unique_ptr<Path> p;
    if (arc) { V3 x = unitvec(c.r), y; do y = unitvec(c.r); while (ref::norm(ref::cross(x, y)) < 0.2); Vector k = kv(a.p - x * 0.7L); p.reset(new Path_Circle(kf(a), k, k + kv(y), km(e.M), c.r.uni(0.3, 5), new SA(), eqrad)); } else p.reset(new Path_Line(kf(a), kf(e), new SA(), eqrad));
    double L = p->PathLength(); eq(c, rm(p->Pos(0).M), a.M, 1e-12, "half.start"); eq(c, rm(p->Pos(L).M), e.M, 3e-6, "half.end"); std::unique_ptr<Path> k(p->Clone()); k.reset(k->Clone());
    for (int i = 0; i < 6; i++) { double u = c.r.u01(); eq(c, rt(k->Pos(u * k->PathLength())), rt(p->Pos(u * L)), 1e-5, "half.clone", fmt("at %g of the path", u)); S6 v = rs(p->Vel(u * L, 1)); R dl = 1e-4L * L; M3 dr = ref::T(rm(p->Pos(double(u * L)).M)) * rm(p->Pos(double(u * L + dl)).M); V3 w; R t; logR(dr, w, t); eq(c, v.b, rm(p->Pos(u * L).M) * w * (t / dl), 1e-3 * double(1 + ref::norm(v.b)), "half.vel"); }
    c.cover(fmt("half turn %s 1e%d", arc ? "circle" : "line", th == R(M_PI) ? -99 : int(floorl(log10l(R(M_PI) - th)))));
}
static int why(Path_RoundedComposite& p, const Frame& f) { try { p.Add(f); } catch (const Error_MotionPlanning_Not_Feasible& e) { return e.GetType(); } catch (const Error& e) { return -e.GetType(); } return 0; }
static Piece lineRef(const T4& a, const T4& b, double eqrad) { Piece p; p.a = a; V3 d = b.p - a.p; p.dist = ref::norm(d); p.dir = p.dist > 0 ? d / p.dist : V3(); logR(ref::T(a.M) * b.M, p.ax, p.ang); p.eq = eqrad; p.done(); return p; }
static void rounded(Case& c) {
    double scale = c.r.chance(0.7) ? 1 : c.r.logu(3e-4, 100), rad = scale * (c.r.chance(0.7) ? c.r.uni(0.05, 0.8) : c.r.logu(3e-2, 3)), eqrad = eqr(c); bool own = c.r.chance(0.6); Made m; if (c.r.chance(0.05)) { int t = 0; auto* o = new SA(); double bad = -c.r.uni(0, 1); try { Path_RoundedComposite x(rad, bad, o, true); } catch (const Error_MotionPlanning_Not_Feasible& e) { t = e.GetType(); } c.ok(t == 3101, "rounded.eqradius", fmt("eqradius %g: %d", bad, t)); c.cover("bad eqradius"); }
    std::unique_ptr<RotationalInterpolation> o(new SA()); std::unique_ptr<Path_RoundedComposite> p(new Path_RoundedComposite(rad, eqrad, o.get(), own)); if (own) o.release();
    int want = c.r.size(1, 6, 16), n = 0, tries = 0; Curve cv; T4 from, via; R size = 1; c.desc = fmt("rounded radius %.4g eqradius %.4g:", rad, eqrad); int cloneAt = c.r.chance(0.3) ? c.r.range(0, want - 1) : -1;
    while (n < want && tries++ < 40) {
        if (n == cloneAt) { cloneAt = -1; std::unique_ptr<Path_RoundedComposite> q(static_cast<Path_RoundedComposite*>(p->Clone())); p = std::move(q); o.reset(); c.cover("cloned while growing"); }
        T4 f; if (n == 0) f = at(c); else { V3 base = n == 1 ? from.p : via.p, step; double u = c.r.u01(); bool on = n >= 2 && ref::norm(via.p - from.p) > 1e-6L; if (n >= 2 && !on) u = c.r.uni(0.4, 0.9); if (n >= 2 && u < 0.25) step = ref::unit(via.p - from.p) * R(c.r.uni(0.3, 3)); else if (n >= 2 && u < 0.35) step = ref::unit(via.p - from.p) * R(-c.r.uni(0.3, 3)); else if (u < 0.45) step = V3(); else step = unitvec(c.r) * R(c.r.uni(0.3, 4)); if (scale != 1 && n >= 1) step = step * R(scale); if (n >= 2 && u >= 0.92) { V3 t; do t = ref::cross(unitvec(c.r), ref::unit(via.p - from.p)); while (ref::norm(t) < 0.2); step = ref::unit(via.p - from.p) + ref::unit(t) * R(c.r.logu(1e-9, 1e-2)); } f = T4(c.r.chance(0.3) ? (n == 1 ? from.M : via.M) : (n == 1 ? from.M : via.M) * ref::rot(unitvec(c.r), angle(c) * 0.95), base + step); }
        f = rt(kf(f)); int got, exp = 0; bool loose = false; Curve add; T4 nf, nv; got = why(*p, kf(f));
        if (n == 0) nf = f; else if (n == 1) { nf = from; nv = f; }
        else {
            V3 ab = via.p - from.p, bc = f.p - via.p; R la = ref::norm(ab), lb = ref::norm(bc), al = 0; auto edge = [&](R x, R y) { return fabsl(x - y) < 1e-9L * (1 + y); };
            loose = la < 2e-6L || lb < 2e-6L; if (la < 1e-7L) exp = 3102; else if (lb < 1e-7L) exp = 3103; else { al = atan2l(ref::norm(ref::cross(ab, bc)), ref::dot(ab, bc)); R d = rad * tanl(al / 2); if (R(M_PI) - al < 1e-7L) exp = 3104; else if (al < 2e-6L) { } else if (d >= la) exp = 3105; else if (d >= lb) exp = 3106; loose = loose || edge(d, la) || edge(d, lb) || la < 2e-6L || lb < 2e-6L || R(M_PI) - al < 2e-6L || (al > 1.9e-6L && al < 2.1e-6L); 
                if (R(M_PI) - al < 2e-6L && got != 0) exp = got; // on top of each other: 3104 or 3105
                if (!exp) { if (al < 2e-6L || got == 0 && loose && al < 2.1e-6L) { add.push_back(lineRef(from, via, eqrad)); nf = via; nv = f; }
                    else { Piece l1 = lineRef(from, via, eqrad), l2 = lineRef(via, f, eqrad); T4 cs = l1.pos(l1.len * (la - d) / la), ce = l2.pos(l2.len * d / lb); add.push_back(lineRef(from, cs, eqrad)); Piece q; q.arc = true; q.a = cs; V3 z = ref::unit(ref::cross(ab, bc)), t = ref::unit(ref::cross(ab, z)); q.rad = rad; q.ctr = cs.p - t * q.rad; q.x = t; q.y = ref::cross(z, t); q.turn = al; q.eq = eqrad; logR(ref::T(cs.M) * ce.M, q.ax, q.ang); q.done(); add.push_back(q); nf = ce; nv = f; } } }
        }
        c.desc += fmt(" %s->%d", s(f.p).c_str(), got); if (loose && got != exp && got > 3100) { c.cover("borderline"); continue; }
        if (!c.okf(got == exp, "rounded.verdict", [&] { return fmt("point %d: error %d, expected %d", n, got, exp); })) return; if (got) { c.cover(fmt("refused %d", got)); continue; }
        for (auto& q : add) { cv.push_back(q); } size = std::max(size, 1 + ref::norm(f.p)); if (n == 0) from = nf; else { from = nf; via = nv; } n++;
        if (loose && n > 2) { c.abandoned = true; return; }
    }
    p->Finish(); if (n == 1) { Piece q; q.a = from; q.ax = V3(0, 0, 1); cv.push_back(q); } else if (n >= 2) cv.push_back(lineRef(from, via, eqrad)); if (n == 0) return;
    R L = total(cv), fz = 0; for (auto& q : cv) fz += faintness(q); c.near(p->PathLength(), double(L), 1e-9 * double(size + L) + 3e-6 * eqrad * cv.size() + double(fz), "rounded.length"); c.okf(p->GetNrOfSegments() == int(cv.size()), "rounded.segments", [&] { return fmt("%d segments, expected %zu", p->GetNrOfSegments(), cv.size()); }); if (p->GetNrOfSegments() == 0) return; eq(c, rt(p->Pos(0)), cv[0].pos(0), 1e-9 * double(size), "rounded.start"); eq(c, rt(p->Pos(p->PathLength())), cv.back().pos(cv.back().len), 2e-6 + double(fz) + 1e-9 * double(size + L), "rounded.end");
    R worst = 1; for (auto& q : cv) if (q.arc) worst = std::max(worst, 1 / q.turn); follows(c, *p, cv, (size + L) * worst * 3, "rounded", 6 + 3 * int(cv.size()));
    for (size_t i = 0; i + 1 < cv.size(); i++) { double b = p->GetLengthToEndOfSegment(i), h = 1e-7; if (cv[i].len < 1e-5 || cv[i + 1].len < 1e-5) continue; Frame x = p->Pos(b - h), y = p->Pos(b + h); eq(c, rt(x), rt(y), 1e-6 + 1e-6 / eqrad, "rounded.continuous"); V3 u = rv(p->Vel(b - h, 1).vel), v = rv(p->Vel(b + h, 1).vel); if (ref::norm(u) > 1e-6 && ref::norm(v) > 1e-6 && (cv[i].arc || cv[i + 1].arc)) eq(c, ref::unit(u), ref::unit(v), 1e-4 * (1 + 1e-2 / rad), "rounded.smooth"); }
    std::unique_ptr<Path> k(p->Clone()); c.ok(k->getIdentifier() == Path::ID_ROUNDED_COMPOSITE, "rounded.clone.kind"); p.reset(); o.reset(); follows(c, *k, cv, (size + L) * worst * 3, "rounded.clone", 4); c.cover(fmt("rounded %d points", n));
}
// closed paths, several times around
static void around(Case& c) {
    Curve cv; std::unique_ptr<Path> g; R size = 1; Made m; if (c.r.chance(0.5)) { circle(c, m, nullptr, true); g = std::move(m.p); cv = m.c; size = m.size; g.reset(g->Clone()); c.desc = m.d; } else { int n = c.r.range(2, 5); std::vector<T4> k; for (int i = 0; i < n; i++) k.push_back(rt(kf(at(c)))); auto* q = new Path_Composite(); g.reset(q); double e = eqr(c); for (int i = 0; i < n; i++) { T4 a = k[i], b = k[(i + 1) % n]; Piece p = lineRef(a, b, e); if (p.ang > 3.1L) { b = T4(a.M, b.p); k[(i + 1) % n] = b; if (i == n - 1) return; p = lineRef(a, b, e); } q->Add(new Path_Line(kf(a), kf(b), new SA(), e)); cv.push_back(p); size += ref::norm(b.p); } c.desc = fmt("closed polygon of %d", n); }
    double L = g->PathLength(); if (L < 1e-2) return; int times = c.r.range(1, 20); std::unique_ptr<Path> p(new Path_Cyclic_Closed(g.release(), times)); if (c.r.chance(0.5)) p.reset(p->Clone()); c.near(p->PathLength(), L * times, 1e-12 * L * times, "around.length"); R tol = 1e-9L * (size + L * times);
    for (int i = 0; i < 10; i++) { int k = c.r.below(times); double s = c.r.uni(0.001, 0.999) * L; eq(c, rt(p->Pos(s + k * L)), rt(p->Pos(s)), double(tol * (1 + 1 / L)), "around.periodic"); eq(c, rs(p->Vel(s + k * L, 1.2)), rs(p->Vel(s, 1.2)), double(tol * (1 + 1 / L) * 10 + 0), "around.vel"); }
    Frame s0 = p->Pos(0); for (int k = 0; k <= times; k++) { double h = 1e-7 * L; if (k) eq(c, rt(p->Pos(k * L - h)), rt(s0), double(tol) + 1e-5 * double(L * 20 + size), "around.closes"); eq(c, rt(p->Pos(k * L)), rt(s0), double(tol * (1 + 1 / L)) + 3e-6, "around.start"); } c.cover(fmt("around %zu", cv.size()));
}
int main(int argc, char** argv) {
    Harness H("C26", argc, argv);
    H.rule("any", 50000, any); H.rule("halfturn", 20000, halfturn); H.rule("rounded", 40000, rounded); H.rule("around", 10000, around);
    return H.finish();
}
