// C25: velocity profiles go from start to end, monotonously, within their limits, in the
// time that was asked for but never faster than the limits allow; position, velocity
// and acceleration belong together; re-use, settings and copies do not disturb each other.
#include "gen.hpp"
#include "utilities/error.h"
#include "velocityprofile.hpp"
#include "velocityprofile_dirac.hpp"
#include "velocityprofile_rect.hpp"
#include "velocityprofile_spline.hpp"
#include "velocityprofile_trap.hpp"
#include "velocityprofile_traphalf.hpp"
#include <new>
using namespace KDL; using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
typedef long double ld;
struct Lim { double v, a; };
struct Ask { double p1, p2; int how; double arg; };                 // how: 0 fastest, 1 duration, 2 fraction of the velocity
static Lim lim(Case& c) { return {c.r.logu(1e-3, 1e2), c.r.logu(1e-2, 1e3)}; }
static double place(Case& c) { return c.r.chance(0.3) ? 0 : c.r.chance(0.05) ? c.r.logu(1e-9, 1e-3) : c.r.chance(0.5) ? c.r.uni(-5, 5) : (c.r.chance(0.5) ? 1 : -1) * c.r.logu(1e-3, 1e3); }
static double shift(Case& c, const Lim& l) { if (c.r.chance(0.1)) return 0; double d = c.r.chance(0.4) ? l.v * l.v / l.a * c.r.logu(0.2, 5) : c.r.logu(1e-5, 1e3); return c.r.chance(0.5) ? d : -d; }
// a sampled motion
struct Motion { double T; std::vector<double> t, p, v, a; };
static Motion record(Case& c, const VelocityProfile& f, bool acc, int n = 40) {
    Motion m; m.T = f.Duration(); double T = std::isfinite(m.T) && m.T > 0 ? m.T : 1; m.t = {-T, -1e-9 * T, 0, m.T, T * (1 + 1e-9), 2 * T + 1}; for (int i = 1; i < n; i++) m.t.push_back(T * i / n); for (int i = 0; i < 10; i++) m.t.push_back(c.r.uni(0, T)); std::sort(m.t.begin(), m.t.end());
    for (double x : m.t) { m.p.push_back(f.Pos(x)); m.v.push_back(f.Vel(x)); m.a.push_back(acc ? f.Acc(x) : 0); } return m;
}
static Motion again(const VelocityProfile& f, const Motion& o, bool acc) { Motion m; m.T = f.Duration(); m.t = o.t; for (double x : m.t) { m.p.push_back(f.Pos(x)); m.v.push_back(f.Vel(x)); m.a.push_back(acc ? f.Acc(x) : 0); } return m; }
static bool alike(const Motion& x, const Motion& y, double ps, double vs, double as, double tol) { if (!(std::fabs(x.T - y.T) <= tol * (x.T + 1e-9))) return false; for (size_t i = 0; i < x.t.size(); i++) { if (!(std::fabs(x.p[i] - y.p[i]) <= tol * ps)) return false; if (tol == 0 && (x.v[i] != y.v[i] || x.a[i] != y.a[i])) return false; } (void)vs; (void)as; return true; }
// what every profile owes, given its limits
static void owes(Case& c, const std::string& key, const Motion& m, double p1, double p2, const Lim& l, double size, bool accel, bool ends) {
    double d = p2 - p1, tp = 1e-12 * size, tv = 1e-9 * l.v; int n = m.t.size();
    c.ok(std::isfinite(m.T) && m.T >= 0, key + ".duration", fmt("duration %g", m.T));
    for (int i = 0; i < n; i++) {
        double t = m.t[i]; bool in = t > 0 && t < m.T; c.okf(std::isfinite(m.p[i]) && std::isfinite(m.v[i]) && std::isfinite(m.a[i]), key + ".finite", [&] { return fmt("at t=%g of %g: %g %g %g", t, m.T, m.p[i], m.v[i], m.a[i]); });
        if (t <= 0 && !(t == 0 && m.T == 0)) c.near(m.p[i], p1, tp, key + ".start", fmt("t=%g", t)); if (t >= m.T && !(t == 0 && m.T == 0)) c.near(m.p[i], p2, tp, key + ".end", fmt("t=%g of %g", t, m.T));
        if (t < 0 || t > m.T) { c.ok(m.v[i] == 0 && m.a[i] == 0, key + ".outside", fmt("moves at t=%g of %g", t, m.T)); }
        if (in) { c.okf((m.p[i] - p1) * (d >= 0 ? 1 : -1) >= -tp && (p2 - m.p[i]) * (d >= 0 ? 1 : -1) >= -tp, key + ".within", [&] { return fmt("position %.17g at t=%g is outside [%.17g, %.17g]", m.p[i], t, p1, p2); }); c.okf(m.v[i] * (d >= 0 ? 1 : -1) >= -tv, key + ".monotone", [&] { return fmt("velocity %g at t=%g while moving by %g", m.v[i], t, d); }); c.okf(std::fabs(m.v[i]) <= l.v * (1 + 1e-9), key + ".maxvel", [&] { return fmt("velocity %.12g at t=%g, allowed %.12g", m.v[i], t, l.v); }); if (accel) c.okf(std::fabs(m.a[i]) <= l.a * (1 + 1e-9), key + ".maxacc", [&] { return fmt("acceleration %.12g at t=%g, allowed %.12g", m.a[i], t, l.a); }); }
        if (i && m.t[i - 1] >= 0 && t <= m.T) {
            double h = t - m.t[i - 1], dp = m.p[i] - m.p[i - 1], dv = m.v[i] - m.v[i - 1], ab = accel ? l.a : 0; bool edge = !ends && (m.t[i - 1] == 0 || t == m.T);
            if (!edge) { c.okf(std::fabs(dp - h * (m.v[i] + m.v[i - 1]) / 2) <= ab * h * h / 4 * (1 + 1e-9) + 2 * tp + h * tv, key + ".derivative", [&] { return fmt("from t=%g to %g it moves by %.12g with velocities %.12g and %.12g", m.t[i - 1], t, dp, m.v[i - 1], m.v[i]); }); if (accel) { c.okf(std::fabs(dv) <= ab * h * (1 + 1e-9) + tv, key + ".acceleration", [&] { return fmt("the velocity changes by %g in %g", dv, h); }); } }
        }
    }
}
static ld fastest(const Lim& l, ld d) { d = std::fabs(d); ld v = l.v, a = l.a; return d >= v * v / a ? d / v + v / a : 2 * sqrtl(d / a); }
static void trapAt(const Lim& l, double p1, double p2, ld f, ld t, double& p, double& v, double& a, bool& corner) {
    ld d = std::fabs((ld)p2 - p1), s = p2 >= p1 ? 1 : -1, V = l.v, A = l.a, ta = d >= V * V / A ? V / A : sqrtl(d / A), vp = A * ta, T = d > 0 ? d / vp + ta : 0, x = t * f, P, W, B; corner = std::fabs(x - ta) < 1e-9L * T || std::fabs(x - (T - ta)) < 1e-9L * T || x <= 0 || x >= T * (1 - 1e-9L);
    if (x <= 0) { P = W = B = 0; } else if (x >= T) { P = d; W = B = 0; } else if (x < ta) { P = A * x * x / 2; W = A * x; B = A; } else if (x <= T - ta) { P = A * ta * ta / 2 + vp * (x - ta); W = vp; B = 0; } else { ld y = T - x; P = d - A * y * y / 2; W = A * y; B = -A; }
    p = p1 + s * P; v = s * W * f; a = s * B * f * f;
}
static double asked(Case& c, double T) { switch (c.r.below(6)) { case 0: return 0; case 1: return T * c.r.uni(0, 1); case 2: return T; case 3: return T * (1 + c.r.logu(1e-12, 1e-3)) + (T == 0 ? c.r.uni(0, 1) : 0); case 4: return T * c.r.uni(1, 3) + (T == 0 ? c.r.uni(0.1, 1) : 0); default: return T * c.r.logu(1, 100) + c.r.logu(1e-3, 10); } }
static void trap(Case& c) {
    VelocityProfile_Trap f(1, 1); int n = c.r.size(1, 4, 12);
    for (int k = 0; k < n; k++) {
        Lim l = lim(c); f.SetMax(l.v, l.a); double p1 = place(c), p2 = p1 + shift(c, l), d = p2 - p1; ld F = fastest(l, (ld)p2 - p1); double T = F, want; int how = c.r.below(3); double arg = how == 1 ? asked(c, T) : how == 2 ? (c.r.chance(0.2) ? c.r.uni(1, 3) : c.r.chance(0.1) ? 0 : c.r.logu(1e-3, 1)) : 0; ld fac = 1;
        if (how == 0) f.SetProfile(p1, p2); else if (how == 1) f.SetProfileDuration(p1, p2, arg); else f.SetProfileVelocity(p1, p2, arg);
        if (how == 1 && arg > T) fac = F / arg; if (how == 2) fac = std::min(1.0, std::max(arg, KDL::epsilon)); want = how == 1 ? std::max(T, arg) : double(F / fac);
        c.desc = fmt("trapezium v %g a %g: %.17g -> %.17g how %d arg %.17g", l.v, l.a, p1, p2, how, arg); double size = std::fabs(p1) + std::fabs(p2) + double(l.a * F * F) + 1e-9;
        Motion m = record(c, f, true); c.near(m.T, want, 1e-10 * want, "trap.duration", c.desc); Lim e{double(l.v * (how == 1 && d == 0 ? 1 : fac)), double(l.a * (how == 1 && d == 0 ? 1 : fac * fac))}; owes(c, "trap", m, p1, p2, e, size, true, true);
        for (size_t i = 0; i < m.t.size(); i++) { double p, v, a; bool corner; trapAt(l, p1, p2, fac, m.t[i], p, v, a, corner); if (d == 0) { p = p1; v = a = 0; } c.near(m.p[i], p, 1e-11 * size, "trap.pos", fmt("t=%g of %g", m.t[i], m.T)); if (!corner || d == 0) { c.near(m.v[i], v, 1e-8 * e.v + 1e-9 * std::fabs(v), "trap.vel", fmt("t=%g of %g", m.t[i], m.T)); c.near(m.a[i], a, 1e-8 * e.a, "trap.acc", fmt("t=%g of %g", m.t[i], m.T)); } }
        c.cover(fmt("trap how %d %s%s", how, d == 0 ? "nowhere" : fabs(d) >= l.v * l.v / l.a ? "full" : "peak", how == 1 ? arg > T ? " slower" : " too fast" : ""));
        std::unique_ptr<VelocityProfile> g(f.Clone()); c.ok(alike(m, again(*g, m, true), size, 0, 0, 1e-9), "trap.clone", c.desc); Lim l2 = lim(c); f.SetMax(l2.v, l2.a); g.reset(f.Clone()); c.ok(alike(m, again(f, m, true), size, 0, 0, 0), "trap.setmax", "new limits changed a motion already planned"); c.ok(alike(m, again(*g, m, true), size, 0, 0, 1e-9), "trap.clone-after-setmax", c.desc);
        f.SetProfile(place(c), place(c)); c.ok(alike(m, again(*g, m, true), size, 0, 0, 1e-9), "trap.clone-independent", c.desc);
    }
}
static void half(Case& c) {
    VelocityProfile_TrapHalf f(1, 1, true); int n = c.r.size(1, 4, 12);
    for (int k = 0; k < n; k++) {
        Lim l = lim(c); bool st = c.r.chance(0.5); f.SetMax(l.v, l.a, st); double p1 = place(c), p2 = p1 + shift(c, l); ld d = std::fabs((ld)p2 - p1), top = std::min((ld)l.v, sqrtl(2 * d * l.a)), F = d > 0 ? d / top + top / l.a / 2 : 0; double T = F; int how = c.r.below(2); double arg = how ? asked(c, T) : 0, want = how ? std::max(T, arg) : T;
        if (how) f.SetProfileDuration(p1, p2, arg); else f.SetProfile(p1, p2);
        c.desc = fmt("half trapezium v %g a %g starting %d: %.17g -> %.17g how %d arg %.17g", l.v, l.a, int(st), p1, p2, how, arg); double size = std::fabs(p1) + std::fabs(p2) + double(l.a * F * F) + double(top) * want + 1e-9;
        Motion m = record(c, f, true); c.near(m.T, want, 1e-10 * want, "half.duration", c.desc); owes(c, "half", m, p1, p2, {double(top) * (1 + 1e-9) + 1e-12, l.a}, size, true, false);
        if (d > 0) { double lo = 1e-7 * double(top), s = p2 > p1 ? 1 : -1, eps = 1e-9 * m.T; c.near(f.Vel(st ? m.T - eps : eps) * s, double(top), lo + l.a * 2 * eps, st ? "half.leaves-moving" : "half.arrives-moving", c.desc); c.near(f.Vel(st ? eps : m.T - eps) * s, 0, lo + l.a * 2 * eps, st ? "half.starts-at-rest" : "half.ends-at-rest", c.desc); }
        c.cover(fmt("half %s how %d %s%s", st ? "start" : "end", how, d == 0 ? "nowhere" : top == l.v ? "full" : "peak", how ? arg > T ? d > 0 && arg > 2 * d / top ? " waits" : " slower" : " too fast" : ""));
        std::unique_ptr<VelocityProfile> g(f.Clone()); c.ok(alike(m, again(*g, m, true), size, 0, 0, 1e-9), "half.clone", c.desc); Lim l2 = lim(c); f.SetMax(l2.v, l2.a, !st); g.reset(f.Clone()); c.ok(alike(m, again(f, m, true), size, 0, 0, 0), "half.setmax", c.desc); c.ok(alike(m, again(*g, m, true), size, 0, 0, 1e-9), "half.clone-after-setmax", c.desc); f.SetProfile(place(c), place(c)); c.ok(alike(m, again(*g, m, true), size, 0, 0, 1e-9), "half.clone-independent", c.desc);
    }
}
template <class F> static bool refuses(F&& f) { try { f(); } catch (const Error_MotionPlanning_Incompatible&) { return true; } return false; }
static void constant(Case& c) {
    VelocityProfile_Rectangular f(1); int n = c.r.size(1, 4, 12);
    for (int k = 0; k < n; k++) {
        Lim l = lim(c); f.SetMax(l.v); double p1 = place(c), p2 = p1 + shift(c, l), d = p2 - p1, T = std::fabs(d) / l.v; int how = c.r.below(2); double arg = how ? asked(c, T) : 0, want = how ? std::max(T, arg) : T; if (how) f.SetProfileDuration(p1, p2, arg); else f.SetProfile(p1, p2);
        c.desc = fmt("constant velocity %g: %.17g -> %.17g how %d arg %.17g", l.v, p1, p2, how, arg); double size = std::fabs(p1) + std::fabs(p2) + 1e-9; Motion m = record(c, f, false); c.near(m.T, want, 1e-11 * want, "rect.duration", c.desc); owes(c, "rect", m, p1, p2, l, size, false, false);
        for (size_t i = 0; i < m.t.size(); i++) if (m.t[i] > 0 && m.t[i] < m.T) { c.near(m.v[i], d / want, 1e-11 * l.v, "rect.vel", c.desc); c.near(m.p[i], p1 + d * (m.t[i] / want), 1e-12 * size, "rect.pos", c.desc); }
        c.ok(refuses([&] { f.Acc(0.5 * m.T); }), "rect.acc"); c.cover(fmt("rect how %d %s%s", how, d == 0 ? "nowhere" : d > 0 ? "forward" : "backward", how ? arg == 0 ? " no time" : arg > T ? " slower" : " too fast" : ""));
        std::unique_ptr<VelocityProfile> g(f.Clone()); c.ok(alike(m, again(*g, m, false), size, 0, 0, 1e-9), "rect.clone", c.desc); f.SetMax(l.v * c.r.logu(0.1, 10)); g.reset(f.Clone()); c.ok(alike(m, again(f, m, false), size, 0, 0, 0), "rect.setmax", c.desc); c.ok(alike(m, again(*g, m, false), size, 0, 0, 1e-9), "rect.clone-after-setmax", c.desc); f.SetProfile(place(c), place(c)); c.ok(alike(m, again(*g, m, false), size, 0, 0, 1e-9), "rect.clone-independent", c.desc);
    }
    VelocityProfile_Dirac j; n = c.r.size(1, 4, 12);
    for (int k = 0; k < n; k++) {
        double p1 = place(c), p2 = p1 + shift(c, {1, 1}); bool timed = c.r.chance(0.5); double T = timed && !c.r.chance(0.1) ? c.r.logu(1e-3, 100) : 0; if (timed) j.SetProfileDuration(p1, p2, T); else j.SetProfile(p1, p2); c.desc = fmt("jump %g -> %g in %g, plan %d", p1, p2, T, k); c.cover(fmt("jump %s%s", T > 0 ? "in time" : "at once", k ? " again" : ""));
        for (int w = 0; w < 2; w++) {
            std::unique_ptr<VelocityProfile> g(j.Clone()); const VelocityProfile& f = w ? *g : static_cast<VelocityProfile&>(j);
            if (T == 0) { double t = c.r.logu(1e-9, 10); c.ok(f.Duration() == 0 && f.Pos(-t) == p1 && f.Pos(0) == p1 && f.Pos(t) == p2, "jump", c.desc); c.ok(refuses([&] { f.Vel(t); }) && refuses([&] { f.Acc(t); }), "jump.rates"); continue; }
            Motion m = record(c, f, false); c.ok(m.T == T, "jump.duration"); double size = std::fabs(p1) + std::fabs(p2) + 1e-9; owes(c, "jump", m, p1, p2, {std::fabs(p2 - p1) / T + 1e-12, 1}, size, false, false); for (size_t i = 0; i < m.t.size(); i++) if (m.t[i] > 0 && m.t[i] < T) { c.near(m.p[i], p1 + (p2 - p1) * (m.t[i] / T), 1e-12 * size, "jump.pos"); c.near(m.v[i], (p2 - p1) / T, 1e-12 * size / T, "jump.vel"); }
        }
    }
}
static void spline(Case& c) {
    VelocityProfile_Spline f; int n = c.r.size(1, 4, 12);
    for (int k = 0; k < n; k++) {
        double T = c.r.logu(1e-2, 1e2), p1 = place(c), p2 = p1 + shift(c, {1, 1}), v1 = c.r.uni(-3, 3), v2 = c.r.uni(-3, 3), a1 = c.r.uni(-5, 5), a2 = c.r.uni(-5, 5); int deg = 1 + 2 * int(c.r.below(3));
        if (deg == 1) { f.SetProfileDuration(p1, p2, T); v1 = v2 = (p2 - p1) / T; a1 = a2 = 0; } else if (deg == 3) f.SetProfileDuration(p1, v1, p2, v2, T); else f.SetProfileDuration(p1, v1, a1, p2, v2, a2, T);
        c.desc = fmt("spline of degree %d: (%g %g %g) -> (%g %g %g) in %g", deg, p1, v1, a1, p2, v2, a2, T); c.cover(fmt("spline %d", deg)); double size = std::fabs(p1) + std::fabs(p2) + (std::fabs(v1) + std::fabs(v2)) * T + (std::fabs(a1) + std::fabs(a2)) * T * T, tol = 1e-11 * size;
        ld u1 = (ld)v1 * T, u2 = (ld)v2 * T, w1 = (ld)a1 * T * T, w2 = (ld)a2 * T * T;
        for (int w = 0; w < 2; w++) {
            std::unique_ptr<VelocityProfile> g(f.Clone()); if (w) f.SetProfileDuration(c.r.uni(-3, 3), c.r.uni(-3, 3), 2); c.near(g->Duration(), T, 0, "spline.duration");
            for (int i = 0; i <= 20; i++) { // Hermite basis on [0,1]
                ld x = i == 0 ? 0 : i == 20 ? 1 : c.r.u01(), P, V, A, x2 = x * x, x3 = x2 * x, x4 = x3 * x, x5 = x4 * x; double t = double(x * T); if (i == 20) t = T;
                if (deg == 1) { P = p1 + ((ld)p2 - p1) * x; V = (ld)p2 - p1; A = 0; }
                else if (deg == 3) { P = (2 * x3 - 3 * x2 + 1) * p1 + (x3 - 2 * x2 + x) * u1 + (-2 * x3 + 3 * x2) * p2 + (x3 - x2) * u2; V = (6 * x2 - 6 * x) * p1 + (3 * x2 - 4 * x + 1) * u1 + (-6 * x2 + 6 * x) * p2 + (3 * x2 - 2 * x) * u2; A = (12 * x - 6) * p1 + (6 * x - 4) * u1 + (-12 * x + 6) * p2 + (6 * x - 2) * u2; }
                else { P = (1 - 10 * x3 + 15 * x4 - 6 * x5) * p1 + (x - 6 * x3 + 8 * x4 - 3 * x5) * u1 + (x2 - 3 * x3 + 3 * x4 - x5) / 2 * w1 + (x3 - 2 * x4 + x5) / 2 * w2 + (-4 * x3 + 7 * x4 - 3 * x5) * u2 + (10 * x3 - 15 * x4 + 6 * x5) * p2;
                    V = (-30 * x2 + 60 * x3 - 30 * x4) * ((ld)p1 - p2) + (1 - 18 * x2 + 32 * x3 - 15 * x4) * u1 + (2 * x - 9 * x2 + 12 * x3 - 5 * x4) / 2 * w1 + (3 * x2 - 8 * x3 + 5 * x4) / 2 * w2 + (-12 * x2 + 28 * x3 - 15 * x4) * u2;
                    A = (-60 * x + 180 * x2 - 120 * x3) * ((ld)p1 - p2) + (-36 * x + 96 * x2 - 60 * x3) * u1 + (2 - 18 * x + 36 * x2 - 20 * x3) / 2 * w1 + (6 * x - 24 * x2 + 20 * x3) / 2 * w2 + (-24 * x + 84 * x2 - 60 * x3) * u2; }
                c.near(g->Pos(t), double(P), tol, "spline.pos", c.desc + fmt(" t=%g", t)); c.near(g->Vel(t), double(V / T), 10 * tol / T, "spline.vel", c.desc + fmt(" t=%g", t)); c.near(g->Acc(t), double(A / T / T), 100 * tol / T / T, "spline.acc", c.desc + fmt(" t=%g", t));
            }
        }
    }
}
// a profile that has not been planned yet is a rest of no duration, whatever was in its memory before
template <class T, class... A> static void blank(Case& c, const char* name, bool acc, A... a) {
    static double sink; alignas(16) unsigned char mem[sizeof(T)]; for (size_t i = 0; i < sizeof mem; i++) mem[i] = (unsigned char)c.r.range(1, 255); asm volatile("" : : "r"(mem) : "memory"); T* f = new (mem) T(a...); double d = f->Duration(); c.okf(d == 0, "blank", [&] { return std::string(name) + fmt(" starts with duration %g", d); }); std::unique_ptr<VelocityProfile> g(f->Clone()); c.ok(g->Duration() == 0, "blank.clone", name); c.okf(g->Pos(0) == 0 && f->Pos(0) == 0 && f->Pos(1) == 0, "blank.pos", [&] { return std::string(name) + fmt(" starts at %g", f->Pos(0)); }); if (acc) c.ok(f->Vel(0) == 0 && f->Acc(0) == 0, "blank.rates", name); (void)sink; f->~T();
}
static void fresh(Case& c) { double v = c.r.uni(0.1, 2), a = c.r.uni(0.1, 2); blank<VelocityProfile_Trap>(c, "trapezium", true, v, a); blank<VelocityProfile_TrapHalf>(c, "half trapezium", true, v, a, c.r.chance(0.5)); blank<VelocityProfile_Rectangular>(c, "constant velocity", false, v); blank<VelocityProfile_Dirac>(c, "jump", false); blank<VelocityProfile_Spline>(c, "spline", true); c.cover("fresh"); }
int main(int argc, char** argv) {
    Harness H("C25", argc, argv);
    H.rule("trap", 15000, trap); H.rule("half", 15000, half); H.rule("constant", 15000, constant); H.rule("spline", 10000, spline); H.rule("fresh", 200, fresh);
    return H.finish();
}
