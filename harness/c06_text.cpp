// C06: text form of values.  Print/parse round trips, documented literals,
// and hostile text: rejected with the library's own errors, never a hang, an
// overrun or a silently accepted truncation.
#include "gen.hpp"
#include "framevel_io.hpp"
#include "frameacc_io.hpp"
#include "kinfam_io.hpp"
#include "path.hpp"
#include "path_line.hpp"
#include "path_circle.hpp"
#include "path_point.hpp"
#include "path_composite.hpp"
#include "path_roundedcomposite.hpp"
#include "path_cyclic_closed.hpp"
#include "rotational_interpolation_sa.hpp"
#include "velocityprofile_dirac.hpp"
#include "velocityprofile_rect.hpp"
#include "velocityprofile_trap.hpp"
#include "velocityprofile_traphalf.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_stationary.hpp"
#include "utilities/error_stack.h"
#include "utilities/error.h"
#include <functional>
#include <memory>
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;

static void drainTrace() { std::ostringstream o; IOTraceOutput(o); }
static double num(Case& c) {
    switch (c.r.below(6)) { case 0: return 0; case 1: return c.r.sgn() * c.r.logu(1e-12, 1e12); case 2: return double(c.r.range(-20, 20)); default: return c.r.uni(-10, 10); }
}
static double diffv(const Vector& a, const Vector& b, double& mag) { double d = 0; for (int i = 0; i < 3; i++) { d = std::max(d, fabs(a(i) - b(i)) / (1e-300 + fabs(a(i)))); mag = 1; if (a(i) == b(i)) continue; } return d; }
struct Val { double rel; };
static double rel(const double* a, const double* b, int n) { double d = 0; for (int i = 0; i < n; i++) if (!(a[i] == b[i])) { double e = fabs(a[i] - b[i]) / std::max(fabs(a[i]), 1e-300); if (!(e <= d)) d = e; } return d; }
static double absd(const double* a, const double* b, int n) { double d = 0; for (int i = 0; i < n; i++) { double e = fabs(a[i] - b[i]); if (!(e <= d)) d = e; } return d; }
static void flat(const Vector& v, double* o) { for (int i = 0; i < 3; i++) o[i] = v(i); }
static void flat(const Twist& v, double* o) { for (int i = 0; i < 6; i++) o[i] = v(i); }
static void flat(const Wrench& v, double* o) { for (int i = 0; i < 6; i++) o[i] = v(i); }
static void flat(const Rotation& v, double* o) { for (int i = 0; i < 9; i++) o[i] = v.data[i]; }
static void flat(const Frame& v, double* o) { flat(v.M, o); flat(v.p, o + 9); }
static void flat(const Vector2& v, double* o) { o[0] = v(0); o[1] = v(1); }
static Vector gv(Case& c) { double a = num(c), b = num(c); return Vector(a, b, num(c)); }
template <class T> static bool parse(const std::string& s, T& out, std::string* err = nullptr) {
    std::istringstream is(s);
    try { is >> out; } catch (const Error& e) { if (err) *err = e.Description(); drainTrace(); return false; }
    return true;
}
template <class T> static void round(Case& c, const T& a, const T& garbage, int n, bool rotational, const char* key) {
    // full precision: exact; default precision: as printed
    std::ostringstream o; o.precision(17); o << a;
    T b(garbage); std::string e;
    double x[12], y[12]; flat(a, x);
    if (c.okf(parse(o.str(), b, &e), std::string(key) + ".parses", [&] { return "own output rejected: " + e + ": " + o.str(); })) {
        flat(b, y);
        c.okf(rel(x, y, n) <= 1e-15, std::string(key) + ".roundtrip", [&] { return "read back differs: " + o.str(); });
    }
    std::ostringstream o6; o6 << a;
    T b6(garbage);
    if (c.okf(parse(o6.str(), b6, &e), std::string(key) + ".parses6", [&] { return e; })) {
        flat(b6, y);
        c.okf((rotational ? absd(x, y, n) <= 1e-5 : rel(x, y, n) <= 1e-5), std::string(key) + ".roundtrip6", [&] { return "read back differs: " + o6.str(); });
    }
    // truncation anywhere is noticed
    std::string s = o.str();
    size_t last = s.find_last_of(']');
    size_t cut = size_t(c.r.below(int(last) + 1));
    T b2(garbage);
    c.okf(!parse(s.substr(0, cut), b2), std::string(key) + ".truncation-rejected", [&] { return "accepted the truncated text '" + s.substr(0, cut) + "'"; });
}
static void values(Case& c) {
    Vector v = gv(c);
    c.desc = vh::str(v);
    round(c, v, gv(c), 3, false, "vector");
    Vector a = gv(c), b = gv(c);
    round(c, Twist(a, b), Twist(b, a), 6, false, "twist");
    round(c, Wrench(b, a), Wrench(a, b), 6, false, "wrench");
    Rotation R = km(rotation(c.r));
    round(c, R, km(rotation(c.r)), 9, true, "rotation");
    Frame F(R, Vector(c.r.uni(-3, 3), 0, c.r.uni(-3, 3)));
    round(c, F, kframe(c.r), 12, true, "frame");
    double p = num(c);
    round(c, Vector2(p, num(c)), Vector2(1, 2), 2, false, "vector2");
    // planar rotations are printed in degrees
    double th = c.r.uni(-3.1, 3.1);
    { std::ostringstream o; o.precision(17); o << Rotation2(th); Rotation2 q(0.3); if (c.ok(parse(o.str(), q), "rotation2.parses", o.str())) c.near(q.GetRot(), th, 1e-13, "rotation2.roundtrip", o.str()); }
    { Frame2 f(Rotation2(th), Vector2(v(0), v(1))), g; std::ostringstream o; o.precision(17); o << f; if (c.ok(parse(o.str(), g), "frame2.parses", o.str())) { c.near(g.M.GetRot(), th, 1e-13, "frame2.roundtrip", o.str()); c.near(g.p(0), v(0), 1e-13 * fabs(v(0)), "frame2.roundtrip"); c.near(g.p(1), v(1), 1e-13 * fabs(v(1)), "frame2.roundtrip"); } }
    // several values on one stream
    std::ostringstream o; o.precision(17); o << v << R << F << "\n" << Twist(a, b) << " " << Wrench(b, a) << a;
    std::istringstream is(o.str());
    Vector v2, a2; Rotation R2; Frame F2; Twist t2; Wrench w2;
    bool ok = true; std::string e;
    try { is >> v2 >> R2 >> F2 >> t2 >> w2 >> a2; } catch (const Error& x) { ok = false; e = x.Description(); drainTrace(); }
    if (c.ok(ok, "sequence.parses", e)) c.ok(Equal(v2, v, 1e-9) && R2 == R && Equal(F2, F, 1e-12) && Equal(t2.vel, a, 1e-9 * (1 + a.Norm())) && Equal(w2.torque, a, 1e-9 * (1 + a.Norm())) && Equal(a2, a, 1e-9 * (1 + a.Norm())), "sequence.values");
}
// documented literals with random case, blanks and comments
static std::string ws(Case& c) {
    std::string o;
    int n = c.r.below(3);
    for (int i = 0; i < n; i++) switch (c.r.below(5)) {
        case 0: o += " "; break; case 1: o += "\n"; break; case 2: o += "\t"; break;
        case 3: o += c.r.chance(0.5) ? " # note ] [ ,\n " : " // note ] , \n "; break;
        default: o += " /* c ] , */ "; break;
    }
    return o;
}
static std::string kw(Case& c, std::string w) { for (auto& ch : w) if (c.r.chance(0.5)) ch = char(tolower(ch)); return w; }
static std::string list(Case& c, std::vector<double> v) { std::string o = ws(c) + "["; for (size_t i = 0; i < v.size(); i++) o += (i ? ws(c) + "," : std::string()) + ws(c) + fmt("%.17g", v[i]); return o + ws(c) + "]"; }
static void literals(Case& c) {
    const double D = 3.14159265358979323846 / 180;
    double a = c.r.uni(-170, 170), b = c.r.uni(-80, 80), g = c.r.uni(-170, 170);
    std::string e;
    ref::V3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
    struct L { const char* nm; ref::M3 m; };
    L ls[] = {{"EULERZYX", ref::rot(Z, a * D) * ref::rot(Y, b * D) * ref::rot(X, g * D)},
              {"EULERZYZ", ref::rot(Z, a * D) * ref::rot(Y, b * D) * ref::rot(Z, g * D)},
              {"RPY", ref::rot(Z, g * D) * ref::rot(Y, b * D) * ref::rot(X, a * D)}};
    for (auto& l : ls) {
        std::string s = ws(c) + kw(c, l.nm) + list(c, {a, b, g});
        c.desc = s;
        Rotation R = km(rotation(c.r));
        if (c.okf(parse(s, R, &e), std::string(l.nm) + ".parses", [&] { return e; })) eq(c, rm(R), l.m, 1e-13, l.nm);
    }
    ref::V3 ax = unitvec(c.r);
    { std::string s = ws(c) + kw(c, "ROT") + list(c, {double(ax[0]) * 2, double(ax[1]) * 2, double(ax[2]) * 2}) + list(c, {a}); c.desc = s; Rotation R; if (c.okf(parse(s, R, &e), "ROT.parses", [&] { return e; })) eq(c, rm(R), ref::rot(ax, a * D), 1e-13, "ROT"); }
    { std::string s = ws(c) + kw(c, "IDENTITY") + " ;"; c.desc = s; Rotation R = km(rotation(c.r)); if (c.okf(parse(s, R, &e), "IDENTITY.parses", [&] { return e; })) eq(c, rm(R), ref::M3::I(), 0, "IDENTITY"); }
    { std::string s = ws(c) + kw(c, "ZERO") + " ;"; c.desc = s; Vector v(1, 2, 3); if (c.okf(parse(s, v, &e), "ZERO.parses", [&] { return e; })) eq(c, rv(v), ref::V3(), 0, "ZERO"); }
    double p = c.r.uni(-2, 2), d = c.r.uni(-2, 2);
    ref::T4 dh = ref::T4(ref::rot(Z, g * D), ref::V3()) * ref::T4(ref::M3::I(), ref::V3(0, 0, d)) * ref::T4(ref::M3::I(), ref::V3(p, 0, 0)) * ref::T4(ref::rot(X, a * D), ref::V3());
    { std::string s = ws(c) + kw(c, "DH") + list(c, {p, a, d, g}); c.desc = s; Frame F; if (c.okf(parse(s, F, &e), "DH.parses", [&] { return e; })) eq(c, rt(F), dh, 1e-13, "DH"); }
    { std::string s = ws(c) + "[" + kw(c, "RPY") + list(c, {a, b, g}) + list(c, {p, d, a}) + ws(c) + "]"; c.desc = s; Frame F; if (c.okf(parse(s, F, &e), "frame-literal.parses", [&] { return e; })) eq(c, rt(F), ref::T4(ls[2].m, ref::V3(p, d, a)), 1e-13, "frame-literal"); }
    { std::string s = list(c, {p, d, a}); c.desc = s; Vector v; if (c.okf(parse(s, v, &e), "vector-literal.parses", [&] { return e; })) eq(c, rv(v), ref::V3(p, d, a), 0, "vector-literal"); }
    { std::string s = ws(c) + "FOO" + list(c, {a, b, g}); Rotation R; Vector v; Frame F; c.ok(!parse(s, R) && !parse(s, v) && !parse(s, F), "unknown-literal-rejected"); }
}
// ---- motion objects ------------------------------------------------------
static Frame mf(Case& c) { return Frame(km(ref::rot(unitvec(c.r), c.r.uni(-3, 3))), Vector(c.r.uni(-2, 2), c.r.uni(-2, 2), c.r.uni(-2, 2))); }
static Path* simplePath(Case& c, int depth, std::string& d) {
    switch (c.r.below(depth > 0 ? 6 : 3)) {
    case 0: d += "POINT "; return new Path_Point(mf(c));
    case 1: case 3: {
        d += "LINE ";
        Frame a = mf(c), b = mf(c);
        if (c.r.chance(0.15)) b.M = a.M; else if (c.r.chance(0.15)) b.p = a.p;
        return new Path_Line(a, b, new RotationalInterpolation_SingleAxis(), c.r.uni(0.05, 1.5));
    }
    case 2: {
        d += "CIRCLE ";
        Frame a = mf(c); Vector ctr = a.p + Vector(c.r.uni(0.2, 1), c.r.uni(-1, 1), c.r.uni(-1, 1));
        Vector x = a.p - ctr, q;
        do q = kv(unitvec(c.r)); while ((x * q).Norm() < 0.2 * x.Norm());
        return new Path_Circle(a, ctr, ctr + q * c.r.uni(0.3, 2), mf(c).M, c.r.uni(0.2, 6), new RotationalInterpolation_SingleAxis(), c.r.uni(0.05, 1));
    }
    case 4: { d += "COMPOSITE( "; Path_Composite* p = new Path_Composite(); int n = c.r.size(1, 4, 15); for (int i = 0; i < n; i++) p->Add(simplePath(c, depth - 1, d)); d += ") "; return p; }
    default: { d += "CYCLIC( "; Path* g = simplePath(c, depth - 1, d); while (g->PathLength() < 1e-3) { delete g; d += "again "; g = simplePath(c, depth - 1, d); } d += ") "; return new Path_Cyclic_Closed(g, c.r.range(1, 4)); }
    }
}
static void comparePaths(Case& c, Path* p, Path* q, double tol, const char* key) {
    double L = p->PathLength();
    c.near(q->PathLength(), L, tol * (1 + L), std::string(key) + ".length");
    for (int i = 0; i <= 8; i++) {
        double s = L * (i == 8 ? 0.999999 : i / 8.0 * 0.99999 + 1e-7);
        // both paths at the same fraction of their own length
        double s2 = s / (L > 0 ? L : 1) * q->PathLength();
        Frame a = p->Pos(s), b = q->Pos(L > 0 ? s2 : s);
        eq(c, rt(b), rt(a), tol * (1 + L) * 20, std::string(key) + ".pos", fmt("at s=%.6g of %.6g", s, L));
    }
}
// trajectories whose profiles are planned on their paths, as their text says
static Trajectory* anyTrajectory(Case& c, int depth, std::string& d) {
    int k = c.r.below(depth > 0 ? 4 : 3);
    if (k == 2) { d += "STATIONARY "; return new Trajectory_Stationary(c.r.chance(0.2) ? 0 : c.r.logu(1e-3, 1e3), mf(c)); }
    if (k == 3) { d += "COMPOSITE{ "; Trajectory_Composite* t = new Trajectory_Composite(); int n = c.r.size(1, 4, 15); for (int i = 0; i < n; i++) t->Add(anyTrajectory(c, depth - 1, d)); d += "} "; return t; }
    std::string e; std::unique_ptr<Path> p; do { e.clear(); p.reset(simplePath(c, 1, e)); } while (p->PathLength() < 1e-3); d += e; VelocityProfile* v = c.r.chance(0.5) ? static_cast<VelocityProfile*>(new VelocityProfile_Trap(c.r.uni(0.2, 2), c.r.uni(0.2, 3))) : new VelocityProfile_Rectangular(c.r.uni(0.2, 2)); v->SetProfile(0, p->PathLength()); return new Trajectory_Segment(p.release(), v);
}
static void motion(Case& c) {
    std::string d;
    if (c.idx % 3 == 0) {
        std::unique_ptr<Trajectory> t(anyTrajectory(c, 2, d)), u; c.desc = d; std::ostringstream o; o.precision(17); t->Write(o); std::istringstream is(o.str()); std::string e;
        try { u.reset(Trajectory::Read(is)); } catch (const Error& x) { e = x.Description(); drainTrace(); }
        if (c.okf(bool(u), "trajectories.parses", [&] { return "own output rejected: " + e + "\n" + o.str(); })) {
            double T = t->Duration(); c.near(u->Duration(), T, 1e-9 * (1 + T), "trajectories.duration"); c.cover(d[0] == 'S' ? "stationary" : d.substr(0, 10) == "COMPOSITE{" ? "composite trajectory" : "segment trajectory");
            for (int i = 0; i <= 12; i++) { double x = T * (i == 0 ? -0.1 : i == 12 ? (d.find("CYCLIC") == std::string::npos && d.find("POINT") == std::string::npos ? 1.1 : 0.99) : c.r.u01()); Frame a = t->Pos(x), b = u->Pos(x);
                // where a cycle or a stop jumps, either side will do
                for (double y : {x - 1e-9 * (1 + T), x + 1e-9 * (1 + T)}) if (!Equal(a, b, 1e-7 * (1 + T)) && Equal(t->Pos(y), b, 1e-7 * (1 + T))) a = t->Pos(y);
                eq(c, rt(b), rt(a), 1e-7 * (1 + T), "trajectories.pos", fmt("at t=%.9g of %.9g", x, T)); }
        }
        d.clear();
    }
    std::unique_ptr<Path> p(simplePath(c, 2, d));
    c.desc = d;
    bool point = d.find("POINT") != std::string::npos;
    std::ostringstream o; o.precision(17);
    p->Write(o);
    std::istringstream is(o.str());
    std::unique_ptr<Path> q;
    std::string e;
    try { q.reset(Path::Read(is)); } catch (const Error& x) { e = x.Description(); drainTrace(); }
    if (c.okf(bool(q), "path.parses", [&] { return "own output rejected: " + e + "\n" + o.str(); })) {
        c.cover(point ? "with-point" : "without-point");
        comparePaths(c, p.get(), q.get(), 1e-9, "path");
        c.ok(q->getIdentifier() == p->getIdentifier(), "path.kind");
    }
    // rounded composite: written as the composite it consists of
    if (c.idx % 4 == 0) {
        Path_RoundedComposite rc(0.1, 0.2, new RotationalInterpolation_SingleAxis());
        bool ok = true;
        Vector at(0, 0, 0);
        std::ostringstream lit; lit.precision(17); int nf = c.r.size(2, 5, 14); lit << "ROUNDEDCOMPOSITE[ 0.1 0.2 "; RotationalInterpolation_SingleAxis().Write(lit); lit << " " << nf << "\n";
        try { for (int i = 0; i < nf; i++) { Frame f = mf(c); at = at + Vector(c.r.uni(0.6, 2), c.r.uni(0.6, 1) * c.r.sgn(), c.r.uni(-1, 1)); f.p = at; lit << f << "\n"; rc.Add(f); } rc.Finish(); } catch (const Error&) { ok = false; }
        lit << "]\n";
        if (ok) {
            std::ostringstream os; os.precision(17); rc.Write(os);
            std::istringstream is2(os.str());
            std::unique_ptr<Path> r;
            try { r.reset(Path::Read(is2)); } catch (const Error& x) { e = x.Description(); drainTrace(); }
            if (c.okf(bool(r), "rounded.parses", [&] { return e + os.str(); })) comparePaths(c, &rc, r.get(), 1e-9, "rounded");
            // the form that describes the rounded path by its corners
            std::istringstream is3(lit.str()); std::unique_ptr<Path> g;
            try { g.reset(Path::Read(is3)); } catch (const Error& x) { e = x.Description(); drainTrace(); }
            if (c.okf(bool(g), "rounded-literal.parses", [&] { return e + lit.str(); })) { comparePaths(c, &rc, g.get(), 1e-9, "rounded-literal"); c.ok(g->getIdentifier() == Path::ID_ROUNDED_COMPOSITE, "rounded-literal.kind"); c.cover("rounded literals"); }
        }
    }
    // velocity profiles and trajectory segments
    double v = c.r.uni(0.2, 2), acc = c.r.uni(0.2, 3), L = p->PathLength();
    VelocityProfile* vp;
    switch (c.r.below(3)) { case 0: vp = new VelocityProfile_Rectangular(v); break; case 1: vp = new VelocityProfile_Trap(v, acc); break; default: vp = new VelocityProfile_TrapHalf(v, acc, c.r.chance(0.5)); break; }
    if (L < 1e-6) { delete vp; return; }
    vp->SetProfile(0, L);
    std::unique_ptr<Trajectory> t(new Trajectory_Segment(p.release(), vp));
    std::ostringstream ot; ot.precision(17); t->Write(ot);
    std::istringstream it(ot.str());
    std::unique_ptr<Trajectory> u;
    try { u.reset(Trajectory::Read(it)); } catch (const Error& x) { e = x.Description(); drainTrace(); }
    if (c.okf(bool(u), "trajectory.parses", [&] { return e + ot.str(); })) { std::ostringstream o2; o2.precision(17); u->Write(o2); Trajectory_Segment* a = dynamic_cast<Trajectory_Segment*>(u.get()); c.ok(a && a->GetPath() && a->GetProfile(), "trajectory.kind"); if (a) comparePaths(c, static_cast<Trajectory_Segment*>(t.get())->GetPath(), a->GetPath(), 1e-9, "trajectory.path"); }
    // a profile read back describes the same motion law once given the same end points
    std::ostringstream op; op.precision(17); vp->Write(op);
    std::istringstream ip(op.str());
    std::unique_ptr<VelocityProfile> w;
    try { w.reset(VelocityProfile::Read(ip)); } catch (const Error& x) { e = x.Description(); drainTrace(); }
    if (c.okf(bool(w), "profile.parses", [&] { return e + op.str(); })) {
        w->SetProfile(0, L);
        c.near(w->Duration(), vp->Duration(), 1e-9 * (1 + vp->Duration()), "profile.duration", op.str());
        for (int i = 0; i <= 4; i++) { double tt = vp->Duration() * i / 4; c.near(w->Pos(tt), vp->Pos(tt), 1e-9 * (1 + L), "profile.pos", op.str()); c.near(w->Vel(tt), vp->Vel(tt), 1e-9 * (1 + v), "profile.vel", op.str()); }
    }
}
// ---- several things in one stream: each takes its own text and no more ---------
template <class T> static std::function<bool(std::istream&)> matrixly(const T& a, int n, double tol) {
    return [a, n, tol](std::istream& is) { T b; is >> b; double x[12], y[12]; flat(a, x); flat(b, y); return absd(x, y, n) <= tol * 1e13; };
}
static void sequence(Case& c) {
    std::ostringstream o; o.precision(17); std::vector<std::function<bool(std::istream&)>> rd; std::vector<std::string> nm; int n = c.r.size(2, 7, 25);
    for (int i = 0; i < n; i++) {
        o << ws(c);
        switch (c.r.below(13)) {
        case 0: { Vector v = gv(c); o << v; rd.push_back(matrixly(v, 3, 1e-16)); nm.push_back("vector"); break; }
        case 1: { Rotation v = mf(c).M; o << v; rd.push_back(matrixly(v, 9, 1e-25)); nm.push_back("rotation"); break; }
        case 2: { Frame v = mf(c); o << v; rd.push_back(matrixly(v, 12, 1e-25)); nm.push_back("frame"); break; }
        case 3: { Twist v(gv(c), gv(c)); o << v; rd.push_back(matrixly(v, 6, 1e-16)); nm.push_back("twist"); break; }
        case 4: { Wrench v(gv(c), gv(c)); o << v; rd.push_back(matrixly(v, 6, 1e-16)); nm.push_back("wrench"); break; }
        case 5: { Vector2 v(num(c), num(c)); o << v; rd.push_back(matrixly(v, 2, 1e-16)); nm.push_back("vector2"); break; }
        case 6: { RotationalInterpolation_SingleAxis().Write(o); rd.push_back([](std::istream& is) { return bool(std::unique_ptr<RotationalInterpolation>(RotationalInterpolation::Read(is))); }); nm.push_back("interpolation"); break; }
        case 7: { std::string d; std::unique_ptr<Path> p(simplePath(c, 1, d)); p->Write(o); double L = p->PathLength(); auto k = p->getIdentifier(); rd.push_back([L, k](std::istream& is) { std::unique_ptr<Path> q(Path::Read(is)); return q && q->getIdentifier() == k && fabs(q->PathLength() - L) <= 1e-9 * (1 + L); }); nm.push_back("path " + d); break; }
        case 8: case 9: case 10: {
            std::unique_ptr<VelocityProfile> v; double a = c.r.uni(0.2, 2), b = c.r.uni(0.2, 2); int k = c.r.below(4); std::string t;
            if (k == 0) v.reset(new VelocityProfile_Dirac()), t = "jump"; else if (k == 1) v.reset(new VelocityProfile_Rectangular(a)), t = "constant"; else if (k == 2) v.reset(new VelocityProfile_Trap(a, b)), t = "trapezium"; else v.reset(new VelocityProfile_TrapHalf(a, b, c.r.chance(0.5))), t = "half";
            v->Write(o); v->SetProfile(0, 3); double T = v->Duration(), m = k ? v->Pos(T * 0.3) : 0; rd.push_back([=](std::istream& is) { std::unique_ptr<VelocityProfile> q(VelocityProfile::Read(is)); if (!q) return false; q->SetProfile(0, 3); return fabs(q->Duration() - T) <= 1e-9 * (1 + T) && (!k || fabs(q->Pos(T * 0.3) - m) < 1e-9); }); nm.push_back(t); break; }
        case 11: { std::string d; std::unique_ptr<Trajectory> t(anyTrajectory(c, 1, d)); t->Write(o); double T = t->Duration(); rd.push_back([T](std::istream& is) { std::unique_ptr<Trajectory> q(Trajectory::Read(is)); return q && fabs(q->Duration() - T) <= 1e-9 * (1 + T); }); nm.push_back("trajectory " + d); break; }
        default: { std::string d; std::unique_ptr<Path> p; do { d.clear(); p.reset(simplePath(c, 1, d)); } while (p->PathLength() < 1e-3); double L = p->PathLength(); std::unique_ptr<Trajectory_Segment> t(new Trajectory_Segment(p.release(), new VelocityProfile_Trap(1, 1))); t->GetProfile()->SetProfile(0, L); t->Write(o); double T = t->Duration(); rd.push_back([T](std::istream& is) { std::unique_ptr<Trajectory> q(Trajectory::Read(is)); return q && fabs(q->Duration() - T) <= 1e-9 * (1 + T); }); nm.push_back("segment " + d); break; }
        }
        o << ws(c) << "[" << i << ",2,3]";
    }
    std::istringstream is(o.str()); c.desc = o.str(); std::string e;
    for (int i = 0; i < n; i++) {
        bool good = false; Vector v;
        try { good = rd[i](is); } catch (const Error& x) { e = x.Description(); drainTrace(); }
        if (!c.okf(good, "sequence.value", [&] { return nm[i] + fmt(", number %d of %d, is not read back: ", i + 1, n) + e; })) return;
        try { is >> v; } catch (const Error& x) { e = x.Description(); drainTrace(); v = Vector::Zero(); }
        if (!c.okf(v == Vector(i, 2, 3), "sequence.position", [&] { return "reading " + nm[i] + fmt(", number %d of %d, took too much or too little: ", i + 1, n) + e; })) return;
        c.cover("in sequence: " + nm[i].substr(0, nm[i].find(' ')));
    }
}
// ---- hostile text --------------------------------------------------------
static std::string mutate(Case& c, std::string s) {
    static const char* frag[] = {"[", "]", ",", ";", "#", "/*", "*/", "//", "ROT", "EULERZYX", "IDENTITY", "ZERO", "DH", "nan", "inf", "1e999", "-", "\0", "  ", "\n", "9999999999", "-1", "COMPOSITE[", "POINT[", "SingleAxis[]", "\xff"};
    int n = c.r.range(1, 4);
    for (int i = 0; i < n; i++) {
        size_t at = size_t(c.r.below(int(s.size()) + 1));
        switch (c.r.below(6)) {
        case 0: if (at < s.size()) s.erase(at, size_t(c.r.range(1, 5))); break;
        case 1: s.insert(at, frag[c.r.below(26)]); break;
        case 2: if (at < s.size()) s[at] = char(c.r.below(256)); break;
        case 3: s.insert(at, std::string(size_t(c.r.range(1, 200)), char("ABC[9 "[c.r.below(6)]))); break;
        case 4: s = s.substr(0, at); break;
        default: if (at < s.size()) { std::string t = s.substr(at, size_t(c.r.range(1, 30))); s.insert(size_t(c.r.below(int(s.size()) + 1)), t); } break;
        }
    }
    return s;
}
template <class T> static void feed(Case& c, const std::string& s, const char* key) {
    std::istringstream is(s);
    T x;
    bool thrown = false;
    try { is >> x; } catch (const Error& e) { thrown = true; c.ok(e.Description() != nullptr, std::string(key) + ".error-described"); drainTrace(); }
    c.cover(std::string(key) + (thrown ? ".rejected" : ".accepted"));
    c.ok(true, std::string(key) + ".survived");
}
static void hostile(Case& c) {
    std::ostringstream o; o.precision(c.r.range(3, 17));
    int k = c.r.below(7);
    std::string s;
    if (c.r.chance(0.25)) { static const char* st[] = {"EULERZYX[1,2,3]", "ROT[1,0,0][90]", "IDENTITY ", "ZERO ", "DH[1,2,3,4]", "[RPY[1,2,3][4,5,6]]", "[1,2;3]"}; s = st[c.r.below(7)]; }
    else switch (k) { case 0: o << gv(c); break; case 1: o << km(rotation(c.r)); break; case 2: o << mf(c); break; case 3: o << Twist(gv(c), gv(c)); break; case 4: o << Vector2(1.5, num(c)); break; case 5: o << Rotation2(1); break; default: o << Frame2(Rotation2(1), Vector2(1, 2)); break; }
    s += o.str();
    s = mutate(c, s);
    if (c.r.chance(0.1)) s = std::string(size_t(c.r.range(1, 80)), char('A' + c.r.below(26))) + s;   // over-long words
    c.desc = s;
    feed<Vector>(c, s, "vector"); feed<Rotation>(c, s, "rotation"); feed<Frame>(c, s, "frame"); feed<Twist>(c, s, "twist"); feed<Wrench>(c, s, "wrench");
    feed<Vector2>(c, s, "vector2"); feed<Rotation2>(c, s, "rotation2"); feed<Frame2>(c, s, "frame2");
}
static void hostileMotion(Case& c) {
    std::string d, s;
    { std::unique_ptr<Path> p(simplePath(c, 2, d)); std::ostringstream o; o.precision(9); p->Write(o); s = o.str(); }
    if (c.r.chance(0.3)) { static const char* st[] = {"TRAPEZOIDAL[1,2]", "TRAPEZOIDALHALF[1,2,1]", "CONSTVEL[3]", "DIRACVEL[ ]", "ROUNDEDCOMPOSITE[0.1 1 SingleAxis[] 2 [IDENTITY [0,0,0]] [IDENTITY [0,1,0]] ]", "COMPOSITE[-3 ]", "COMPOSITE[99999999 ", "ROUNDEDCOMPOSITE[ 0.1 1 SingleAxis[] 7777777"}; s = st[c.r.below(8)]; }
    if (c.r.chance(0.2)) s = "SEGMENT[ " + s + " TRAPEZOIDAL[1,2] ]"; else if (c.r.chance(0.2)) { std::unique_ptr<Trajectory> t(anyTrajectory(c, 2, d)); std::ostringstream o; t->Write(o); s = o.str(); }
    if (c.r.chance(0.9)) s = mutate(c, s);
    c.desc = s;
    auto tryit = [&](const char* key, auto f) {
        std::istringstream is(s);
        bool thrown = false;
        try { f(is); } catch (const Error& e) { thrown = true; c.ok(e.Description() != nullptr, std::string(key) + ".error-described"); drainTrace(); }
        c.cover(std::string(key) + (thrown ? ".rejected" : ".accepted"));
        c.ok(true, std::string(key) + ".survived");
    };
    tryit("path", [&](std::istream& is) { std::unique_ptr<Path> p(Path::Read(is)); });
    tryit("profile", [&](std::istream& is) { std::unique_ptr<VelocityProfile> p(VelocityProfile::Read(is)); });
    tryit("trajectory", [&](std::istream& is) { std::unique_ptr<Trajectory> p(Trajectory::Read(is)); });
    tryit("interpolation", [&](std::istream& is) { std::unique_ptr<RotationalInterpolation> p(RotationalInterpolation::Read(is)); });
}
// the error trace: names what was being read, is consumed by printing it, and
// survives nesting; words that just fit / do not fit the buffer
static void trace(Case& c) {
    int n = c.r.range(0, 6);
    std::vector<std::string> st;
    for (int i = 0; i < n; i++) { st.push_back("lvl" + std::to_string(c.r.below(1000)) + std::string(size_t(c.r.below(40)), 'x')); IOTrace(st.back()); }
    if (n && c.r.chance(0.5)) { IOTracePop(); st.pop_back(); n--; }
    c.desc = fmt("%d entries", n);
    if (c.r.chance(0.5)) {
        std::ostringstream o; IOTraceOutput(o);
        std::string e; for (int i = n; i-- > 0;) e += st[i] + "\n";
        c.okf(o.str() == e, "output", [&] { return "trace is '" + o.str() + "' expected '" + e + "'"; });
    } else {
        for (int i = n; i-- > 0;) {
            int sz = c.r.range(1, 64);
            std::vector<char> buf(sz, 'Q');
            IOTracePopStr(buf.data(), sz);
            c.okf(std::string(buf.data()) == st[i].substr(0, sz - 1), "popstr", [&] { return std::string(buf.data()); });
        }
        char b[4] = "zzz"; IOTracePopStr(b, 4); c.ok(b[0] == 0, "popstr-empty");
    }
    std::ostringstream o; IOTraceOutput(o); c.ok(o.str().empty(), "drained");
    int max = c.r.range(1, 30), len = c.r.range(0, 35);
    std::string w; for (int i = 0; i < len; i++) w += char('a' + c.r.below(26));
    std::vector<char> buf(max);
    std::istringstream is(w + "[x");
    bool thrown = false;
    try { EatWord(is, "[", buf.data(), max); } catch (const Error&) { thrown = true; }
    if (len < max) { std::string u(w); for (auto& ch : u) ch = char(toupper(ch)); c.okf(!thrown && u == buf.data(), "eatword.fits", [&] { return fmt("len %d buffer %d", len, max); }); }
    else c.okf(thrown, "eatword.too-long-rejected", [&] { return fmt("len %d buffer %d", len, max); });
}
// listings of kinematic objects: every element appears, in order
static std::vector<double> numbers(const std::string& s) {
    std::vector<double> v; const char* p = s.c_str();
    while (*p) { char* e; if ((isdigit(*p) || *p == '-' || *p == '.') ) { double x = strtod(p, &e); if (e > p) { v.push_back(x); p = e; continue; } } p++; }
    return v;
}
static size_t countOf(const std::string& s, const std::string& w) { size_t n = 0; for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + w.size())) n++; return n; }
static void listings(Case& c) {
    ref::VecR q = joints(c.r, c.r.size(0, 8, 24));
    JntArray a = kq(q);
    c.desc = s(q);
    { std::ostringstream o; o.precision(17); o << a; std::string t = o.str(); for (auto& ch : t) if (ch == '[' || ch == ']') ch = ' '; std::istringstream is(t); std::vector<double> v; double x; while (is >> x) v.push_back(x);
      // columns narrower than the number are not separated: use a precision that fits
      std::ostringstream o2; o2.precision(5); o2 << a; v = numbers(o2.str()); c.ok(v.size() == q.size(), "jntarray.count", o2.str()); if (v.size() == q.size()) for (size_t i = 0; i < v.size(); i++) c.near(v[i], double(q[i]), 1e-4 * (1 + fabs(double(q[i]))), "jntarray.value"); }
    Jacobian J(unsigned(q.size())); SetToZero(J);
    for (unsigned i = 0; i < 6; i++) for (unsigned k = 0; k < q.size(); k++) J(i, k) = c.r.uni(-9, 9);
    { std::ostringstream o; o.precision(5); o << J; auto v = numbers(o.str()); c.ok(v.size() == 6 * q.size(), "jacobian.count"); if (v.size() == 6 * q.size()) for (size_t i = 0; i < v.size(); i++) c.near(v[i], J(unsigned(i / q.size()), unsigned(i % q.size())), 1e-3, "jacobian.value"); }
    JntSpaceInertiaMatrix Hm(int(q.size())); for (unsigned i = 0; i < q.size(); i++) for (unsigned k = 0; k < q.size(); k++) Hm(i, k) = c.r.uni(-9, 9);
    { std::ostringstream o; o.precision(5); o << Hm; auto v = numbers(o.str()); c.ok(v.size() == q.size() * q.size(), "inertia.count"); if (v.size() == q.size() * q.size()) for (size_t i = 0; i < v.size(); i++) c.near(v[i], Hm(unsigned(i / q.size()), unsigned(i % q.size())), 1e-3, "inertia.value"); }
    ChainOpt opt;
    TreeSpec ts = treespec(c.r, opt, 1, 12);
    Tree T = ktree(ts);
    std::string st = tree2str(T, "--", ">");
    c.ok(countOf(st, "q_nr") == ts.segs.size() + 1, "tree.lines", st);
    for (size_t i = 0; i < ts.segs.size(); i++) {
        std::string line = ">"; int depth = int(ts.path(int(i)).size());
        for (int k = 0; k < depth; k++) line += "--";
        line += ts.segs[i].name + "(q_nr: " + std::to_string(std::max(0, ts.qnr[i])) + ")\n";
        c.okf(countOf(st, line) == 1, "tree.entry", [&] { return "line '" + line + "' not in\n" + st; });
    }
    std::ostringstream o; o << T;
    for (auto& sg : ts.segs) c.okf(countOf(o.str(), sg.name + "(q_nr") == 1, "tree.stream", [&] { return sg.name; });
    ref::ChainSpec cs = chain(c.r, opt);
    std::ostringstream oc; oc << kchain(cs);
    size_t at = 0;
    for (auto& sg : cs) { at = oc.str().find(sg.name + ":[", at); if (!c.okf(at != std::string::npos, "chain.order", [&] { return sg.name; })) break; at++; }
}
int main(int argc, char** argv) {
    Harness H("C06", argc, argv);
    H.rule("values", 12000, values);
    H.rule("literals", 12000, literals);
    H.rule("motion", 8000, motion);
    H.rule("sequence", 8000, sequence);
    H.rule("hostile", 60000, hostile);
    H.rule("hostileMotion", 40000, hostileMotion);
    H.rule("trace", 20000, trace);
    H.rule("listings", 3000, listings);
    return H.finish();
}
