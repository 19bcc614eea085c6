// C32: Equal / == / != compare every component within the tolerance, and std::hash
// gives equal values equal hashes and tells different values apart.
#include "gen.hpp"
#include "frameacc.hpp"
#include "framevel.hpp"
#include "jntarrayacc.hpp"
#include "jntspaceinertiamatrix.hpp"
#include <functional>
#include <unordered_map>
#include <unordered_set>
using namespace gen;
using vh::Case; using vh::Harness; using vh::fmt;
using namespace KDL;
typedef std::vector<double> D;
// ---- objects from their components, derivatives after the value
static Vector mV(const double* d) { return Vector(d[0], d[1], d[2]); }
static Rotation mR(const double* d) { return Rotation(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]); }
template <class T> struct As;
#define AS(T, N, EQ, ...) template <> struct As<T> { static const int n = N; static const bool eq = EQ; static const char* name() { return #T; } static T make(const double* d) { return __VA_ARGS__; } };
AS(Vector, 3, true, mV(d)) AS(Rotation, 9, true, mR(d)) AS(Frame, 12, true, Frame(mR(d), mV(d + 9))) AS(Twist, 6, true, Twist(mV(d), mV(d + 3))) AS(Wrench, 6, true, Wrench(mV(d), mV(d + 3)))
AS(Vector2, 2, true, Vector2(d[0], d[1])) AS(Rotation2, 2, false, Rotation2(d[0], d[1])) AS(Frame2, 4, false, Frame2(Rotation2(d[0], d[1]), Vector2(d[2], d[3])))
static doubleVel mdv(const double* d) { doubleVel x; x.t = d[0]; x.grad = d[1]; return x; }
AS(doubleVel, 2, true, mdv(d)) AS(VectorVel, 6, true, VectorVel(mV(d), mV(d + 3))) AS(RotationVel, 12, true, RotationVel(mR(d), mV(d + 9))) AS(FrameVel, 18, true, FrameVel(RotationVel(mR(d), mV(d + 12)), VectorVel(mV(d + 9), mV(d + 15)))) AS(TwistVel, 12, true, TwistVel(VectorVel(mV(d), mV(d + 6)), VectorVel(mV(d + 3), mV(d + 9))))
static VectorAcc mVA(const double* d, int a = 0, int b = 3, int e = 6) { return VectorAcc(mV(d + a), mV(d + b), mV(d + e)); }
AS(doubleAcc, 3, true, doubleAcc(d[0], d[1], d[2])) AS(VectorAcc, 9, false, mVA(d)) AS(RotationAcc, 15, false, RotationAcc(mR(d), mV(d + 9), mV(d + 12))) AS(FrameAcc, 24, false, FrameAcc(RotationAcc(mR(d), mV(d + 12), mV(d + 15)), mVA(d, 9, 18, 21))) AS(TwistAcc, 18, false, TwistAcc(mVA(d, 0, 6, 9), mVA(d, 3, 12, 15)))
// what Equal has to say: 1 yes, 0 no, -1 too close to call
static int want(const D& a, const D& b, double e) { bool in = true; for (size_t i = 0; i < a.size(); i++) { double x = fabs(a[i] - b[i]); if (!(x <= e * (1 + 1e-9))) return 0; if (x > e * (1 - 1e-9)) in = false; } return in ? 1 : -1; }
static D some(Case& c, int n) { D d(n); double s = c.r.chance(0.7) ? 3 : c.r.logu(1e-6, 1e6); for (auto& x : d) x = c.r.chance(0.15) ? 0 : c.r.uni(-s, s); return d; }
// a second value around the first, decided at the tolerance e
static D other(Case& c, const D& a, double e, int lo = 0) {
    D b = a; int n = a.size(); if (!n) return b; static const double F[] = {0.3, 0.9, 0.99, 1.01, 1.1, 2, 50, 1e4}; int k = c.r.range(lo, n - 1);
    switch (c.r.below(9)) {
    case 0: break;
    case 1: for (int i = lo; i < n; i++) b[i] += e * c.r.uni(-0.97, 0.97); break;
    case 2: for (int i = lo; i < n; i++) b[i] += e * c.r.uni(-0.97, 0.97); b[k] = a[k] + c.r.sgn() * e * c.r.uni(1.01, 3); break;
    case 3: b[k] = NAN; break;
    case 4: b[k] = c.r.sgn() * INFINITY; break;
    case 5: { std::swap(b[k], b[c.r.range(lo, n - 1)]); break; }
    case 6: b[k] = -b[k]; break;
    default: b[k] += c.r.sgn() * e * F[c.r.below(8)];
    }
    return b;
}
struct Eps { double old = epsilon; Eps(double e) { epsilon = e; } ~Eps() { epsilon = old; } };
template <class A, class B> static void decide(Case& c, const A& x, const B& y, const D& a, const D& b, double e, const std::string& nm) {
    int w = want(a, b, e); if (w >= 0) { c.ok(Equal(x, y, e) == bool(w), nm + ".equal", w ? "not found equal" : "found equal"); c.ok(Equal(y, x, e) == bool(w), nm + ".symmetric"); Eps k(e); c.ok(Equal(x, y) == bool(w) && Equal(y, x) == bool(w), nm + ".default-tolerance"); c.cover(nm + (w ? " equal" : " different")); }
}
template <class A, class B> static void ops(Case& c, const A& x, const B& y, const D& a, const D& b, double e, const std::string& nm) { Eps k(e); int w = want(a, b, e); if (w >= 0) { c.ok((x == y) == bool(w) && (y == x) == bool(w), nm + ".operator=="); c.ok((x != y) == !w && (y != x) == !w, nm + ".operator!="); } }
static std::string show(const D& a, const D& b, double e) { std::string o = fmt("eps=%.6g differences:", e); for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) o += fmt(" [%zu] %.9g", i, b[i] - a[i]); return o; }
template <class T> static void type(Case& c) {
    D a = some(c, As<T>::n); double e = c.r.chance(0.3) ? 1e-6 : c.r.logu(1e-9, 1e2); D b = other(c, a, e); T x = As<T>::make(a.data()), y = As<T>::make(b.data()); c.desc = std::string(As<T>::name()) + " " + show(a, b, e);
    decide(c, x, y, a, b, e, As<T>::name()); if constexpr (As<T>::eq) { ops(c, x, y, a, b, e, As<T>::name()); c.ok(x == x && !(x != x), std::string(As<T>::name()) + ".reflexive"); T z(x); c.ok(z == x, std::string(As<T>::name()) + ".copy"); }
}
// a plain value is one with derivatives of zero
template <class P, class X, bool EQ> static void mixed(Case& c) {
    int n = As<P>::n, m = As<X>::n; D a = some(c, n); a.resize(m, 0); double e = c.r.chance(0.3) ? 1e-6 : c.r.logu(1e-9, 1e2); D b = other(c, a, e, c.r.chance(0.5) ? n : 0); P x = As<P>::make(a.data()); X y = As<X>::make(b.data()); std::string nm = std::string(As<P>::name()) + "," + As<X>::name(); c.desc = nm + " " + show(a, b, e);
    decide(c, x, y, a, b, e, nm); if constexpr (EQ) ops(c, x, y, a, b, e, nm);
}
template <class T, class G> static void sized(Case& c, const char* name, G&& make, bool eq) {
    int n = c.r.size(0, 9, 30); double e = c.r.chance(0.3) ? 1e-6 : c.r.logu(1e-9, 1e2); std::string nm = name; int sz = make(n, D()).second; D a = some(c, sz), b = other(c, a, e); T x = make(n, a).first, y = make(n, b).first; c.desc = nm + fmt(" n=%d ", n) + show(a, b, e); decide(c, x, y, a, b, e, nm);
    int m = n + c.r.range(1, 3); D z(make(m, D()).second); c.ok(!Equal(x, make(m, z).first, 1e9) && !Equal(make(m, z).first, x, 1e9), nm + ".size", "different sizes found equal"); (void)eq;
}
static JntArray ja(int n, const double* d) { JntArray q(n); for (int i = 0; i < n; i++) q(i) = d[i]; return q; }
static void arrays(Case& c) {
    switch (c.idx / 8 % 5) {
    case 0: { auto mk = [](int n, const D& d) { return std::make_pair(d.empty() ? JntArray(n) : ja(n, d.data()), n); }; sized<JntArray>(c, "JntArray", mk, true); int n = c.r.size(1, 9, 30); D a = some(c, n), b = other(c, a, 1e-6); if (want(a, b, 1e-6) >= 0) c.ok((ja(n, a.data()) == ja(n, b.data())) == bool(want(a, b, 1e-6)), "JntArray.operator=="); break; }
    case 1: { auto mk = [](int n, const D& d) { return std::make_pair(d.empty() ? JntArrayVel(n) : JntArrayVel(ja(n, d.data()), ja(n, d.data() + n)), 2 * n); }; sized<JntArrayVel>(c, "JntArrayVel", mk, false); break; }
    case 2: { auto mk = [](int n, const D& d) { return std::make_pair(d.empty() ? JntArrayAcc(n) : JntArrayAcc(ja(n, d.data()), ja(n, d.data() + n), ja(n, d.data() + 2 * n)), 3 * n); }; sized<JntArrayAcc>(c, "JntArrayAcc", mk, false); break; }
    case 3: { auto mk = [](int n, const D& d) { Jacobian J(n); if (!d.empty()) for (int i = 0; i < 6 * n; i++) J(i % 6, i / 6) = d[i]; return std::make_pair(J, 6 * n); }; sized<Jacobian>(c, "Jacobian", mk, true); int n = c.r.size(1, 9, 30); D a = some(c, 6 * n), b = other(c, a, 1e-6); Jacobian x = mk(n, a).first, y = mk(n, b).first; int w = want(a, b, 1e-6); if (w >= 0) c.ok((x == y) == bool(w) && (x != y) == !w, "Jacobian.operator=="); break; }
    default: { auto mk = [](int n, const D& d) { JntSpaceInertiaMatrix J(n); if (!d.empty()) for (int i = 0; i < n * n; i++) J(i % n, i / n) = d[i]; return std::make_pair(J, n * n); }; sized<JntSpaceInertiaMatrix>(c, "JntSpaceInertiaMatrix", mk, true); int n = c.r.size(1, 9, 30); D a = some(c, n * n), b = other(c, a, 1e-6); int w = want(a, b, 1e-6); if (w >= 0) c.ok((mk(n, a).first == mk(n, b).first) == bool(w), "JntSpaceInertiaMatrix.operator=="); break; }
    }
}
// ---- hashes; every rotation inside is a proper one
template <class T> struct RotIn { static const int k = 0; };
#define ROT(T, K) template <> struct RotIn<T> { static const int k = K; };
ROT(Rotation, 3) ROT(Frame, 3) ROT(RotationVel, 3) ROT(FrameVel, 3) ROT(RotationAcc, 3) ROT(FrameAcc, 3) ROT(Rotation2, 2) ROT(Frame2, 2)
template <class T> static D proper(Case& c) {
    D d = some(c, As<T>::n); if (RotIn<T>::k == 3) { ref::M3 m = rotation(c.r); for (int i = 0; i < 9; i++) d[i] = double(m[i / 3][i % 3]); } if (RotIn<T>::k == 2) { double t = c.r.chance(0.3) ? c.r.range(0, 3) * M_PI / 2 : c.r.angle(); d[0] = cos(t); d[1] = sin(t); if (c.r.chance(0.5)) for (int i = 0; i < 2; i++) if (fabs(d[i]) < 1e-15) { d[i] = 0; d[1 - i] = rint(d[1 - i]); } } return d;
}
template <class T> static void hash(Case& c) {
    std::hash<T> h; D a = proper<T>(c); T x = As<T>::make(a.data()), y = As<T>::make(a.data()), z(x); std::string nm = As<T>::name(); int n = a.size(), r0 = RotIn<T>::k == 3 ? 9 : RotIn<T>::k == 2 ? 2 : 0; size_t H = h(x); c.desc = nm; c.ok(H == h(y) && H == h(z) && H == h(x), "hash." + nm + ".equal");
    { D b = a; int k = 0; for (auto& v : b) if (v == 0) { v = -v; if (c.r.chance(0.3)) v = -v; k++; } T w = As<T>::make(b.data()); if (k) { c.ok(h(w) == H, "hash." + nm + ".signed-zero", "the hash depends on the sign of a zero"); c.cover("signed zeros"); } }
    if (r0 < n) { int i = c.r.range(r0, n - 1); D b = a; b[i] += c.r.sgn() * c.r.logu(1e-6, 10) * (1 + fabs(b[i])); c.ok(h(As<T>::make(b.data())) != H, "hash." + nm + ".sensitive", fmt("component %d changes nothing", i)); int j = c.r.range(r0, n - 1); b = a; std::swap(b[i], b[j]); if (fabs(a[i] - a[j]) > 1e-9) c.ok(h(As<T>::make(b.data())) != H, "hash." + nm + ".order", fmt("components %d and %d commute", i, j)); }
    if (r0) { D b = a; if (r0 == 9) { ref::M3 m; for (int i = 0; i < 9; i++) m[i / 3][i % 3] = a[i]; m = m * ref::rot(unitvec(c.r), c.r.uni(1e-3, 3)); for (int i = 0; i < 9; i++) b[i] = double(m[i / 3][i % 3]); } else { double t = c.r.uni(1e-3, 3); b[0] = a[0] * cos(t) - a[1] * sin(t); b[1] = a[0] * sin(t) + a[1] * cos(t); } c.ok(h(As<T>::make(b.data())) != H, "hash." + nm + ".rotation"); }
    if constexpr (As<T>::eq) { std::unordered_map<T, int> m; std::vector<D> keys; for (int i = 0; i < 20; i++) { keys.push_back(proper<T>(c)); bool dup = false; for (int k = 0; k < i; k++) if (want(keys[k], keys[i], 1e-5) != 0) dup = true; if (dup) { keys.pop_back(); i--; continue; } m[As<T>::make(keys[i].data())] = i; } bool all = m.size() == keys.size(); for (size_t i = 0; i < keys.size(); i++) { auto it = m.find(As<T>::make(keys[i].data())); all = all && it != m.end() && it->second == int(i); } c.ok(all, "hash." + nm + ".map", "a stored key is not found again"); }
}
int main(int argc, char** argv) {
    Harness H("C32", argc, argv);
    H.rule("value", 160000, [](Case& c) { switch (c.idx / 8 % 18) {
        case 0: return type<Vector>(c); case 1: return type<Rotation>(c); case 2: return type<Frame>(c); case 3: return type<Twist>(c); case 4: return type<Wrench>(c); case 5: return type<Vector2>(c); case 6: return type<Rotation2>(c); case 7: return type<Frame2>(c); case 8: return type<doubleVel>(c);
        case 9: return type<VectorVel>(c); case 10: return type<RotationVel>(c); case 11: return type<FrameVel>(c); case 12: return type<TwistVel>(c); case 13: return type<doubleAcc>(c); case 14: return type<VectorAcc>(c); case 15: return type<RotationAcc>(c); case 16: return type<FrameAcc>(c); default: return type<TwistAcc>(c); } });
    H.rule("mixed", 80000, [](Case& c) { switch (c.idx / 8 % 8) {
        case 0: return mixed<Vector, VectorVel, true>(c); case 1: return mixed<Rotation, RotationVel, true>(c); case 2: return mixed<Frame, FrameVel, true>(c); case 3: return mixed<Twist, TwistVel, true>(c); case 4: return mixed<Vector, VectorAcc, false>(c); case 5: return mixed<Rotation, RotationAcc, false>(c); case 6: return mixed<Frame, FrameAcc, false>(c); default: return mixed<Twist, TwistAcc, false>(c); } });
    H.rule("arrays", 40000, arrays);
    H.rule("hash", 40000, [](Case& c) { switch (c.idx / 8 % 18) {
        case 0: return hash<Vector>(c); case 1: return hash<Rotation>(c); case 2: return hash<Frame>(c); case 3: return hash<Twist>(c); case 4: return hash<Wrench>(c); case 5: return hash<Vector2>(c); case 6: return hash<Rotation2>(c); case 7: return hash<Frame2>(c); case 8: return hash<doubleVel>(c);
        case 9: return hash<VectorVel>(c); case 10: return hash<RotationVel>(c); case 11: return hash<FrameVel>(c); case 12: return hash<TwistVel>(c); case 13: return hash<doubleAcc>(c); case 14: return hash<VectorAcc>(c); case 15: return hash<RotationAcc>(c); case 16: return hash<FrameAcc>(c); default: return hash<TwistAcc>(c); } });
    return H.finish();
}
