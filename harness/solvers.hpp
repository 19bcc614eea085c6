// One uniform view on every chain solver of the library: construct, configure,
// call an entry point with a bag of arguments, read the outputs back as numbers.
#pragma once
#include "gen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainjnttojacsolver.hpp"
#include "chainjnttojacdotsolver.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
#include "chainiksolvervel_wdls.hpp"
#include "chainiksolverpos_nr.hpp"
#include "chainiksolverpos_nr_jl.hpp"
#include "chainiksolverpos_lma.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chainfdsolver_recursive_newton_euler.hpp"
#include "chainhdsolver_vereshchagin.hpp"
#include "chaindynparam.hpp"
#include "chainexternalwrenchestimator.hpp"
namespace sol {
using namespace KDL;
using gen::kq; using gen::joints;
typedef std::vector<double> Out;
// what is settable on a solver
struct Cfg {
    double eps = 1e-5, lambda = 0.1, alpha = 0.25, poseps = 1e-6; int maxit = 150; unsigned positer = 60; int repr = 0; unsigned nc = 2;
    Eigen::MatrixXd mx, mq; JntArray optpos, w, lo, hi; std::vector<bool> lock; Vector g; double freq = 200, gain = 30, filt = 0.3;
    int unlocked() const { int k = 0; for (bool b : lock) k += !b; return k; }
};
inline Cfg cfg(vh::Rng& r, int n) {
    Cfg c; c.eps = r.chance(0.7) ? 1e-5 : r.logu(1e-6, 0.1); c.lambda = r.uni(0.01, 0.5); c.alpha = r.uni(0.1, 1); c.repr = r.below(3); c.nc = r.range(1, 4); c.positer = r.chance(0.7) ? 60 : r.range(1, 5);
    auto spd = [&](int k) { Eigen::MatrixXd A = Eigen::MatrixXd::Identity(k, k); if (r.chance(0.6)) for (int i = 0; i < k; i++) { A(i, i) = r.uni(0.3, 2); for (int j = 0; j < i; j++) A(i, j) = A(j, i) = r.uni(-0.05, 0.05); } return A; };
    c.mx = spd(6); c.mq = spd(n); c.optpos = kq(joints(r, n, 1)); c.w = JntArray(n); c.lo = JntArray(n); c.hi = JntArray(n); for (int i = 0; i < n; i++) { c.w(i) = r.uni(0.2, 1); c.lo(i) = -r.uni(1, 6); c.hi(i) = r.uni(1, 6); }
    c.lock.assign(n, false); if (r.chance(0.5)) for (int i = 0; i < n; i++) c.lock[i] = r.chance(0.3);
    c.g = gen::kv(gen::vec(r, 10)); c.freq = r.uni(50, 1000); c.gain = r.uni(0.05, 0.5) * c.freq; c.filt = r.chance(0.5) ? 0 : r.uni(0.1, 0.9); return c;
}
// arguments of every entry point, and the places for the results
struct Args {
    int n, ns, nc; JntArray q, qd, qdd, tau; Twist v; Frame F; FrameVel FV; Wrenches f; Jacobian alfa; JntArray beta; int seg;
    JntArrayVel qv; JntArray out, out2; Jacobian J; std::vector<Frame> Fs; std::vector<FrameVel> FVs; JntSpaceInertiaMatrix H; Frame oF; FrameVel oFV; Twist oT; Wrench oW; JntArrayVel oqv;
};
inline Args args(vh::Rng& r, const ref::ChainSpec& sp, const Cfg& c, bool jdot) {
    Args a; a.n = ref::nj(sp); a.ns = int(sp.size()); a.nc = c.nc; auto js = [&](double m) { return kq(joints(r, a.n, m)); };
    a.q = js(2); a.qd = js(2); a.qdd = js(5); a.tau = js(20); a.v = gen::kt(gen::screw(r, 2)); a.F = r.chance(0.5) ? gen::kf(ref::fk(sp, gen::rq(js(2)))) : gen::kframe(r, 1); a.FV = FrameVel(a.F, a.v); a.f.resize(a.ns); if (r.chance(0.7)) for (auto& w : a.f) w = gen::kw(gen::screw(r, 5));
    a.alfa.resize(c.nc); a.beta.resize(c.nc); for (unsigned k = 0; k < c.nc; k++) { a.alfa.setColumn(k, gen::kt(gen::screw(r, 1))); a.beta(k) = r.uni(-3, 3); }
    a.seg = r.chance(0.4) ? -1 : r.range(0, a.ns); a.qv = JntArrayVel(a.q, a.qd);
    const double P = 7.25; a.out.resize(a.n); a.out2.resize(a.n); for (int i = 0; i < a.n; i++) { a.out(i) = P; a.out2(i) = -P; } a.J.resize(jdot ? c.unlocked() : a.n); a.J.data.setConstant(P);
    a.Fs.assign(a.seg < 0 ? a.ns : a.seg, Frame(Vector(P, P, P))); a.FVs.assign(a.seg < 0 ? a.ns : a.seg, FrameVel(Frame(Vector(P, P, P)))); a.H.resize(a.n); a.H.data.setConstant(P);
    a.oF.p = a.oT.vel = a.oW.force = Vector(P, P, P); a.oqv.resize(a.n); return a;
}
inline void put(Out& o, double d) { o.push_back(d); }
inline void put(Out& o, const Vector& v) { for (int i = 0; i < 3; i++) o.push_back(v(i)); }
inline void put(Out& o, const Twist& t) { put(o, t.vel); put(o, t.rot); }
inline void put(Out& o, const Wrench& t) { put(o, t.force); put(o, t.torque); }
inline void put(Out& o, const Frame& f) { put(o, f.p); for (int i = 0; i < 9; i++) o.push_back(f.M.data[i]); }
inline void put(Out& o, const FrameVel& f) { put(o, f.GetFrame()); put(o, f.GetTwist()); }
inline void put(Out& o, const JntArray& a) { o.push_back(a.rows()); for (unsigned i = 0; i < a.rows(); i++) o.push_back(a(i)); }
template <class D> inline void put(Out& o, const Eigen::DenseBase<D>& m) { o.push_back(m.rows()); o.push_back(m.cols()); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o.push_back(m(i, j)); }
template <class T> inline void put(Out& o, const std::vector<T>& v) { o.push_back(v.size()); for (auto& x : v) put(o, x); }
// everything an entry point reads (it must come out as it went in)
inline Out inputs(const Args& a) { Out o; put(o, a.q); put(o, a.qd); put(o, a.qdd); put(o, a.tau); put(o, a.v); put(o, a.F); put(o, a.FV); put(o, a.f); put(o, a.alfa.data); put(o, a.beta); put(o, a.qv.q); put(o, a.qv.qdot); return o; }
inline void resize(JntArray& j, int k) { j = JntArray(k); }
struct Slot { std::string name; std::function<int(Args&)> size; std::function<void(Args&, int)> set; };
struct Op {
    std::string name; std::vector<Slot> slots; std::function<int(Args&)> call; std::function<void(Args&, Out&)> read;
    bool seg = false, vec = false, jdot = false; int stale = 0;   // stale: 0 holds nothing, 1 number of joints, 2 joints or segments
    int onlyCode = 1000;                     // when set: the entry point always answers with this code
};
struct Solver { std::string name; SolverI* s; std::shared_ptr<void> hold; std::function<int(const Cfg&)> apply = [](const Cfg&) { return 0; }; std::vector<Op> ops; bool history = false; std::vector<int> codes{0}; };
inline Slot jslot(const std::string& nm, JntArray Args::*m) { return {nm, [m](Args& a) { return int((a.*m).rows()); }, [m](Args& a, int k) { resize(a.*m, k); }}; }
inline Slot qvslot(bool dot) { return {dot ? "qdot" : "q", [](Args& a) { return a.n; }, [dot](Args& a, int k) { resize(dot ? a.qv.qdot : a.qv.q, k); }}; }
template <class C> inline Slot cslot(const std::string& nm, C Args::*m) { return {nm, [m](Args& a) { return int((a.*m).size()); }, [m](Args& a, int k) { (a.*m).resize(k); }}; }
inline Slot jacslot(const std::string& nm, Jacobian Args::*m) { return {nm, [m](Args& a) { return int((a.*m).columns()); }, [m](Args& a, int k) { (a.*m).resize(k); }}; }
inline Slot hslot() { return {"H", [](Args& a) { return int(a.H.rows()); }, [](Args& a, int k) { a.H.resize(k); }}; }
inline const std::vector<std::string>& kinds() {
    static const std::vector<std::string> k{"fkpos", "fkvel", "jac", "jacdot", "pinv", "wdls", "nso", "givens", "nr", "nrjl", "lma", "id", "fd", "hd", "dyn", "est"}; return k;
}
template <class T> struct Pair { std::shared_ptr<void> a, b; std::shared_ptr<T> s; };
inline Solver make(const std::string& kind, const Chain& ch, const Cfg& c) {
    Solver S; S.name = kind;
    auto op = [&](Op o) { S.ops.push_back(std::move(o)); };
    if (kind == "fkpos") {
        auto p = std::make_shared<ChainFkSolverPos_recursive>(ch); S.s = p.get(); S.hold = p; auto* x = p.get();
        Op o; o.name = "JntToCart"; o.seg = true; o.slots = {jslot("q", &Args::q)}; o.call = [x](Args& a) { return x->JntToCart(a.q, a.oF, a.seg); }; o.read = [](Args& a, Out& r) { put(r, a.oF); }; op(o);
        o = Op(); o.name = "JntToCart.all"; o.seg = o.vec = true; o.slots = {jslot("q", &Args::q), cslot("frames", &Args::Fs)}; o.call = [x](Args& a) { return x->JntToCart(a.q, a.Fs, a.seg); }; o.read = [](Args& a, Out& r) { put(r, a.Fs); }; op(o);
    } else if (kind == "fkvel") {
        auto p = std::make_shared<ChainFkSolverVel_recursive>(ch); S.s = p.get(); S.hold = p; auto* x = p.get();
        Op o; o.name = "JntToCart"; o.seg = true; o.slots = {qvslot(false), qvslot(true)}; o.call = [x](Args& a) { return x->JntToCart(a.qv, a.oFV, a.seg); }; o.read = [](Args& a, Out& r) { put(r, a.oFV); }; op(o);
        o = Op(); o.name = "JntToCart.all"; o.seg = o.vec = true; o.slots = {qvslot(false), qvslot(true), cslot("frames", &Args::FVs)}; o.call = [x](Args& a) { return x->JntToCart(a.qv, a.FVs, a.seg); }; o.read = [](Args& a, Out& r) { put(r, a.FVs); }; op(o);
    } else if (kind == "jac") {
        auto p = std::make_shared<ChainJntToJacSolver>(ch); S.s = p.get(); S.hold = p; auto* x = p.get(); S.apply = [x](const Cfg& c) { return x->setLockedJoints(c.lock); };
        Op o; o.name = "JntToJac"; o.seg = true; o.stale = 1; o.slots = {jslot("q", &Args::q), jacslot("jac", &Args::J)}; o.call = [x](Args& a) { return x->JntToJac(a.q, a.J, a.seg); }; o.read = [](Args& a, Out& r) { put(r, a.J.data); }; op(o);
    } else if (kind == "jacdot") {
        auto p = std::make_shared<ChainJntToJacDotSolver>(ch); S.s = p.get(); S.hold = p; auto* x = p.get(); S.codes = {0, ChainJntToJacDotSolver::E_JAC_DOT_FAILED, ChainJntToJacDotSolver::E_JACSOLVER_FAILED, ChainJntToJacDotSolver::E_FKSOLVERPOS_FAILED};
        S.apply = [x](const Cfg& c) { if (c.repr == 0) x->setHybridRepresentation(); else if (c.repr == 1) x->setBodyFixedRepresentation(); else x->setInertialRepresentation(); return x->setLockedJoints(c.lock); };
        Op o; o.name = "JntToJacDot"; o.seg = true; o.stale = 1; o.jdot = true; o.slots = {qvslot(false), qvslot(true), jacslot("jdot", &Args::J)}; o.call = [x](Args& a) { return x->JntToJacDot(a.qv, a.J, a.seg); }; o.read = [](Args& a, Out& r) { put(r, a.J.data); }; op(o);
        o = Op(); o.name = "JntToJacDot.twist"; o.seg = true; o.stale = 1; o.slots = {qvslot(false), qvslot(true)}; o.call = [x](Args& a) { return x->JntToJacDot(a.qv, a.oT, a.seg); }; o.read = [](Args& a, Out& r) { put(r, a.oT); }; op(o);
    } else if (kind == "pinv" || kind == "wdls" || kind == "nso" || kind == "givens") {
        std::shared_ptr<ChainIkSolverVel> p;
        if (kind == "pinv") { p = std::make_shared<ChainIkSolverVel_pinv>(ch, c.eps, c.maxit); S.codes = {0, ChainIkSolverVel_pinv::E_CONVERGE_PINV_SINGULAR, -8}; }
        else if (kind == "wdls") { auto w = std::make_shared<ChainIkSolverVel_wdls>(ch, c.eps, c.maxit); p = w; auto* x = w.get(); S.codes = {0, ChainIkSolverVel_wdls::E_CONVERGE_PINV_SINGULAR, -8}; S.apply = [x](const Cfg& c) { x->setLambda(c.lambda); x->setEps(c.eps); x->setMaxIter(c.maxit); int e = x->setWeightTS(c.mx); int e2 = x->setWeightJS(c.mq); return e ? e : e2; }; }
        else if (kind == "nso") { auto w = std::make_shared<ChainIkSolverVel_pinv_nso>(ch, c.optpos, c.w, c.eps, c.maxit, c.alpha); p = w; auto* x = w.get(); S.codes = {0, -8}; S.apply = [x](const Cfg& c) { x->setAlpha(c.alpha); int e = x->setWeights(c.w), e2 = x->setOptPos(c.optpos); return e ? e : e2; }; }
        else { p = std::make_shared<ChainIkSolverVel_pinv_givens>(ch); S.codes = {0}; S.history = true; }
        S.s = p.get(); S.hold = p; auto* x = p.get();
        Op o; o.name = "CartToJnt"; o.stale = 1; o.slots = {jslot("q", &Args::q), jslot("qdot_out", &Args::out)}; o.call = [x](Args& a) { return x->CartToJnt(a.q, a.v, a.out); }; o.read = [](Args& a, Out& r) { put(r, a.out); }; op(o);
        o = Op(); o.name = "CartToJnt.vel"; o.onlyCode = SolverI::E_NOT_IMPLEMENTED; o.call = [x](Args& a) { return x->CartToJnt(a.q, a.FV, a.oqv); }; o.read = [](Args& a, Out& r) { put(r, a.oqv.q); }; op(o);
    } else if (kind == "nr" || kind == "nrjl" || kind == "lma") {
        struct H { ChainFkSolverPos_recursive fk; ChainIkSolverVel_pinv ik; std::shared_ptr<ChainIkSolverPos> s; H(const Chain& ch, const Cfg& c) : fk(ch), ik(ch, c.eps, c.maxit) {} };
        auto h = std::make_shared<H>(ch, c); S.hold = h;
        if (kind == "nr") { h->s = std::make_shared<ChainIkSolverPos_NR>(ch, h->fk, h->ik, c.positer, c.poseps); S.codes = {0, 1, -5, ChainIkSolverPos_NR::E_IKSOLVER_FAILED, ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED}; }
        else if (kind == "nrjl") { auto x = std::make_shared<ChainIkSolverPos_NR_JL>(ch, c.lo, c.hi, h->fk, h->ik, c.positer, c.poseps); h->s = x; auto* y = x.get(); S.codes = {0, -5, ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED, ChainIkSolverPos_NR_JL::E_FKSOLVERPOS_FAILED}; S.apply = [y](const Cfg& c) { return y->setJointLimits(c.lo, c.hi); }; }
        else { h->s = std::make_shared<ChainIkSolverPos_LMA>(ch, 1e-5, int(c.positer)); S.codes = {0, -5, ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL, ChainIkSolverPos_LMA::E_INCREMENT_JOINTS_TOO_SMALL}; }
        auto* x = h->s.get(); S.s = x;
        Op o; o.name = "CartToJnt"; o.stale = 1; o.slots = {jslot("q_init", &Args::q), jslot("q_out", &Args::out)}; o.call = [x](Args& a) { return x->CartToJnt(a.q, a.F, a.out); }; o.read = [](Args& a, Out& r) { put(r, a.out); }; op(o);
    } else if (kind == "id") {
        auto p = std::make_shared<ChainIdSolver_RNE>(ch, c.g); S.s = p.get(); S.hold = p; auto* x = p.get();
        Op o; o.name = "CartToJnt"; o.stale = 2; o.slots = {jslot("q", &Args::q), jslot("qd", &Args::qd), jslot("qdd", &Args::qdd), cslot("f_ext", &Args::f), jslot("torques", &Args::out)}; o.call = [x](Args& a) { return x->CartToJnt(a.q, a.qd, a.qdd, a.f, a.out); }; o.read = [](Args& a, Out& r) { put(r, a.out); }; op(o);
    } else if (kind == "fd") {
        auto p = std::make_shared<ChainFdSolver_RNE>(ch, c.g); S.s = p.get(); S.hold = p; auto* x = p.get();
        Op o; o.name = "CartToJnt"; o.stale = 2; o.slots = {jslot("q", &Args::q), jslot("qd", &Args::qd), jslot("torques", &Args::tau), cslot("f_ext", &Args::f), jslot("qdd_out", &Args::out)}; o.call = [x](Args& a) { return x->CartToJnt(a.q, a.qd, a.tau, a.f, a.out); }; o.read = [](Args& a, Out& r) { put(r, a.out); }; op(o);
    } else if (kind == "hd") {
        auto p = std::make_shared<ChainHdSolver_Vereshchagin>(ch, Twist(-c.g, Vector::Zero()), c.nc); S.s = nullptr; S.hold = p; auto* x = p.get(); S.codes = {0, -7};
        Op o; o.name = "CartToJnt"; o.stale = 2; o.slots = {jslot("q", &Args::q), jslot("qd", &Args::qd), jslot("qdd_out", &Args::out), jacslot("alfa", &Args::alfa), jslot("beta", &Args::beta), cslot("f_ext", &Args::f), jslot("ff", &Args::tau), jslot("constraint_out", &Args::out2)};
        o.call = [x](Args& a) { return x->CartToJnt(a.q, a.qd, a.out, a.alfa, a.beta, a.f, a.tau, a.out2); }; o.read = [x](Args& a, Out& r) { put(r, a.out); put(r, a.out2); }; op(o);
    } else if (kind == "dyn") {
        auto p = std::make_shared<ChainDynParam>(ch, c.g); S.s = p.get(); S.hold = p; auto* x = p.get();
        Op o; o.name = "JntToMass"; o.stale = 2; o.slots = {jslot("q", &Args::q), hslot()}; o.call = [x](Args& a) { return x->JntToMass(a.q, a.H); }; o.read = [](Args& a, Out& r) { put(r, a.H.data); }; op(o);
        o = Op(); o.name = "JntToCoriolis"; o.stale = 2; o.slots = {jslot("q", &Args::q), jslot("qd", &Args::qd), jslot("out", &Args::out)}; o.call = [x](Args& a) { return x->JntToCoriolis(a.q, a.qd, a.out); }; o.read = [](Args& a, Out& r) { put(r, a.out); }; op(o);
        o = Op(); o.name = "JntToGravity"; o.stale = 2; o.slots = {jslot("q", &Args::q), jslot("out", &Args::out)}; o.call = [x](Args& a) { return x->JntToGravity(a.q, a.out); }; o.read = [](Args& a, Out& r) { put(r, a.out); }; op(o);
    } else if (kind == "est") {
        auto p = std::make_shared<ChainExternalWrenchEstimator>(ch, c.g, c.freq, c.gain, c.filt, c.eps, c.maxit); S.s = p.get(); S.hold = p; S.history = true; auto* x = p.get();
        S.codes = {0, -8, ChainExternalWrenchEstimator::E_FKSOLVERPOS_FAILED, ChainExternalWrenchEstimator::E_JACSOLVER_FAILED, ChainExternalWrenchEstimator::E_DYNPARAMSOLVERMASS_FAILED, ChainExternalWrenchEstimator::E_DYNPARAMSOLVERCORIOLIS_FAILED, ChainExternalWrenchEstimator::E_DYNPARAMSOLVERGRAVITY_FAILED};
        Op o; o.name = "JntToExtWrench"; o.stale = 2; o.slots = {jslot("q", &Args::q), jslot("qd", &Args::qd), jslot("torque", &Args::tau)}; o.call = [x](Args& a) { return x->JntToExtWrench(a.q, a.qd, a.tau, a.oW); }; o.read = [](Args& a, Out& r) { put(r, a.oW); }; op(o);
        o = Op(); o.name = "setInitialMomentum"; o.stale = 2; o.slots = {jslot("q", &Args::q), jslot("qd", &Args::qd)}; o.call = [x](Args& a) { return x->setInitialMomentum(a.q, a.qd); }; o.read = [](Args&, Out&) {}; op(o);
    }
    return S;
}
inline void update(Solver& S) { if (S.s) S.s->updateInternalDataStructures(); else static_cast<ChainHdSolver_Vereshchagin*>(S.hold.get())->updateInternalDataStructures(); }
inline bool same(const Out& a, const Out& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
inline std::string differ(const Out& a, const Out& b) { if (a.size() != b.size()) return vh::fmt("%zu numbers, expected %zu", a.size(), b.size()); for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return vh::fmt("number %zu is %.17g, expected %.17g", i, a[i], b[i]); return "equal"; }
}
