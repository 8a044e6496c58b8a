// C24: systems, observers, steppers and checkers passed by reference wrapper are used in place, passed by value left alone;
// every way of passing gives the same solution.
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/ref.hpp>
#include <functional>
#include <mc.hpp>
namespace ode = boost::numeric::odeint;
typedef std::vector<double> vec; typedef boost::numeric::ublas::vector<double> uvec; typedef boost::numeric::ublas::matrix<double> umat;
static long g_sys, g_sys2, g_obs, g_step, g_chk;     // calls by any object
// ---- systems: each object counts its own calls --------------------------------------------------------------------------------
static void rhs(const vec &x, vec &d, double t) { d[0] = x[1] + 0.5 * t; d[1] = -2 * x[0] - 0.1 * x[1]; }
struct Sys { long own; Sys() : own(0) {} template <class X, class D> void operator()(const X &x, D &d, double t) { ++own; ++g_sys; d[0] = x[1] + 0.5 * t; d[1] = -2 * x[0] - 0.1 * x[1]; } };
struct CSys { mutable long own; CSys() : own(0) {} template <class X, class D> void operator()(const X &x, D &d, double t) const { ++own; ++g_sys; d[0] = x[1] + 0.5 * t; d[1] = -2 * x[0] - 0.1 * x[1]; } };
static void fsys(const vec &x, vec &d, double t) { ++g_sys; rhs(x, d, t); }
struct Uf { long own; Uf() : own(0) {} void operator()(const uvec &x, uvec &d, double t) { ++own; ++g_sys; d[0] = x[1] + 0.5 * t; d[1] = -2 * x[0] - 0.1 * x[1] * x[1]; } };
struct Uj { long own; Uj() : own(0) {} void operator()(const uvec &x, umat &m, const double &, uvec &dt) { ++own; ++g_sys2; m(0, 0) = 0; m(0, 1) = 1; m(1, 0) = -2; m(1, 1) = -0.2 * x[1]; dt[0] = 0.5; dt[1] = 0; } void operator()(const uvec &x, umat &m, const double &t) { uvec d(2); (*this)(x, m, t, d); } };
static void fuf(const uvec &x, uvec &d, double t) { Uf f; f(x, d, t); } static void fuj(const uvec &x, umat &m, const double &t, uvec &dt) { Uj j; j(x, m, t, dt); } static void fuj3(const uvec &x, umat &m, const double &t) { Uj j; j(x, m, t); }
struct Fq { long own; Fq() : own(0) {} void operator()(const vec &p, vec &d) { ++own; ++g_sys; d = p; } }; struct Fp { long own; Fp() : own(0) {} void operator()(const vec &q, vec &d) { ++own; ++g_sys2; d[0] = -q[0] + 0.25 * q[1]; d[1] = -q[1] + 0.25 * q[0] * q[0]; } };
static void ffq(const vec &p, vec &d) { Fq f; f(p, d); } static void ffp(const vec &q, vec &d) { Fp f; f(q, d); }
struct Acc { long own; Acc() : own(0) {} void operator()(const vec &q, const vec &v, vec &a, double t) { ++own; ++g_sys; for (int i = 0; i < 2; i++) a[i] = -q[i] * (1 + 0 * v[i]) + t; } }; static void facc(const vec &q, const vec &v, vec &a, double t) { Acc f; f(q, v, a, t); }
// how a system is passed: c(what) runs, inplace tells whether the caller's object must see all calls (0 no, 1 yes, -1 it has no object)
struct Pass { long own, own2; int inplace; };
struct PlainSys { typedef vec state; enum { modes = 11 }; static const char *name(int m) { static const char *n[] = {"value", "lvalue", "boost::ref", "std::ref", "function pointer", "function", "std::function", "lambda", "const lvalue", "boost::cref", "std::cref"}; return n[m]; } static state init() { vec x = {1, 0.5}; return x; } static vec view(const state &x) { return x; }
    template <class C> static Pass pass(int m, C c) { Sys s; const CSys k; switch (m) { case 0: c(Sys()); return {0, 0, -1}; case 1: c(s); return {s.own, 0, 0}; case 2: c(boost::ref(s)); return {s.own, 0, 1}; case 3: c(std::ref(s)); return {s.own, 0, 1}; case 4: c(&fsys); return {0, 0, -1}; case 5: c(fsys); return {0, 0, -1};
        case 6: c(std::function<void(const vec &, vec &, double)>(std::ref(s))); return {s.own, 0, 1}; case 7: c([&s](const vec &x, vec &d, double t) { s(x, d, t); }); return {s.own, 0, 1}; case 8: c(k); return {k.own, 0, 0}; case 9: c(boost::cref(k)); return {k.own, 0, 1}; default: c(std::cref(k)); return {k.own, 0, 1}; } } };
template <class A, class B> struct PairSys { enum { modes = 9 }; static const char *name(int m) { static const char *n[] = {"pair", "lvalue pair", "boost::ref(pair)", "std::ref(pair)", "pair of boost::ref", "pair of std::ref", "boost::ref(pair of boost::ref)", "std::ref(pair of std::ref)", "pair of function pointers"}; return n[m]; }
    template <class C, class FA, class FB> static Pass go(int m, C c, FA fa, FB fb) { A a; B b; std::pair<A, B> p; switch (m) { case 0: c(std::make_pair(A(), B())); return {0, 0, -1}; case 1: c(p); return {p.first.own, p.second.own, 0}; case 2: c(boost::ref(p)); return {p.first.own, p.second.own, 1}; case 3: c(std::ref(p)); return {p.first.own, p.second.own, 1};
        case 4: c(std::pair<boost::reference_wrapper<A>, boost::reference_wrapper<B>>(boost::ref(a), boost::ref(b))); return {a.own, b.own, 1}; case 5: c(std::pair<std::reference_wrapper<A>, std::reference_wrapper<B>>(std::ref(a), std::ref(b))); return {a.own, b.own, 1};
        case 6: { std::pair<boost::reference_wrapper<A>, boost::reference_wrapper<B>> q(boost::ref(a), boost::ref(b)); c(boost::ref(q)); return {a.own, b.own, 1}; } case 7: { std::pair<std::reference_wrapper<A>, std::reference_wrapper<B>> q(std::ref(a), std::ref(b)); c(std::ref(q)); return {a.own, b.own, 1}; } default: c(std::make_pair(fa, fb)); return {0, 0, -1}; } } };
struct RosSys : PairSys<Uf, Uj> { typedef uvec state; static state init() { uvec x(2); x[0] = 1; x[1] = 0.5; return x; } static vec view(const state &x) { return vec(x.begin(), x.end()); } template <class C> static Pass pass(int m, C c) { return go(m, c, &fuf, &fuj); } };
struct ImpSys : RosSys { template <class C> static Pass pass(int m, C c) { return go(m, c, &fuf, &fuj3); } };
struct SympSys : PairSys<Fq, Fp> { typedef std::pair<vec, vec> state; enum { modes = 13 }; static const char *name(int m) { static const char *n[] = {"momentum function", "boost::ref(momentum function)", "std::ref(momentum function)", "momentum function pointer"}; return m < 9 ? PairSys::name(m) : n[m - 9]; } static state init() { return state(vec{1, 0.5}, vec{0.25, -1}); } static vec view(const state &x) { vec v = x.first; v.insert(v.end(), x.second.begin(), x.second.end()); return v; }
    template <class C> static Pass pass(int m, C c) { Fp p; switch (m) { case 9: c(p); return {g_sys, p.own, 0}; case 10: c(boost::ref(p)); return {g_sys, p.own, 1}; case 11: c(std::ref(p)); return {g_sys, p.own, 1}; case 12: c(&ffp); return {g_sys, 0, -1}; default: return go(m, c, &ffq, &ffp); } } };
struct VerSys { typedef std::pair<vec, vec> state; enum { modes = 6 }; static const char *name(int m) { static const char *n[] = {"value", "lvalue", "boost::ref", "std::ref", "function pointer", "std::function"}; return n[m]; } static state init() { return SympSys::init(); } static vec view(const state &x) { return SympSys::view(x); }
    template <class C> static Pass pass(int m, C c) { Acc s; switch (m) { case 0: c(Acc()); return {0, 0, -1}; case 1: c(s); return {s.own, 0, 0}; case 2: c(boost::ref(s)); return {s.own, 0, 1}; case 3: c(std::ref(s)); return {s.own, 0, 1}; case 4: c(&facc); return {0, 0, -1}; default: c(std::function<void(const vec &, const vec &, vec &, double)>(std::ref(s))); return {s.own, 0, 1}; } } };
// ---- steppers that count ---------------------------------------------------------------------------------------------------------
template <class S> struct Cnt : S { long own; Cnt(const S &s = S()) : S(s), own(0) {}
    template <class Sy, class X, class T> void do_step(Sy sy, X &x, T t, T dt) { ++own; ++g_step; S::do_step(sy, x, t, dt); }
    template <class Sy, class X, class D, class T> void do_step_dxdt_impl(Sy sy, X &x, const D &d, T t, T dt) { ++own; ++g_step; S::do_step_dxdt_impl(sy, x, d, t, dt); } };
template <class S> struct CntC : S { long own; CntC(const S &s = S()) : S(s), own(0) {}
    template <class Sy, class X, class T> ode::controlled_step_result try_step(Sy sy, X &x, T &t, T &dt) { ++own; ++g_step; return S::try_step(sy, x, t, dt); } };
template <class S> struct CntD : S { long own; CntD(const S &s = S()) : S(s), own(0) {} template <class Sy> std::pair<double, double> do_step(Sy sy) { ++own; ++g_step; return S::do_step(sy); } };
// ---- observers, checkers --------------------------------------------------------------------------------------------------------
struct Seen { vec x; double t; }; static std::vector<Seen> g_log; static vec (*g_view)(const void *);
template <class P> struct Obs { long own; Obs() : own(0) {} void operator()(const typename P::state &x, double t) { ++own; ++g_obs; Seen s = {P::view(x), t}; g_log.push_back(s); } };
template <class P> void fobs(const typename P::state &x, double t) { Obs<P> o; o(x, t); }
struct Chk { long own, resets; Chk() : own(0), resets(0) {} void operator()() { ++own; ++g_chk; } void reset() { ++resets; } };
// ---- runs -----------------------------------------------------------------------------------------------------------------------------
struct Cfg { int fn; double t0, t1, dt; };
static const char *FN[] = {"integrate_const", "integrate_n_steps", "integrate_adaptive", "integrate_times", "const_step_time_range", "n_step_time_range", "times_time_range", "adaptive_time_range", "integrate_const(checker)", "integrate_n_steps(checker)", "integrate_adaptive(checker)", "integrate_times(checker)", "integrate_times(range)"};
template <class P, int IC> struct Runner {
    static bool valid(int fn) { if (fn == 10) return false; if (fn == 4 || fn == 5) return IC != 1; if (fn == 7) return IC != 0; return true; }
    template <class R> static void walk(R r) { for (; r.first != r.second; ++r.first) { auto e = *r.first; Seen s = {P::view(e.first), e.second}; g_log.push_back(s); } }
    static vec times(const Cfg &c) { vec t; double w = c.t1 - c.t0; t.push_back(c.t0); t.push_back(c.t0 + 0.25 * w); t.push_back(c.t0 + 0.3125 * w); t.push_back(c.t1); return t; }
    template <class St, class Sy, class Ob> static void integ(const Cfg &c, St st, Sy sy, typename P::state &x, Ob ob) { vec ts = times(c); switch (c.fn) {
        case 0: ode::integrate_const(st, sy, x, c.t0, c.t1, c.dt, ob); break; case 1: ode::integrate_n_steps(st, sy, x, c.t0, c.dt, 5, ob); break; case 2: ode::integrate_adaptive(st, sy, x, c.t0, c.t1, c.dt, ob); break; case 3: ode::integrate_times(st, sy, x, ts.begin(), ts.end(), c.dt, ob); break; default: ode::integrate_times(st, sy, x, ts, c.dt, ob); } }
    template <class St, class Sy, class Ob, class Ck> static void checked(const Cfg &c, St st, Sy sy, typename P::state &x, Ob ob, Ck ck) { vec ts = times(c); switch (c.fn) {
        case 8: ode::integrate_const(st, sy, x, c.t0, c.t1, c.dt, ob, ck); break; case 9: ode::integrate_n_steps(st, sy, x, c.t0, c.dt, 5, ob, ck); break; default: ode::integrate_times(st, sy, x, ts.begin(), ts.end(), c.dt, ob, ck); } }
    template <class St, class Sy> static void ranges(const Cfg &c, St st, Sy sy, typename P::state &x, std::integral_constant<int, 0>) { vec ts = times(c); switch (c.fn) { case 4: walk(ode::make_const_step_time_range(st, sy, x, c.t0, c.t1, c.dt)); break; case 5: walk(ode::make_n_step_time_range(st, sy, x, c.t0, c.dt, 5)); break; default: walk(ode::make_times_time_range(st, sy, x, ts.begin(), ts.end(), c.dt)); } }
    template <class St, class Sy> static void ranges(const Cfg &c, St st, Sy sy, typename P::state &x, std::integral_constant<int, 1>) { vec ts = times(c); if (c.fn == 7) walk(ode::make_adaptive_time_range(st, sy, x, c.t0, c.t1, c.dt)); else walk(ode::make_times_time_range(st, sy, x, ts.begin(), ts.end(), c.dt)); }
    template <class St, class Sy> static void ranges(const Cfg &c, St st, Sy sy, typename P::state &x, std::integral_constant<int, 2>) { if (c.fn == 7) walk(ode::make_adaptive_time_range(st, sy, x, c.t0, c.t1, c.dt)); else ranges(c, st, sy, x, std::integral_constant<int, 0>()); }
    template <class St, class Sy, class Ob> static void run(const Cfg &c, St st, Sy sy, typename P::state &x, Ob ob) { if (c.fn >= 4 && c.fn <= 7) ranges(c, st, sy, x, std::integral_constant<int, IC>()); else if (c.fn >= 8 && c.fn <= 11) { Chk k; checked(c, st, sy, x, ob, std::ref(k)); } else integ(c, st, sy, x, ob); }
    template <class St, class Sy, class Ob, class Ck> static void run_checked(const Cfg &c, St st, Sy sy, typename P::state &x, Ob ob, Ck ck) { checked(c, st, sy, x, ob, ck); }
};
static void reset() { g_sys = g_sys2 = g_obs = g_step = g_chk = 0; g_log.clear(); }
struct Result { std::vector<Seen> log; vec end; long sys, sys2, obs, step, chk; };
static bool same(const vec &a, const vec &b, double tol) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || std::fabs(a[i] - b[i]) <= tol)) return false; return true; }
static void agree(const std::string &key, const Result &a, const Result &b, double tol, bool count) {
    size_t q = std::min(a.log.size(), b.log.size()); if (count) MC_CHECK(a.log.size() == b.log.size(), "observations" + key, a.log.size(), " observations when passed by value, ", b.log.size(), " this way");
    if (count) for (size_t i = 0; i < q; i++) MC_CHECK(std::fabs(a.log[i].t - b.log[i].t) <= tol && same(a.log[i].x, b.log[i].x, tol), "solution" + key, "observation ", i, " is ", mc::show(a.log[i].x), " at ", a.log[i].t, " when passed by value, ", mc::show(b.log[i].x), " at ", b.log[i].t, " this way");
    MC_CHECK(same(a.end, b.end, tol), "solution" + key, "the run ends in ", mc::show(a.end), " when passed by value, in ", mc::show(b.end), " this way");
}
template <class P, int IC> Cfg config() {
    Cfg c; c.fn = mc::choose(13); if (!Runner<P, IC>::valid(c.fn)) throw mc::Skip(); mc::shard_point(); int q = mc::choose(4); static const double t1[] = {1.25, 1.375, 0.25, -0.75}; c.t0 = 0.25; c.t1 = t1[q]; c.dt = q == 3 ? -0.125 : mc::choose(2) ? 0.4 : 0.125; return c;
}
static std::string show(const char *nm, const Cfg &c) { return mc::fmt(nm, " ", FN[c.fn], " t1 ", c.t1, " dt ", c.dt); }
template <class P> Result finish(const typename P::state &x) { Result r = {g_log, P::view(x), g_sys, g_sys2, g_obs, g_step, g_chk}; return r; }
template <class P, int IC, class Mk> Result baseline(const Cfg &c, Mk mk) { reset(); typename P::state x = P::init(); P::pass(0, [&](auto sy) { Runner<P, IC>::run(c, mk(), sy, x, Obs<P>()); }); return finish<P>(x); }
// systems
template <class P, int IC, class Mk> void systems(const char *nm, Mk mk) {
    Cfg c = config<P, IC>(); int m = mc::choose(P::modes); std::string k = mc::fmt(":system:", nm, "/", FN[c.fn], "/", P::name(m)); mc::ctx(show(nm, c) + mc::fmt(", system by ", P::name(m))); Result b = baseline<P, IC>(c, mk); reset(); typename P::state x = P::init();
    Pass p = P::pass(m, [&](auto sy) { Runner<P, IC>::run(c, mk(), sy, x, Obs<P>()); }); mc::transition(); Result r = finish<P>(x); agree(k, b, r, m >= 9 && P::modes == 13 ? 1e-13 : 0, true);
    if (p.inplace == 1) MC_CHECK(p.own == g_sys && p.own2 == (P::modes == 11 || P::modes == 6 ? 0 : g_sys2), "in-place" + k, "the caller's system has seen ", p.own, " and ", p.own2, " of ", g_sys, " and ", g_sys2, " calls"); if (p.inplace == 0 && P::modes != 13) MC_CHECK(p.own == 0 && p.own2 == 0, "by-value" + k, "the caller's system has been called although it was passed by value");
    mc::outcome(mc::mix(g_sys, r.log.size()));
}
// observers
template <class P, int IC, class Mk> void observers(const char *nm, Mk mk) {
    Cfg c = config<P, IC>(); if (c.fn >= 4 && c.fn <= 7) throw mc::Skip(); static const char *N[] = {"value", "lvalue", "boost::ref", "std::ref", "function pointer", "function", "std::function", "lambda"}; int m = mc::choose(8); std::string k = mc::fmt(":observer:", nm, "/", FN[c.fn], "/", N[m]); mc::ctx(show(nm, c) + mc::fmt(", observer by ", N[m])); Result b = baseline<P, IC>(c, mk); reset(); typename P::state x = P::init(); Obs<P> o; typedef typename P::state S; mc::transition();
    P::pass(0, [&](auto sy) { typedef Runner<P, IC> R; switch (m) { case 0: R::run(c, mk(), sy, x, Obs<P>()); break; case 1: R::run(c, mk(), sy, x, o); break; case 2: R::run(c, mk(), sy, x, boost::ref(o)); break; case 3: R::run(c, mk(), sy, x, std::ref(o)); break; case 4: R::run(c, mk(), sy, x, &fobs<P>); break; case 5: R::run(c, mk(), sy, x, fobs<P>); break; case 6: R::run(c, mk(), sy, x, std::function<void(const S &, double)>(std::ref(o))); break; default: R::run(c, mk(), sy, x, [&o](const S &y, double t) { o(y, t); }); } });
    agree(k, b, finish<P>(x), 0, true); if (m == 2 || m == 3 || m == 6 || m == 7) MC_CHECK(o.own == g_obs, "in-place" + k, "the caller's observer has seen ", o.own, " of ", g_obs, " calls"); if (m == 1) MC_CHECK(o.own == 0, "by-value" + k, "the caller's observer has been called although it was passed by value"); mc::outcome(g_obs);
}
// steppers; fresh: what the caller's stepper does next when it has not been used
template <class P, int IC, class Mk, class Probe> void steppers(const char *nm, Mk mk, Probe probe, double tol, bool counts) {
    Cfg c = config<P, IC>(); static const char *N[] = {"lvalue", "boost::ref", "std::ref"}; int m = mc::choose(3), ob = mc::choose(2), sm = mc::choose(2); double steps = (c.t1 - c.t0) / c.dt; std::string k = mc::fmt(":stepper:", nm, "/", FN[c.fn], "/", N[m], c.fn == 2 && std::fabs(steps - std::floor(steps + 0.5)) > 0.01 ? "/partial-last-step" : ""); mc::ctx(show(nm, c) + mc::fmt(", stepper by ", N[m], ob ? ", observer by std::ref" : "", sm ? ", system by reference" : "")); Result b = baseline<P, IC>(c, mk); reset(); typename P::state x = P::init(); Obs<P> o; auto st = mk(); mc::transition();
    P::pass(sm ? 3 : 0, [&](auto sy) { typedef Runner<P, IC> R; if (ob) switch (m) { case 0: R::run(c, st, sy, x, std::ref(o)); break; case 1: R::run(c, boost::ref(st), sy, x, std::ref(o)); break; default: R::run(c, std::ref(st), sy, x, std::ref(o)); } else switch (m) { case 0: R::run(c, st, sy, x, o); break; case 1: R::run(c, boost::ref(st), sy, x, o); break; default: R::run(c, std::ref(st), sy, x, o); } });
    Result r = finish<P>(x); bool exact = m == 0; agree(k, b, r, exact ? 0 : tol, exact || counts); if (m) MC_CHECK(st.own == g_step, "in-place" + k, "the caller's stepper has made ", st.own, " of ", g_step, " steps"); else { MC_CHECK(st.own == 0, "by-value" + k, "the caller's stepper has been used although it was passed by value"); auto f = mk(); vec u = probe(st), v = probe(f); MC_CHECK(same(u, v, 0), "by-value-state" + k, "the caller's stepper, passed by value, has changed: it continues with ", mc::show(u), ", a new one with ", mc::show(v)); }
    if (c.fn < 4 || c.fn > 7) if (ob) MC_CHECK(o.own == g_obs, "in-place-observer" + k, "the caller's observer has seen ", o.own, " of ", g_obs, " calls"); mc::outcome(g_step);
}
// checkers
template <class P, int IC, class Mk> void checkers(const char *nm, Mk mk) {
    Cfg c = config<P, IC>(); if (c.fn < 8 || c.fn > 11) throw mc::Skip(); static const char *N[] = {"value", "boost::ref", "std::ref"}; int m = mc::choose(3), sr = mc::choose(2); std::string k = mc::fmt(":checker:", nm, "/", FN[c.fn], "/", N[m]); mc::ctx(show(nm, c) + mc::fmt(", checker by ", N[m], sr ? ", stepper by reference" : "")); Result b = baseline<P, IC>(c, mk); reset(); typename P::state x = P::init(); Chk o; auto st = mk(); mc::transition();
    P::pass(0, [&](auto sy) { typedef Runner<P, IC> R; if (sr) switch (m) { case 0: R::run_checked(c, std::ref(st), sy, x, Obs<P>(), o); break; case 1: R::run_checked(c, std::ref(st), sy, x, Obs<P>(), boost::ref(o)); break; default: R::run_checked(c, std::ref(st), sy, x, Obs<P>(), std::ref(o)); } else switch (m) { case 0: R::run_checked(c, st, sy, x, Obs<P>(), o); break; case 1: R::run_checked(c, st, sy, x, Obs<P>(), boost::ref(o)); break; default: R::run_checked(c, st, sy, x, Obs<P>(), std::ref(o)); } });
    agree(k, b, finish<P>(x), 0, true); MC_CHECK(sr ? st.own == g_step : st.own == 0, "stepper" + k, "the caller's stepper has made ", st.own, " of ", g_step, " steps"); MC_CHECK(m ? o.own == g_chk && g_chk == b.chk : o.own == 0, "in-place" + k, "the caller's checker has seen ", o.own, " of ", g_chk, " calls, ", b.chk, " in the run with a reference"); mc::outcome(g_chk);
}
// ---- calls on the steppers themselves ---------------------------------------------------------------------------------------------
template <class P, class Op> void direct(const char *nm, int variants, Op op) {
    int v = mc::choose(variants); mc::shard_point(); int m = mc::choose(P::modes), n = 1 + mc::choose(3); std::string k = mc::fmt(":call:", nm, "/", v, "/", P::name(m)); mc::ctx(mc::fmt(nm, " call variant ", v, " system by ", P::name(m), " calls ", n)); typename P::state x = P::init(), y = x; 
    reset(); P::pass(0, [&](auto sy) { op(v, sy, x, n); }); long s1 = g_sys, s2 = g_sys2; reset(); Pass p = P::pass(m, [&](auto sy) { op(v, sy, y, n); }); mc::transition(); MC_CHECK(same(P::view(x), P::view(y), m >= 9 && P::modes == 13 ? 1e-13 : 0), "solution" + k, "ends in ", mc::show(P::view(x)), " by value, in ", mc::show(P::view(y)), " this way");
    if (p.inplace == 1) MC_CHECK(p.own == g_sys && p.own2 == (P::modes == 11 || P::modes == 6 ? 0 : g_sys2), "in-place" + k, "the caller's system has seen ", p.own, " and ", p.own2, " of ", g_sys, " and ", g_sys2, " calls"); if (p.inplace == 0 && P::modes != 13) MC_CHECK(p.own == 0 && p.own2 == 0, "by-value" + k, "the caller's system has been called although it was passed by value");
    if (P::modes != 13) MC_CHECK(g_sys == s1 && g_sys2 == s2, "calls" + k, g_sys, " and ", g_sys2, " system calls, ", s1, " and ", s2, " by value"); mc::outcome(mc::mix(g_sys, n));
}
typedef std::vector<std::pair<std::string, mc::Body>> Bodies;
template <class P, int IC, class Mk, class Probe> void add(Bodies &b, const char *nm, Mk mk, Probe probe, double tol = 0, bool counts = true) {
    std::string n = nm; b.push_back({"system." + n, [=] { systems<P, IC>(nm, mk); }}); b.push_back({"observer." + n, [=] { observers<P, IC>(nm, mk); }}); b.push_back({"stepper." + n, [=] { steppers<P, IC>(nm, mk, probe, tol, counts); }}); b.push_back({"checker." + n, [=] { checkers<P, IC>(nm, mk); }});
}
template <class P, class S> void plain(Bodies &b, const char *nm) { add<P, 0>(b, nm, [] { return Cnt<S>(); }, [](Cnt<S> &s) { typename P::state x = P::init(); vec r; P::pass(0, [&](auto sy) { for (int i = 0; i < 2; i++) { s.do_step(sy, x, 0.5 + i * 0.125, 0.125); vec v = P::view(x); r.insert(r.end(), v.begin(), v.end()); } }); return r; }); }
template <class P, class S, class Mk> void ctrl(Bodies &b, const char *nm, Mk mk0, double tol) { auto mk = [mk0] { return CntC<S>(mk0()); }; add<P, 1>(b, nm, mk, [](CntC<S> &s) { typename P::state x = P::init(); vec r; double t = 0.5, dt = 0.125; P::pass(0, [&](auto sy) { for (int i = 0; i < 3; i++) { int q = s.try_step(sy, x, t, dt); vec v = P::view(x); r.insert(r.end(), v.begin(), v.end()); r.push_back(q); r.push_back(t); r.push_back(dt); } }); return r; }, tol, false); }
template <class P, class S, class Mk> void dense(Bodies &b, const char *nm, Mk mk0) { auto mk = [mk0] { return CntD<S>(mk0()); }; add<P, 2>(b, nm, mk, [](CntD<S> &s) { typename P::state x = P::init(); vec r; s.initialize(x, 0.5, 0.125); P::pass(0, [&](auto sy) { for (int i = 0; i < 3; i++) { auto q = s.do_step(sy); r.push_back(q.first); r.push_back(q.second); s.calc_state((q.first + q.second) / 2, x); vec v = P::view(x); r.insert(r.end(), v.begin(), v.end()); } }); return r; }); }
int main(int argc, char **argv) {
    Bodies b; typedef ode::controlled_adams_bashforth_moulton<ode::adaptive_adams_bashforth_moulton<3, vec>> CABM; typedef PlainSys P;
#if GROUP == 1
    plain<P, ode::runge_kutta4<vec>>(b, "runge_kutta4"); plain<P, ode::runge_kutta_dopri5<vec>>(b, "dopri5"); plain<P, ode::runge_kutta_cash_karp54<vec>>(b, "cash_karp54"); plain<P, ode::modified_midpoint<vec>>(b, "modified_midpoint");
#elif GROUP == 2
    plain<P, ode::adams_bashforth<3, vec>>(b, "adams_bashforth3"); plain<P, ode::adams_bashforth_moulton<3, vec>>(b, "adams_bashforth_moulton3"); plain<P, ode::adaptive_adams_bashforth_moulton<3, vec>>(b, "adaptive_abm3"); plain<P, ode::extrapolation_stepper<4, vec>>(b, "extrapolation4");
#elif GROUP == 3
    ctrl<P, ode::controlled_runge_kutta<ode::runge_kutta_cash_karp54<vec>>>(b, "controlled.cash_karp54", [] { return ode::make_controlled(1e-5, 1e-5, ode::runge_kutta_cash_karp54<vec>()); }, 0); ctrl<P, ode::controlled_runge_kutta<ode::runge_kutta_dopri5<vec>>>(b, "controlled.dopri5", [] { return ode::make_controlled(1e-5, 1e-5, ode::runge_kutta_dopri5<vec>()); }, 1e-12);
    ctrl<P, ode::bulirsch_stoer<vec>>(b, "bulirsch_stoer", [] { return ode::bulirsch_stoer<vec>(1e-5, 1e-5); }, 1e-3); ctrl<P, CABM>(b, "controlled_abm3", [] { return CABM(CABM::step_adjuster_type(1e-5, 1e-5)); }, 1e-2);
#elif GROUP == 4
    { typedef ode::runge_kutta_dopri5<vec> S; typedef ode::result_of::make_dense_output<S>::type D; dense<P, D>(b, "dense.dopri5", [] { return ode::make_dense_output(1e-5, 1e-5, S()); }); } dense<P, ode::bulirsch_stoer_dense_out<vec>>(b, "dense.bulirsch_stoer", [] { return ode::bulirsch_stoer_dense_out<vec>(1e-5, 1e-5); }); dense<P, ode::dense_output_runge_kutta<ode::euler<vec>>>(b, "dense.euler", [] { return ode::dense_output_runge_kutta<ode::euler<vec>>(); });
#elif GROUP == 5
    plain<RosSys, ode::rosenbrock4<double>>(b, "rosenbrock4"); plain<ImpSys, ode::implicit_euler<double>>(b, "implicit_euler"); typedef ode::rosenbrock4_controller<ode::rosenbrock4<double>> RC; ctrl<RosSys, RC>(b, "controlled.rosenbrock4", [] { return RC(1e-5, 1e-5); }, 1e-3); typedef ode::rosenbrock4_dense_output<RC> RD; dense<RosSys, RD>(b, "dense.rosenbrock4", [] { return RD(RC(1e-5, 1e-5)); });
#elif GROUP == 6
    plain<SympSys, ode::symplectic_euler<vec>>(b, "symplectic_euler"); plain<SympSys, ode::symplectic_rkn_sb3a_mclachlan<vec>>(b, "symplectic_rkn_sb3a_mclachlan"); plain<VerSys, ode::velocity_verlet<vec>>(b, "velocity_verlet");
#else
    // explicit steppers: all overloads
#define DIRECT(NAME, ...) b.push_back({"direct." NAME, [] { direct<P>(NAME, 6, [](int v, auto sy, vec &x, int n) { __VA_ARGS__ s; vec d(2), o(2), e(2); for (int i = 0; i < n; i++) { double t = 0.5 + 0.125 * i, h = 0.125; rhs(x, d, t); switch (v) { case 0: s.do_step(sy, x, t, h); break; case 1: s.do_step(sy, x, t, o, h); x = o; break; case 2: s.do_step(sy, x, d, t, h); break; case 3: s.do_step(sy, x, d, t, o, h); x = o; break; case 4: s.do_step(sy, x, t, h, e); break; default: s.do_step(sy, x, t, o, h, e); x = o; } } }); }});
    DIRECT("cash_karp54", ode::runge_kutta_cash_karp54<vec>) DIRECT("cash_karp54_classic", ode::runge_kutta_cash_karp54_classic<vec>) DIRECT("fehlberg78", ode::runge_kutta_fehlberg78<vec>)
#define DIRECT4(NAME, ...) b.push_back({"direct." NAME, [] { direct<P>(NAME, 4, [](int v, auto sy, vec &x, int n) { __VA_ARGS__ s; vec d(2), o(2); for (int i = 0; i < n; i++) { double t = 0.5 + 0.125 * i, h = 0.125; rhs(x, d, t); switch (v) { case 0: s.do_step(sy, x, t, h); break; case 1: s.do_step(sy, x, t, o, h); x = o; break; case 2: s.do_step(sy, x, d, t, h); break; default: s.do_step(sy, x, d, t, o, h); x = o; } } }); }});
    DIRECT4("euler", ode::euler<vec>) DIRECT4("runge_kutta4", ode::runge_kutta4<vec>) DIRECT4("runge_kutta4_classic", ode::runge_kutta4_classic<vec>) DIRECT4("modified_midpoint", ode::modified_midpoint<vec>) DIRECT4("extrapolation4", ode::extrapolation_stepper<4, vec>)
    b.push_back({"direct.dopri5", [] { direct<P>("dopri5", 8, [](int v, auto sy, vec &x, int n) { ode::runge_kutta_dopri5<vec> s; vec d(2), o(2), e(2), q(2); for (int i = 0; i < n; i++) { double t = 0.5 + 0.125 * i, h = 0.125; rhs(x, d, t); switch (v) { case 0: s.do_step(sy, x, t, h); break; case 1: s.do_step(sy, x, t, o, h); x = o; break; case 2: s.do_step(sy, x, d, t, h); break; case 3: s.do_step(sy, x, d, t, o, q, h); x = o; break; case 4: s.do_step(sy, x, t, h, e); break; case 5: s.do_step(sy, x, t, o, h, e); x = o; break; case 6: s.do_step(sy, x, d, t, h, e); break; default: s.do_step(sy, x, d, t, o, q, h, e); x = o; } } }); }});
    b.push_back({"direct.controlled.cash_karp54", [] { direct<P>("controlled.cash_karp54", 4, [](int v, auto sy, vec &x, int n) { auto s = ode::make_controlled(1e-4, 1e-4, ode::runge_kutta_cash_karp54<vec>()); vec d(2), o(2); double t = 0.5, h = 0.5; for (int i = 0; i < n; i++) { rhs(x, d, t); o = x; switch (v) { case 0: s.try_step(sy, x, t, h); break; case 1: s.try_step(sy, x, d, t, h); break; case 2: s.try_step(sy, x, t, o, h); x = o; break; default: s.try_step(sy, x, d, t, o, h); x = o; } } }); }});
    b.push_back({"direct.controlled.dopri5", [] { direct<P>("controlled.dopri5", 4, [](int v, auto sy, vec &x, int n) { auto s = ode::make_controlled(1e-4, 1e-4, ode::runge_kutta_dopri5<vec>()); vec d(2), o(2), q(2); double t = 0.5, h = 0.5; for (int i = 0; i < n; i++) { rhs(x, d, t); o = x; switch (v) { case 0: s.try_step(sy, x, t, h); break; case 1: s.try_step(sy, x, d, t, h); break; case 2: s.try_step(sy, x, t, o, h); x = o; break; default: s.try_step(sy, x, d, t, o, q, h); x = o; } } }); }});
    b.push_back({"direct.bulirsch_stoer", [] { direct<P>("bulirsch_stoer", 4, [](int v, auto sy, vec &x, int n) { ode::bulirsch_stoer<vec> s(1e-4, 1e-4); vec d(2), o(2); double t = 0.5, h = 0.5; for (int i = 0; i < n; i++) { rhs(x, d, t); o = x; switch (v) { case 0: s.try_step(sy, x, t, h); break; case 1: s.try_step(sy, x, d, t, h); break; case 2: s.try_step(sy, x, t, o, h); x = o; break; default: s.try_step(sy, x, d, t, o, h); x = o; } } }); }});
    // initialising steppers of the multistep methods, by value and by reference
    struct Ini { static void use(vec &x, ode::runge_kutta4<vec> &r, int v) { (void)x; (void)r; (void)v; } };
#define MULTI(NAME, ...) b.push_back({"direct." NAME, [] { direct<P>(NAME, 5, [](int v, auto sy, vec &x, int n) { __VA_ARGS__ s; Cnt<ode::runge_kutta4<vec>> r; double t = 0.5, h = 0.125; vec o(2); long before = g_step; switch (v) { case 0: break; case 1: s.initialize(sy, x, t, h); break; case 2: s.initialize(r, sy, x, t, h); break; case 3: s.initialize(boost::ref(r), sy, x, t, h); break; default: s.initialize(std::ref(r), sy, x, t, h); } \
        if (v >= 3) MC_CHECK(r.own == g_step - before && r.own > 0, "in-place:initialising:" NAME, "the caller's initialising stepper has made ", r.own, " of ", g_step - before, " steps"); if (v == 2) MC_CHECK(r.own == 0 && g_step > before, "by-value:initialising:" NAME, "the caller's initialising stepper has been used"); for (int i = 0; i < n + 2; i++) { s.do_step(sy, x, t, o, h); x = o; t += h; } }); }});
    MULTI("adams_bashforth3", ode::adams_bashforth<3, vec>) MULTI("adams_bashforth_moulton3", ode::adams_bashforth_moulton<3, vec>) MULTI("adaptive_abm3", ode::adaptive_adams_bashforth_moulton<3, vec>)
    b.push_back({"direct.controlled_abm3", [] { direct<P>("controlled_abm3", 8, [](int v, auto sy, vec &x, int n) { CABM s(CABM::step_adjuster_type(1e-4, 1e-4)); Cnt<ode::runge_kutta4<vec>> r; typedef CntC<ode::controlled_runge_kutta<ode::runge_kutta_cash_karp54<vec>>> CC; CC c; double t = 0.5, h = 0.0625; vec o(2); long before = g_step; switch (v) { case 0: break; case 1: s.initialize(sy, x, t, h); break; case 2: s.initialize(r, sy, x, t, h); break; case 3: s.initialize(boost::ref(r), sy, x, t, h); break; case 4: s.initialize(std::ref(r), sy, x, t, h); break; case 5: s.initialize_controlled(c, sy, x, t, h); break; case 6: s.initialize_controlled(boost::ref(c), sy, x, t, h); break; default: s.initialize_controlled(std::ref(c), sy, x, t, h); }
        if (v >= 3 && v != 5) MC_CHECK(r.own + c.own == g_step - before && g_step > before, "in-place:initialising:controlled_abm3", "the caller's initialising stepper has made ", r.own + c.own, " of ", g_step - before, " steps"); if (v == 2 || v == 5) MC_CHECK(r.own + c.own == 0 && g_step > before, "by-value:initialising:controlled_abm3", "the caller's initialising stepper has been used"); for (int i = 0; i < n + 2; i++) if (i % 2) s.try_step(sy, x, t, h); else { o = x; s.try_step(sy, x, t, o, h); x = o; } }); }});
    // the ways of passing the state of symplectic steppers
    { typedef SympSys Q; b.push_back({"direct.symplectic", [] { direct<Q>("symplectic", 5, [](int v, auto sy, std::pair<vec, vec> &x, int n) { ode::symplectic_rkn_sb3a_mclachlan<vec> s; vec q = x.first, p = x.second; std::pair<vec, vec> o = x; for (int i = 0; i < n; i++) { double t = 0, h = 0.125; switch (v) { case 0: s.do_step(sy, x, t, h); q = x.first; p = x.second; break; case 1: s.do_step(sy, std::make_pair(boost::ref(q), boost::ref(p)), t, h); break; case 2: s.do_step(sy, std::make_pair(std::ref(q), std::ref(p)), t, h); break; case 3: s.do_step(sy, q, p, t, h); break; default: s.do_step(sy, x, t, o, h); q = o.first; p = o.second; break;
            } x.first = q; x.second = p; } 
            std::pair<vec, vec> y = Q::init(); ode::symplectic_rkn_sb3a_mclachlan<vec> z; for (int i = 0; i < n; i++) z.do_step(sy, y, 0.0, 0.125); MC_CHECK(same(Q::view(x), Q::view(y), 0), mc::fmt("state:symplectic/", v), "state passed in way ", v, " ends in ", mc::show(Q::view(x)), ", expected ", mc::show(Q::view(y))); }); }}); }
    { typedef VerSys Q; b.push_back({"direct.velocity_verlet", [] { direct<Q>("velocity_verlet", 3, [](int v, auto sy, std::pair<vec, vec> &x, int n) { ode::velocity_verlet<vec> s; vec q = x.first, p = x.second; for (int i = 0; i < n; i++) { double t = 0.125 * i, h = 0.125; switch (v) { case 0: s.do_step(sy, x, t, h); q = x.first; p = x.second; break; case 1: s.do_step(sy, std::make_pair(boost::ref(q), boost::ref(p)), t, h); break; default: s.do_step(sy, std::make_pair(std::ref(q), std::ref(p)), t, h); } x.first = q; x.second = p; }
            std::pair<vec, vec> y = Q::init(); ode::velocity_verlet<vec> z; for (int i = 0; i < n; i++) z.do_step(sy, y, 0.125 * i, 0.125); MC_CHECK(same(Q::view(x), Q::view(y), 0), mc::fmt("state:velocity_verlet/", v), "state passed in way ", v, " ends in ", mc::show(Q::view(x)), ", expected ", mc::show(Q::view(y))); }); }}); }
    b.push_back({"direct.rosenbrock4", [] { direct<RosSys>("rosenbrock4", 4, [](int v, auto sy, uvec &x, int n) { ode::rosenbrock4<double> s; uvec o(2), e(2); for (int i = 0; i < n; i++) { double t = 0.5 + 0.125 * i; switch (v) { case 0: s.do_step(sy, x, t, 0.125); break; case 1: s.do_step(sy, x, t, o, 0.125); x = o; break; case 2: s.do_step(sy, x, t, 0.125, e); break; default: s.do_step(sy, x, t, o, 0.125, e); x = o; } } }); }});
    b.push_back({"direct.implicit_euler", [] { direct<ImpSys>("implicit_euler", 1, [](int, auto sy, uvec &x, int n) { ode::implicit_euler<double> s; for (int i = 0; i < n; i++) s.do_step(sy, x, 0.5 + 0.125 * i, 0.125); }); }});
#endif
    return mc::run_main(argc, argv, b);
}
