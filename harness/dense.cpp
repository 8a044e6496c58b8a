// C09: dense-output steppers.
//  env  : the dense-output wrappers closed with environment steppers (accept/reject and next step size are
//         choices); the states carry the time they belong to, calc_state checks everything it is handed
//  real : the library's dense-output steppers through all histories of initialise/step/query/copy up to a
//         depth, next to a twin that is never queried, with the exact flow as the oracle
//  trees: order of the continuous extension: rooted trees at interior points
#include "trees.hpp"
#include <utility>
#include <boost/numeric/odeint/util/state_wrapper.hpp>
#include <boost/numeric/odeint/util/resizer.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
namespace ode = boost::numeric::odeint;
static bool thorough() { return mc::E().tier == "thorough"; }
typedef std::vector<double> state; typedef boost::numeric::ublas::vector<double> uvec; typedef boost::numeric::ublas::matrix<double> umat;

// ---- environment ----------------------------------------------------------------------------------
// state = {time, serial number of the trajectory, rejected trials leave 99 here}; derivative = {1, time, serial}
struct World { int trial = 0, sysev = 0, prepared = 0, resets = 0; double next = 0; std::string kk; double serial = 0; };
static World& W() { static World w; return w; }
struct EnvSys { void operator()(const state& x, state& d, double t) const { W().sysev++; MC_CHECK(x[0] == t, "evaluation-time:" + W().kk, "system evaluated at t=", t, " with the state of time ", x[0]); d[0] = 1; d[1] = t; d[2] = x[1]; } };
struct EnvJac { template <class X, class M> void operator()(const X&, M&, double, X&) const {} };
template <class S> void check_state(const S& x, double t, const char* what) { MC_CHECK(x[0] == t && x[1] == W().serial && x[2] == 0, mc::fmt("state-handed-over:", W().kk), what, " is the state of time ", x[0], " of trajectory ", x[1], ", expected time ", t, " of ", W().serial, x[2] ? " (left over from a rejected trial)" : ""); }
inline void check_deriv(const state& d, double t, const char* what) { MC_CHECK(d[0] == 1 && d[1] == t && d[2] == W().serial, mc::fmt("derivative-handed-over:", W().kk), what, " is the derivative at ", d[1], " of trajectory ", d[2], ", expected ", t, " of ", W().serial); }
template <class X> void put(const X& cx, double t, double s) { X& x = const_cast<X&>(cx); x[0] = t; x[1] = s; x[2] = 0; }
struct QueryLog { double t, t_old, t_new; int n = 0; }; static QueryLog& Q() { static QueryLog q; return q; }
struct Base {
    typedef state state_type; typedef double value_type; typedef state deriv_type; typedef double time_type; typedef ode::range_algebra algebra_type; typedef ode::default_operations operations_type;
    typedef ode::initially_resizer resizer_type; typedef ode::state_wrapper<state> wrapped_state_type; typedef ode::state_wrapper<state> wrapped_deriv_type; typedef unsigned short order_type;
    order_type order() const { return 1; } template <class S> void adjust_size(const S&) {}
};
static bool trial(double& dt, double& used) {   // decision of the environment
    World& w = W(); w.trial++; mc::transition(); mc::tick(); int c = mc::deviate(5); used = dt; bool ok = c != 1 && c != 4;
    dt = c == 1 ? dt / 2 : c == 2 ? dt * 2 : c == 3 ? dt / 2 : c == 4 ? dt / 8 : dt; mc::log(ok ? "accepted " : "rejected ", used, " next ", dt); return ok;
}
struct EnvSimple : Base {
    typedef ode::stepper_tag stepper_category; typedef EnvSimple stepper_type;
    template <class Sys> void do_step(Sys, const state& in, double t, state& out, double dt) { check_state(in, t, "the initial state of a step"); mc::transition(); W().trial++; MC_CHECK(&in != &out, "aliased:" + W().kk, "input and output are the same object"); out = in; out[0] = t + dt; }
    template <class X> void calc_state(X& x, double t, const state& old, double t_old, const state& cur, double t_new) const { check_state(old, t_old, "the state at the beginning of the interval"); check_state(cur, t_new, "the state at the end of the interval"); Q() = {t, t_old, t_new, Q().n + 1}; put(x, t, old[1]); }
};
struct EnvFsal : Base {
    typedef ode::explicit_error_stepper_fsal_tag stepper_category;
    template <class X> void calc_state(double t, X& x, const state& old, const state& dold, double t_old, const state& cur, const state& dcur, double t_new) const {
        check_state(old, t_old, "the state at the beginning of the interval"); check_state(cur, t_new, "the state at the end of the interval"); check_deriv(dold, t_old, "the derivative at the beginning of the interval"); check_deriv(dcur, t_new, "the derivative at the end of the interval"); Q() = {t, t_old, t_new, Q().n + 1}; put(x, t, old[1]); }
};
struct EnvCtl : Base {
    typedef ode::explicit_controlled_stepper_fsal_tag stepper_category; typedef EnvFsal stepper_type; EnvFsal st; stepper_type& stepper() { return st; } const stepper_type& stepper() const { return st; }
    template <class Sys> ode::controlled_step_result try_step(Sys sys, const state& in, const state& din, double& t, state& out, state& dout, double& dt) {
        check_state(in, t, "the initial state of a trial"); check_deriv(din, t, "the derivative at the start of a trial"); MC_CHECK(&in != &out && &din != &dout, "aliased:" + W().kk, "input and output are the same object");
        double h; bool ok = trial(dt, h); out = in; out[0] = t + h; dout = din; if (!ok) { out[2] = 99; dout[0] = 99; return ode::fail; }
        sys(out, dout, t + h); t += h; return ode::success;
    }
};
struct EnvRosStepper {
    typedef double value_type; typedef uvec state_type; typedef uvec deriv_type; typedef double time_type; typedef ode::state_wrapper<uvec> wrapped_state_type; typedef ode::state_wrapper<uvec> wrapped_deriv_type; typedef ode::initially_resizer resizer_type;
    double done_old = 0, done_new = 0, prep_old = 0, prep_new = 0; template <class S> void adjust_size(const S&) {}
    void prepare_dense_output() { prep_old = done_old; prep_new = done_new; W().prepared++; }
    template <class X> void calc_state(double t, X& x, const uvec& old, double t_old, const uvec& cur, double t_new) {
        MC_CHECK(prep_old == t_old && prep_new == t_new, "unprepared:" + W().kk, "queried in [", t_old, ",", t_new, "] with the coefficients of [", prep_old, ",", prep_new, "]");
        check_state(old, t_old, "the state at the beginning of the interval"); check_state(cur, t_new, "the state at the end of the interval"); Q() = {t, t_old, t_new, Q().n + 1}; put(x, t, old[1]); }
};
struct EnvRosCtl {
    typedef EnvRosStepper stepper_type; stepper_type st; stepper_type& stepper() { return st; } const stepper_type& stepper() const { return st; } template <class S> void adjust_size(const S&) {} void reset() { W().resets++; }
    template <class Sys> ode::controlled_step_result try_step(Sys, const uvec& in, double& t, uvec& out, double& dt) {
        check_state(in, t, "the initial state of a trial"); MC_CHECK(&in != &out, "aliased:" + W().kk, "input and output are the same object"); double h; bool ok = trial(dt, h); out = in; out[0] = t + h; st.done_old = t; st.done_new = t + h; if (!ok) { out[2] = 99; return ode::fail; } t += h; return ode::success;
    }
};
template <class X> X mk(double a, double b, double c) { X x(3); x[0] = a; x[1] = b; x[2] = c; return x; }
template <class D, class X, class Sys> void env_body(const char* nm, Sys sys, bool adaptive) {
    W() = World(); W().kk = nm; double sg = mc::choose(2) ? -1 : 1; double t0 = mc::choose(2) ? -3.25 : 0, dt0 = sg * 0.5; mc::shard_point();
    std::string cx = mc::fmt(nm, " t0 ", t0, " dt ", dt0, " operations"); D d; W().serial = 1; d.initialize(mk<X>(t0, 1, 0), t0, dt0); double t = t0, told = 0; bool stepped = false; int depth = thorough() ? 8 : 6;
    for (int k = 0; k < depth; k++) {
        int op = k == 0 ? 0 : mc::choose(k + 1 == depth ? 3 : 7);
        if (op == 0) { cx += " step"; mc::ctx(cx); double want = d.current_time_step(); int tr = W().trial; std::pair<double, double> I = d.do_step(sys);
            MC_CHECK(I.first == t && I.second == d.current_time() && d.previous_time() == t, mc::fmt("chain:", nm), "interval [", I.first, ",", I.second, "], the previous one ended at ", t, "; previous_time() ", d.previous_time(), " current_time() ", d.current_time());
            MC_CHECK((I.second - I.first) * sg > 0, mc::fmt("direction:", nm), "interval [", I.first, ",", I.second, "]"); MC_CHECK((d.current_time_step()) * sg > 0, mc::fmt("direction:", nm), "next step ", d.current_time_step());
            if (W().trial == tr + 1) MC_CHECK(I.second == t + want, mc::fmt("step-size:", nm), "first trial accepted with ", want, " but the interval is [", I.first, ",", I.second, "]");
            told = t; t = I.second; stepped = true; }
        else if (op <= 2) { if (!stepped) continue; double th = op == 1 ? 0.25 : (k % 2 ? 1.0 : 0.0), q = told + th * (t - told); cx += mc::fmt(" query(", th, ")"); mc::ctx(cx); X x = mk<X>(55, 55, 55); int n = Q().n; if (k % 3 == 1) d.calc_state(q, static_cast<const X&>(x)); else d.calc_state(q, x);
            MC_CHECK(x[0] == q && x[1] == W().serial, mc::fmt("query:", nm), "query at ", q, " gives the state of time ", x[0], " of trajectory ", x[1]); if (Q().n > n) MC_CHECK(Q().t == q && Q().t_old == told && Q().t_new == t, mc::fmt("query-interval:", nm), "query at ", q, " in [", told, ",", t, "] uses ", Q().t, " in [", Q().t_old, ",", Q().t_new, "]"); }
        else if (op == 3) { cx += " initialise"; W().serial++; t = t0 + W().serial * 8; d.initialize(mk<X>(t, W().serial, 0), t, dt0); stepped = false; MC_CHECK(d.current_time() == t && d.current_time_step() == dt0, mc::fmt("initialise:", nm), "current_time() ", d.current_time(), " after initialising at ", t); check_state(d.current_state(), t, "current_state()"); }
        else if (op == 4) { cx += " copy"; D e(d); D f; f = e; e.initialize(mk<X>(1000, 77, 0), 1000, dt0); d = f; }
        else if (op == 6) { cx += " other-trajectory-here"; W().serial++; d.initialize(mk<X>(t, W().serial, 0), t, dt0); stepped = false; }   // same time, another state: nothing known before applies
        else { cx += " reinitialise-here"; X x = d.current_state(); d.initialize(x, t, dt0); stepped = false; }
        mc::ctx(cx); if (stepped) { check_state(d.current_state(), t, "current_state()"); check_state(d.previous_state(), told, "previous_state()"); }
        MC_CHECK(d.current_time() == t, mc::fmt("current-time:", nm), d.current_time(), " expected ", t);
        mc::state(mc::mix(mc::mix(mc::hash_double(t), mc::hash_double(told)), mc::hash_double(d.current_time_step()) + k)); mc::outcome(mc::hash_double(t));
    }
    (void)adaptive;
}

// ---- real steppers ----------------------------------------------------------------------------------
// flow with a closed form: rotation with time dependent frequency; and a logistic component
static double theta_int(double a, double b) { auto F = [](double t) { return 1.5 * t - 0.8 * std::cos(1.3 * t) / 1.3; }; return F(b) - F(a); }
struct Rhs { int p; template <class X> void operator()(const X& x, X& d, double t) const { mc::tick(); double w = 1.5 + 0.8 * std::sin(1.3 * t); if (p == 0) { d[0] = -w * x[1]; d[1] = w * x[0]; } else { d[0] = w * x[0] * (1 - x[0]); d[1] = std::cos(t) - x[1] * 0.0; } } };
struct Jac { int p; template <class X> void operator()(const X& x, umat& J, double t, X& f) const { double w = 1.5 + 0.8 * std::sin(1.3 * t), wt = 0.8 * 1.3 * std::cos(1.3 * t); J(0, 0) = J(0, 1) = J(1, 0) = J(1, 1) = 0; if (p == 0) { J(0, 1) = -w; J(1, 0) = w; f[0] = -wt * x[1]; f[1] = wt * x[0]; } else { J(0, 0) = w * (1 - 2 * x[0]); f[0] = wt * x[0] * (1 - x[0]); f[1] = -std::sin(t); } } };
template <class X> void flow(int p, const X& x, double a, double b, double* o) {
    double th = theta_int(a, b); if (p == 0) { o[0] = std::cos(th) * x[0] - std::sin(th) * x[1]; o[1] = std::sin(th) * x[0] + std::cos(th) * x[1]; }
    else { double e = std::exp(th); o[0] = x[0] * e / (1 - x[0] + x[0] * e); o[1] = x[1] + std::sin(b) - std::sin(a); }
}
// acc: bound on the interior error in units of the weighted tolerance (adaptive) ; <0: Euler, linear interpolation
template <class T> struct A_dopri5 { typedef state X; typedef ode::controlled_runge_kutta<ode::runge_kutta_dopri5<state>> C; typedef ode::dense_output_runge_kutta<C> D; static D make(double tol, double mx) { return D(C(ode::default_error_checker<double, ode::range_algebra, ode::default_operations>(tol, tol), ode::default_step_adjuster<double, double>(mx))); } static Rhs sys(int p) { return {p}; } static const bool lin = false; static double reach() { return 100; } static double fac() { return 40; } static double ends(double) { return 1e-11; } };
template <class T> struct A_made { typedef state X; typedef typename ode::result_of::make_dense_output<ode::runge_kutta_dopri5<state>>::type D; static D make(double tol, double mx) { return mx == 0 ? ode::make_dense_output(tol, tol, ode::runge_kutta_dopri5<state>()) : ode::make_dense_output(tol, tol, mx, ode::runge_kutta_dopri5<state>()); } static Rhs sys(int p) { return {p}; } static const bool lin = false; static double reach() { return 100; } static double fac() { return 40; } static double ends(double) { return 1e-11; } };
template <class T> struct A_euler { typedef state X; typedef ode::dense_output_runge_kutta<ode::euler<state>> D; static D make(double, double) { return D(); } static Rhs sys(int p) { return {p}; } static const bool lin = true; static double reach() { return 100; } static double fac() { return 0; } static double ends(double) { return 1e-11; } };
template <class T> struct A_ros { typedef uvec X; typedef ode::rosenbrock4_controller<ode::rosenbrock4<double>> C; typedef ode::rosenbrock4_dense_output<C> D; static D make(double tol, double mx) { return D(C(tol, tol, mx)); } static std::pair<Rhs, Jac> sys(int p) { return {{p}, {p}}; } static const bool lin = false; static double reach() { return 100; } static double fac() { return 40; } static double ends(double) { return 1e-11; } };
template <class T> struct A_bs { typedef state X; typedef ode::bulirsch_stoer_dense_out<state> D; static D make(double tol, double mx) { return D(tol, tol, 1, 1, mx, false); } static Rhs sys(int p) { return {p}; } static const bool lin = false; static double reach() { return 0.75; } static double fac() { return 60; } static double ends(double tol) { return  60 * tol + 1e-11; } };
template <class T> struct A_bsc { typedef state X; typedef ode::bulirsch_stoer_dense_out<state> D; static D make(double tol, double mx) { return D(tol, tol, 1, 1, mx, true); } static Rhs sys(int p) { return {p}; } static const bool lin = false; static double reach() { return 0.75; } static double fac() { return 30; } static double ends(double tol) { return  30 * tol + 1e-11; } };
template <class X> X initial(int p) { X x(2); x[0] = p == 0 ? 1.0 : 0.2; x[1] = p == 0 ? 0.25 : -0.5; return x; }
template <class A> void real_body(const char* nm) {
    typedef typename A::X X; typedef typename A::D D; static const double tols[] = {1e-3, 1e-6, 1e-9}, dts[] = {0.05, 0.7, 3.0};
    int tk = mc::choose(A::lin ? 1 : 3), mk_ = mc::choose(A::lin ? 1 : 2); double sg = mc::choose(2) ? -1 : 1; int dk = mc::choose(3), p0 = mc::choose(2); double t0 = mc::choose(2) ? -3.25 : 0.5; mc::shard_point();
    double tol = tols[tk], mx = mk_ ? sg * 0.2 : 0; std::string kk = mc::fmt(":", nm, sg > 0 ? "/forward" : "/backward"); std::string cx = mc::fmt(nm, " tolerance ", tol, " max_dt ", mx, " dt ", sg * dts[dk], " t0 ", t0, " problem ", p0, " operations");
    D d = A::make(tol, mx), tw = A::make(tol, mx); int p = p0; double t = t0, told = t0; d.initialize(initial<X>(p), t, sg * dts[dk]); tw.initialize(initial<X>(p), t, sg * dts[dk]); bool stepped = false;
    int depth = thorough() ? 7 : 5; int inits = 0; int last = 0;
    for (int k = 0; k < depth; k++) {
        int op = k == 0 ? 0 : mc::choose(last >= 3 ? 1 : k + 1 == depth ? 3 : 6); last = op; mc::transition();
        if (op == 0) { cx += " step"; mc::ctx(cx); double want = d.current_time_step(); std::pair<double, double> I = d.do_step(A::sys(p)), J = tw.do_step(A::sys(p));
            MC_CHECK(I.first == t && I.second == d.current_time() && d.previous_time() == t, "chain" + kk, "interval [", I.first, ",", I.second, "], the previous one ended at ", t, "; previous_time() ", d.previous_time(), " current_time() ", d.current_time());
            MC_CHECK((I.second - I.first) * sg > 0 && std::fabs(I.second - I.first) <= std::fabs(want) * (1 + 1e-12), "direction" + kk, "interval [", I.first, ",", I.second, "] for a step size of ", want); MC_CHECK(d.current_time_step() * sg > 0, "direction" + kk, "next step ", d.current_time_step());
            if (mx != 0) MC_CHECK(std::fabs(I.second - I.first) <= std::fabs(mx) * (1 + 1e-12) && std::fabs(d.current_time_step()) <= std::fabs(mx) * (1 + 1e-12), "max-dt" + kk, "interval [", I.first, ",", I.second, "] next ", d.current_time_step(), " above the limit ", mx);
            MC_CHECK(J == I && mc::same_bits_or_nan(d.current_state()[0], tw.current_state()[0]) && mc::same_bits_or_nan(d.current_state()[1], tw.current_state()[1]) && d.current_time_step() == tw.current_time_step(), "query-changes-steps" + kk, "interval [", I.first, ",", I.second, "], a stepper that was never queried has [", J.first, ",", J.second, "]");
            told = t; t = I.second; stepped = true; }
        else if (op <= 2) { X x(2); x[0] = x[1] = 77; double th = op == 1 ? 0.0 : 0.37; cx += mc::fmt(" query(", th, ")"); mc::ctx(cx); if (th == 0) d.calc_state(k % 2 ? told : t, x); else d.calc_state(told + th * (t - told), x); }
        else if (op == 3 || op == 5) { cx += op == 3 ? " initialise" : " initialise-at-current-time"; mc::ctx(cx); inits++; p = 1 - p; if (op == 3) t = t0 + inits; told = t; stepped = false; D f = A::make(tol, mx); double dt = sg * dts[(dk + inits) % 3]; d.initialize(initial<X>(p), t, dt); f.initialize(initial<X>(p), t, dt);
            D g(d); MC_CHECK(g.current_time() == t && g.current_time_step() == dt, "initialise" + kk, "time ", g.current_time(), " step ", g.current_time_step()); for (int s = 0; s < 3; s++) { std::pair<double, double> I = g.do_step(A::sys(p)), J = f.do_step(A::sys(p)); X a(2), b(2); double q = I.first + 0.3 * (I.second - I.first); g.calc_state(q, a); f.calc_state(q, b); MC_CHECK(I == J && a[0] == b[0] && a[1] == b[1] && g.current_state()[0] == f.current_state()[0] && g.current_state()[1] == f.current_state()[1] && g.current_time_step() == f.current_time_step(), "initialise-keeps-history" + kk, "re-initialised stepper: [", I.first, ",", I.second, "], new stepper: [", J.first, ",", J.second, "]"); }
            tw.initialize(initial<X>(p), t, dt); }
        else { cx += " copy"; D e(d); X x(2); e.do_step(A::sys(p)); e.calc_state(e.current_time(), x); e.initialize(initial<X>(1 - p), -7, sg * 0.1); }
        mc::ctx(cx);
        if (stepped && std::fabs(t - told) <= A::reach()) {   // everything a query can show about the last interval
            const X& cur = d.current_state(); const X& old = d.previous_state(); X x(2); double acc = 0, ref[2]; double sc = std::max(1.0, std::max(std::fabs(cur[0]), std::fabs(cur[1])));
            D probe(d);   // queries go to the copy, the original is only queried by the history
            probe.calc_state(t, x); for (int i = 0; i < 2; i++) MC_CHECK(std::fabs(x[i] - cur[i]) <= A::ends(tol) * sc, "end-point" + kk, "query at the end ", t, " gives ", x[i], ", current_state() is ", cur[i]);
            probe.calc_state(told, x); for (int i = 0; i < 2; i++) MC_CHECK(std::fabs(x[i] - old[i]) <= A::ends(tol) * sc, "start-point" + kk, "query at the start ", told, " gives ", x[i], ", previous_state() is ", old[i]);
            for (double th : {0.1, 0.25, 0.5, 0.8}) { double q = told + th * (t - told); X y(2); probe.calc_state(q, x); probe.calc_state(told + 0.05 * (t - told), y); probe.calc_state(q, y); MC_CHECK(x[0] == y[0] && x[1] == y[1], "query-history" + kk, "the same query gives different answers");
                if (A::lin) { for (int i = 0; i < 2; i++) MC_CHECK(mc::close(x[i], old[i] + th * (cur[i] - old[i]), 1e-11 * sc), "linear" + kk, "query at ", q, " gives ", x[i], ", interpolation ", old[i] + th * (cur[i] - old[i])); }
                else { flow(p, old, told, q, ref); double d0[2]; Rhs r = {p}; X dd(2); r(old, dd, told); for (int i = 0; i < 2; i++) acc = std::max(acc, std::fabs(x[i] - ref[i]) / (tol + tol * (std::fabs(old[i]) + std::fabs((t - told) * dd[i])))); (void)d0; } }
            if (!A::lin) mc::count(mc::fmt("interior error up to 2^", std::max(-4, int(std::ceil(std::log2(std::max(acc, 1e-9))))), " tolerances"));
            if (!A::lin) MC_CHECK(acc <= A::fac(), "interior-accuracy" + kk, "interior error is ", acc, " times the tolerance in [", told, ",", t, "]");
            mc::outcome(mc::hash_double(x[0])); mc::state(mc::mix(mc::hash_double(t), mc::hash_double(cur[0])));
        }
    }
}

// ---- order of the continuous extension ---------------------------------------------------------------
struct TSys { const trees::Tree* T; const state* off; double t0; template <class X> void operator()(const X& x, X& d, double t) const { mc::tick(); T->rhs(x, d, t - t0, *off); } };
struct TJac { const trees::Tree* T; const state* off; double t0; template <class X> void operator()(const X& x, umat& J, double t, X& f) const {
    size_t n = T->n(); for (size_t i = 0; i < n; i++) { f[i] = 0; for (size_t j = 0; j < n; j++) J(i, j) = 0; }
    for (size_t i = 1; i < n; i++) { size_t r = T->par[i]; if (T->time[r]) continue; double v = 1; for (size_t j = 1; j < n; j++) if (size_t(T->par[j]) == r && j != i) v *= T->time[j] ? t - t0 : x[j] - (*off)[j]; if (T->time[i]) f[r] += v; else J(r, i) += v; } } };
template <class A, class Mk> void tree_body(const char* nm, int order, Mk mksys) {
    typedef typename A::X X; static const double H[] = {1.0, -1.0, 0.5, -2.0}, T0[] = {0, 0.25, -3}; double h = H[mc::choose(4)], t0 = T0[mc::choose(3)]; int o = mc::choose(2); mc::shard_point();
    trees::Tree T = trees::choose(1, order, true); state off(T.n()); for (size_t i = 0; i < T.n(); i++) off[i] = o ? 1.5 - 0.25 * i : 0; mc::ctx(mc::fmt(nm, " ", T.name(), " h ", h, " t0 ", t0, " offset ", o));
    typename A::D d = A::make(1e8, 0); X x0(T.n()); for (size_t i = 0; i < T.n(); i++) x0[i] = off[i]; d.initialize(x0, t0, h); std::pair<double, double> I = d.do_step(mksys(T, off, t0)); MC_CHECK(I.second == t0 + h, mc::fmt("tree-step:", nm), "step ", I.second - I.first, " expected ", h); mc::transition();
    for (double th : {0.125, 0.5, 0.75, 0.9, 1.0, 0.0}) { X x(T.n()); d.calc_state(t0 + th * h, x); for (size_t i = 0; i < T.n(); i++) { if (T.time[i]) continue; double ex = off[i] + std::pow(th * h, T.size[i]) / T.gamma(i); MC_CHECK(std::fabs(x[i] - ex) <= 2e-12 * (2 + std::pow(std::fabs(h), double(T.n()))), mc::fmt("continuous-order:", nm), "component ", i, " at theta ", th, " is ", x[i], ", exact ", ex); mc::outcome(mc::hash_double(x[i])); } }
    mc::state(std::hash<std::string>()(mc::E().ctx));
}
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B;
    B.push_back({"env.simple", [] { env_body<ode::dense_output_runge_kutta<EnvSimple>, state>("dense_output_runge_kutta(stepper)", EnvSys(), false); }});
    B.push_back({"env.fsal", [] { env_body<ode::dense_output_runge_kutta<EnvCtl>, state>("dense_output_runge_kutta(controlled fsal)", EnvSys(), true); }});
    B.push_back({"env.rosenbrock", [] { env_body<ode::rosenbrock4_dense_output<EnvRosCtl>, uvec>("rosenbrock4_dense_output", 0, true); }});
#define R(nm, a) B.push_back({"real." nm, [] { real_body<a<void>>(nm); }});
    R("dense_dopri5", A_dopri5) R("made_dopri5", A_made) R("dense_euler", A_euler) R("rosenbrock4_dense", A_ros) R("bulirsch_stoer_dense", A_bs) R("bulirsch_stoer_dense_controlled", A_bsc)
    auto ts = [](const trees::Tree& T, const state& off, double t0) { return TSys{&T, &off, t0}; }; auto tr = [](const trees::Tree& T, const state& off, double t0) { return std::make_pair(TSys{&T, &off, t0}, TJac{&T, &off, t0}); };
    B.push_back({"trees.dopri5", [=] { tree_body<A_dopri5<void>>("dense_dopri5", 4, ts); }}); B.push_back({"trees.euler", [=] { tree_body<A_euler<void>>("dense_euler", 1, ts); }}); B.push_back({"trees.rosenbrock4", [=] { tree_body<A_ros<void>>("rosenbrock4_dense", 3, tr); }});
    return mc::run_main(argc, argv, B);
}
