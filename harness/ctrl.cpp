// C07 / C08: step-size controlled steppers.
//  env : controlled_runge_kutta closed with error steppers whose error estimate is a choice of the explorer
//  real: the library's error steppers behind their controllers; histories of trial steps, next to a twin
//        that never makes the rejected trials and next to the underlying method
#include "mc.hpp"
#include <utility>
#include <boost/numeric/odeint/util/state_wrapper.hpp>
#include <boost/numeric/odeint/util/resizer.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
namespace ode = boost::numeric::odeint;
static bool thorough() { return mc::E().tier == "thorough"; }

// ---- environment error steppers ------------------------------------------------------------------
struct World { int so = 5, eo = 4; double val = 0; int who = 0; int steps = 0; long double t = 0, dt = 0; };
static World& W() { static World w; return w; }
struct Par { double eps_abs, eps_rel, a_x, a_dxdt; };
static Par& P() { static Par p; return p; }
template <class V> struct Estep {
    typedef std::vector<V> state_type; typedef V value_type; typedef state_type deriv_type; typedef V time_type; typedef ode::range_algebra algebra_type; typedef ode::default_operations operations_type;
    typedef ode::initially_resizer resizer_type; typedef ode::state_wrapper<state_type> wrapped_state_type; typedef ode::state_wrapper<deriv_type> wrapped_deriv_type; typedef unsigned short order_type;
    algebra_type alg; algebra_type& algebra() { return alg; }
    order_type order() const { return W().so; } order_type stepper_order() const { return W().so; } order_type error_order() const { return W().eo; }
    template <class S> void adjust_size(const S&) {}
    void estimate(const state_type& in, const deriv_type& dxdt, V t, V dt, state_type& out, state_type& err) {
        World& w = W(); mc::transition(); mc::tick(); w.steps++; w.t = t; w.dt = dt;
        MC_CHECK(out.size() == in.size() && err.size() == in.size(), "temporary-size", "a temporary has the wrong size");
        for (size_t i = 0; i < in.size(); i++) {
            out[i] = in[i] + dt * dxdt[i];
            V weight = V(P().eps_abs) + V(P().eps_rel) * (V(P().a_x) * std::abs(in[i]) + V(P().a_dxdt) * std::abs(dt) * std::abs(dxdt[i]));
            V share = int(i) == w.who % int(in.size()) ? V(w.val) : V(w.val) * V(0.25);   // the maximum sits at one component, with either sign
            err[i] = ((w.who / int(in.size())) % 2 ? -1 : 1) * share * weight;
        }
    }
};
template <class V> struct Plain : Estep<V> {
    typedef ode::explicit_error_stepper_tag stepper_category;
    template <class Sys, class I, class D, class O, class E> void do_step(Sys, const I& in, const D& dxdt, V t, O& out, V dt, E& err) { this->estimate(in, dxdt, t, dt, out, err); }
};
template <class V> struct Fsal : Estep<V> {
    typedef ode::explicit_error_stepper_fsal_tag stepper_category;
    template <class Sys, class I, class D, class O, class D2, class E> void do_step(Sys sys, const I& in, const D& dxdt, V t, O& out, D2& dout, V dt, E& err) { this->estimate(in, dxdt, t, dt, out, err); sys(out, dout, t + dt); }
};
template <class V> struct Rhs { void operator()(const std::vector<V>& x, std::vector<V>& d, V t) const { mc::tick(); d[0] = V(1) + V(0.5) * t; for (size_t i = 1; i < x.size(); i++) d[i] = V(-0.25) * x[i] + V(0.125); } };

struct Menu { std::vector<double> v; };
static const std::vector<double>& menu() { static const std::vector<double> a = {0.25, 1.0, 2.0, 0.0, 0.49, 0.5, 0.75, 1.0009765625, 64, 1e-9, 1e30, 1.25}; return a; }
// the documented law
template <class V> struct Law { bool ok; long double dt; };
template <class V> Law<V> law(long double val, V dt, int so, int eo, V max_dt) {
    Law<V> r; r.ok = val <= 1;
    if (!r.ok) r.dt = dt * std::max(0.9L * std::pow(val, -1.0L / (eo - 1)), 0.2L);
    else if (val < 0.5L) r.dt = dt * 0.9L * std::pow(std::max(val, std::pow(5.0L, -(long double)so)), -1.0L / so);
    else r.dt = dt;
    if (max_dt != 0 && std::fabs(r.dt) > std::fabs((long double)max_dt)) r.dt = max_dt;
    return r;
}
template <class V, class EST, bool FSAL, bool C8> void env_body() {
    static const int orders[][2] = {{5, 4}, {2, 2}, {8, 7}, {1, 3}}; static const Par pars[] = {{0.25, 0.5, 1, 1}, {0.125, 0, 1, 1}, {0, 0.5, 0.5, 2}, {0.5, 0.25, 0, 1}, {0.0625, 0.5, 2, 0}}; static const double maxs[] = {0, 0.5, 1.0, 4.0};
    int o = mc::choose(4), pk = mc::choose(C8 ? 5 : 2), mk = mc::choose(4), variant = mc::choose(5), n = 1 + mc::choose(2); double sg = mc::choose(2) ? -1 : 1; V dt0 = V(sg * (mc::choose(2) ? 1.0 : 0.75)); V t0 = mc::choose(2) ? V(-3.25) : V(0);
    mc::shard_point();
    P() = pars[pk]; W() = World(); W().so = orders[o][0]; W().eo = orders[o][1]; V max_dt = V(sg * maxs[mk]);
    std::string cls = mc::fmt(FSAL ? "fsal" : "plain", "/", sg > 0 ? "forward" : "backward"); 
    std::string cx = mc::fmt("controlled_runge_kutta ", cls, " orders ", W().so, ",", W().eo, " tolerances ", pk, " max_dt ", double(max_dt), " dt ", double(dt0), " t ", double(t0), " n ", n, " variant ", variant, " errors "); mc::ctx(cx);
    typedef ode::default_error_checker<V, ode::range_algebra, ode::default_operations> EC; typedef ode::default_step_adjuster<V, V> SA; typedef ode::controlled_runge_kutta<EST, EC, SA> C;
    C c(EC(V(P().eps_abs), V(P().eps_rel), V(P().a_x), V(P().a_dxdt)), SA(max_dt)); Rhs<V> f; typedef std::vector<V> state;
    state x(n), dxdt(n); x[0] = V(2); if (n > 1) x[1] = V(-1); V t = t0, dt = dt0; f(x, dxdt, t); int trials = thorough() ? 4 : (C8 ? 2 : 3);
    for (int k = 0; k < trials; k++) {
        // a tried step above the limit is refused without an evaluation
        W().who = mc::choose(k == 0 ? 2 * n : 1); if (k) W().who = (W().who + k) % (2 * n);
        int m = mc::choose(k == 0 || C8 ? 12 : 4); W().val = menu()[m]; cx += mc::fmt(W().val, " "); mc::ctx(cx);
        state x0(x), d0(dxdt); V told = t, dtold = dt; f(x0, d0, t); state dd(d0); int before = W().steps; state out(n, V(77)), dout(n, V(55)); ode::controlled_step_result r;
        switch (variant) {
            case 0: r = c.try_step(f, x, t, dt); break;
            case 1: { dxdt = d0; r = c.try_step(f, x, dxdt, t, dt); break; }
            case 2: r = c.try_step(f, x, t, out, dt); break;
            case 3: r = ([&](auto fs) { return c_full(c, f, x, dd, t, out, dout, dt, fs); })(std::integral_constant<bool, FSAL>()); break;
            default: r = c.try_step(std::ref(f), x, t, dt); break;
        }
        bool outp = variant == 2 || variant == 3, refused = max_dt != 0 && std::fabs(dtold) > std::fabs(max_dt);
        std::string kk = mc::fmt(":controlled_runge_kutta/", cls); mc::log("trial dt=", double(dtold), " error ", W().val, r == ode::success ? " accepted" : " rejected", " next dt=", double(dt));
        if (C8) {
            if (refused) { MC_CHECK(r == ode::fail && dt == max_dt, "max-dt" + kk, "a trial of size ", double(dtold), " above the limit ", double(max_dt), " gives result ", r, " and next step ", double(dt)); MC_CHECK(W().steps == before, "max-dt" + kk, "a refused trial evaluates a step"); }
            else {
                Law<V> L = law<V>((long double)V(W().val), dtold, W().so, W().eo, max_dt); 
                MC_CHECK((r == ode::success) == L.ok, "acceptance" + kk, "weighted error ", W().val, " is ", r == ode::success ? "accepted" : "rejected");
                MC_CHECK(std::fabs((long double)dt - L.dt) <= 64 * std::numeric_limits<V>::epsilon() * std::fabs(L.dt), "step-law" + kk, "weighted error ", W().val, " with step ", double(dtold), " proposes ", double(dt), ", the law gives ", double(L.dt));
                MC_CHECK(std::fabs(dt) <= 5.0L * std::fabs(dtold) * (1 + 1e-6L) && std::fabs(dt) >= std::fabs(dtold) / 5.0L * (1 - 1e-6L), "step-factor" + kk, "from ", double(dtold), " to ", double(dt));
                MC_CHECK(W().steps == before + 1, "evaluations" + kk, W().steps - before, " steps for one trial");
            }
            if (max_dt != 0) MC_CHECK(std::fabs(dt) <= std::fabs(max_dt), "max-dt" + kk, "proposes ", double(dt), " above the limit ", double(max_dt));
        }
        MC_CHECK(dt != 0 && (dt > 0) == (dtold > 0), "step-sign" + kk, "step size ", double(dtold), " became ", double(dt));
        if (r == ode::success) {
            MC_CHECK(t == told + dtold, "time-advance" + kk, "accepted step of ", double(dtold), " moves time from ", double(told), " to ", double(t));
            const state& res = outp ? out : x; for (int i = 0; i < n; i++) MC_CHECK(res[i] == x0[i] + dtold * d0[i], "accepted-state" + kk, "component ", i, " is ", double(res[i]), " expected ", double(x0[i] + dtold * d0[i]));
            if (outp) { MC_CHECK(x == x0, "input-modified" + kk, "out-of-place trial changed its input"); x = out; }
            if (FSAL && variant == 1) { state e(n); f(x, e, t); MC_CHECK(dxdt == e, "derivative" + kk, "returned derivative is not that of the new state"); }
            if (FSAL && variant == 3) { state e(n); f(x, e, t); MC_CHECK(dout == e, "derivative" + kk, "returned derivative is not that of the new state"); }
            MC_CHECK(W().t == told && W().dt == dtold, "tried-step" + kk, "the method was used at ", double(W().t), " with ", double(W().dt));
        } else {
            MC_CHECK(t == told && x == x0, "rejected-changes" + kk, "rejected trial changed time or state");
            MC_CHECK(std::fabs(dt) < std::fabs(dtold), "rejected-step-not-smaller" + kk, "rejected step ", double(dtold), " is followed by ", double(dt));
            if (variant == 1) MC_CHECK(dxdt == d0, "rejected-changes" + kk, "rejected trial changed the derivative"); if (variant == 3) MC_CHECK(dd == d0, "rejected-changes" + kk, "rejected trial changed the derivative passed in");
        }
        mc::state(mc::mix(mc::hash_double(dt), mc::mix(mc::hash_double(t), std::hash<std::string>()(cls) + k))); mc::outcome(mc::hash_double(dt));
    }
}
template <class C, class F, class S, class V> ode::controlled_step_result c_full(C& c, F f, S& x, S& dd, V& t, S& out, S& dout, V& dt, std::true_type) { return c.try_step(f, x, dd, t, out, dout, dt); }
template <class C, class F, class S, class V> ode::controlled_step_result c_full(C& c, F f, S& x, S& dd, V& t, S& out, S&, V& dt, std::false_type) { return c.try_step(f, x, dd, t, out, dt); }

// ---- real controllers ----------------------------------------------------------------------------
typedef std::vector<double> state; typedef boost::numeric::ublas::vector<double> uvec; typedef boost::numeric::ublas::matrix<double> umat;
struct Sys { template <class X> void operator()(const X& x, X& d, double t) const { mc::tick(); double w = 2 + 1.5 * std::sin(1.7 * t); d[0] = x[1] * w; d[1] = -x[0] * w + 0.1 * std::cos(3 * t); } };
struct Jac { template <class X> void operator()(const X& x, umat& J, double t, X& dfdt) const { double w = 2 + 1.5 * std::sin(1.7 * t), wt = 1.5 * 1.7 * std::cos(1.7 * t); J(0, 0) = 0; J(0, 1) = w; J(1, 0) = -w; J(1, 1) = 0; dfdt[0] = x[1] * wt; dfdt[1] = -x[0] * wt - 0.3 * std::sin(3 * t); } };
struct Tol { double abs, rel, max; };
// adaptors: trial step and, where there is one, an independent step of the underlying method with its error
template <class E, bool FS> struct RK {
    typedef ode::controlled_runge_kutta<E> C; C c; state x; static const bool law = true, exact = true, fsal = FS;
    RK(Tol T) : c(ode::default_error_checker<double, ode::range_algebra, ode::default_operations>(T.abs, T.rel), ode::default_step_adjuster<double, double>(T.max)), x(2) { x[0] = 1; x[1] = 0.25; }
    ode::controlled_step_result trial(double& t, double& dt) { return c.try_step(Sys(), x, t, dt); }
    static int so() { return E().stepper_order(); } static int eo() { return E().error_order(); }
    static void one(const state& in, double t, double dt, state& out, state& err, state& dxdt) { E e; out = in; err = in; dxdt = in; Sys()(in, dxdt, t); step(e, in, dxdt, t, dt, out, err, std::integral_constant<bool, FS>()); }
    static void step(E& e, const state& in, const state& d, double t, double dt, state& out, state& err, std::false_type) { e.do_step(Sys(), in, d, t, out, dt, err); }
    static void step(E& e, const state& in, const state& d, double t, double dt, state& out, state& err, std::true_type) { state dn(2); e.do_step(Sys(), in, d, t, out, dn, dt, err); }
    double X(int i) const { return x[i]; }
};
struct Ros { typedef ode::rosenbrock4<double> E; ode::rosenbrock4_controller<E> c; uvec x; static const bool law = false, exact = true;
    Ros(Tol T) : c(T.abs, T.rel, T.max), x(2) { x[0] = 1; x[1] = 0.25; }
    ode::controlled_step_result trial(double& t, double& dt) { return c.try_step(std::make_pair(Sys(), Jac()), x, t, dt); }
    static void one(const state& in, double t, double dt, state& out, state& err, state&) { E e; uvec a(2), b(2), r(2); a[0] = in[0]; a[1] = in[1]; e.do_step(std::make_pair(Sys(), Jac()), a, t, b, dt, r); out.resize(2); err.resize(2); for (int i = 0; i < 2; i++) { out[i] = b[i]; err[i] = r[i]; } }
    static int so() { return 0; } static int eo() { return 0; } double X(int i) const { return x[i]; } };
struct BS { ode::bulirsch_stoer<state> c; state x; static const bool law = false, exact = false; BS(Tol T) : c(T.abs, T.rel, 1, 1, T.max), x(2) { x[0] = 1; x[1] = 0.25; }
    ode::controlled_step_result trial(double& t, double& dt) { return c.try_step(Sys(), x, t, dt); } static void one(const state&, double, double, state&, state&, state&) {} static int so() { return 0; } static int eo() { return 0; } double X(int i) const { return x[i]; } };
struct ABM { typedef ode::adaptive_adams_bashforth_moulton<4, state> E; ode::controlled_adams_bashforth_moulton<E> c; state x; static const bool law = false, exact = false; ABM(Tol T) : c(typename ode::controlled_adams_bashforth_moulton<E>::step_adjuster_type(T.abs, T.rel, T.max == 0 ? 100 : T.max)), x(2) { x[0] = 1; x[1] = 0.25; }
    ode::controlled_step_result trial(double& t, double& dt) { return c.try_step(Sys(), x, t, dt); } static void one(const state&, double, double, state&, state&, state&) {} static int so() { return 0; } static int eo() { return 0; } double X(int i) const { return x[i]; } };
template <class A, bool C8> void real_body(const char* nm) {
    static const Tol tols[] = {{1e-4, 1e-3, 0}, {1e-8, 1e-7, 0}, {1e-3, 1e-2, 0.3}, {1e-6, 1e-6, 0.05}}; static const double sizes[] = {0.02, 0.2, 0.9, 4};
    int tk = mc::choose(4); double sg = mc::choose(2) ? -1 : 1; double t0 = mc::choose(2) ? -2.5 : 0; mc::shard_point(); Tol T = tols[tk]; T.max *= sg;
    std::string kk = mc::fmt(":", nm, "/", sg > 0 ? "forward" : "backward"), cx = mc::fmt(nm, " tolerance ", T.abs, ",", T.rel, " max_dt ", T.max, " t0 ", t0, " steps "); mc::ctx(cx);
    A a(T), tw(T); double t = t0, dt = sg * 0.2, tt = t0; bool after_reject = false; double err_old = 0, dt_old = 0; bool first = true, last_rej = false;
    int depth = thorough() ? 6 : 4;
    for (int k = 0; k < depth; k++) {
        int c = mc::choose(5); if (c) dt = sg * sizes[c - 1]; cx += mc::fmt(dt, " "); mc::ctx(cx);
        state x0 = {a.X(0), a.X(1)}; double told = t, dold = dt; ode::controlled_step_result r = a.trial(t, dt); mc::transition();
        mc::log("trial t=", told, " dt=", dold, r == ode::success ? " accepted" : " rejected", " next dt=", dt);
        bool refused = T.max != 0 && std::fabs(dold) > std::fabs(T.max) * (1 + 1e-14);
        MC_CHECK(dt != 0 && (dt > 0) == (sg > 0), "step-sign" + kk, "step size ", dold, " became ", dt);
        if (T.max != 0 && C8) { MC_CHECK(std::fabs(dt) <= std::fabs(T.max), "max-dt" + kk, "proposes ", dt, " above the limit ", T.max); if (refused && !std::is_same<A, ABM>::value) MC_CHECK(r == ode::fail && dt == T.max, "max-dt" + kk, "trial of ", dold, " above the limit ", T.max, ": result ", r, " next step ", dt); }
        state out, err, d; if (A::exact) A::one(x0, told, dold, out, err, d);
        if (r == ode::fail) {
            MC_CHECK(t == told && a.X(0) == x0[0] && a.X(1) == x0[1], "rejected-changes" + kk, "rejected trial changed time or state");
            MC_CHECK(std::fabs(dt) < std::fabs(dold), "rejected-step-not-smaller" + kk, "rejected step ", dold, " is followed by ", dt);
        } else {
            MC_CHECK(t == told + dold, "time-advance" + kk, "accepted step of ", dold, " moves time from ", told, " to ", t);
            if (A::exact) for (int i = 0; i < 2; i++) MC_CHECK(a.X(i) == out[i], "accepted-state" + kk, "component ", i, " is ", a.X(i), ", the underlying method gives ", out[i]);
            if (!C8 && A::exact) { double dd = dold; ode::controlled_step_result r2 = tw.trial(tt, dd); MC_CHECK(r2 == ode::success, "twin" + kk, "a stepper that never made the rejected trials rejects the step"); MC_CHECK(tt == t && tw.X(0) == a.X(0) && tw.X(1) == a.X(1), "rejected-leaves-trace" + kk, "state (", a.X(0), ",", a.X(1), "), a stepper that never made the rejected trials has (", tw.X(0), ",", tw.X(1), ")"); }
        }
        if (C8 && !refused && A::law) {
            long double v = 0; for (int i = 0; i < 2; i++) v = std::max(v, std::fabs((long double)err[i]) / ((long double)T.abs + (long double)T.rel * (std::fabs(x0[i]) + std::fabs((long double)dold) * std::fabs(d[i]))));
            if (std::fabs(v - 1) > 1e-9L && std::fabs(v - 0.5L) > 1e-9L) { Law<double> L = law<double>(v, dold, A::so(), A::eo(), T.max); MC_CHECK((r == ode::success) == L.ok, "acceptance" + kk, "weighted error ", double(v), " is ", r == ode::success ? "accepted" : "rejected"); MC_CHECK(std::fabs(dt - L.dt) <= 1e-9L * std::fabs(L.dt), "step-law" + kk, "weighted error ", double(v), " with step ", dold, " proposes ", dt, ", the law gives ", double(L.dt)); }
        }
        if (C8 && !refused && std::is_same<A, Ros>::value) {   // root mean square, predictive controller of Hairer & Wanner
            long double s = 0; for (int i = 0; i < 2; i++) { long double sk = T.abs + (long double)T.rel * std::max(std::fabs(x0[i]), std::fabs(out[i])); s += (long double)err[i] * err[i] / sk / sk; } long double v = std::sqrt(s / 2), fac = std::max(1 / 6.0L, std::min(5.0L, std::pow(v, 0.25L) / 0.9L)), dn = dold / fac;
            if (std::fabs(v - 1) > 1e-9L) { bool ok = v <= 1; MC_CHECK((r == ode::success) == ok, "acceptance" + kk, "error ", double(v), " is ", r == ode::success ? "accepted" : "rejected");
                if (ok) { if (!first) { long double fp = (long double)dt_old / dold * std::pow(v * v / err_old, 0.25L) / 0.9L; fp = std::max(1 / 6.0L, std::min(5.0L, fp)); dn = dold / std::max(fac, fp); } if (last_rej && std::fabs(dn) > std::fabs(dold)) dn = dold; if (T.max != 0 && std::fabs(dn) > std::fabs(T.max)) dn = T.max; first = false; dt_old = dold; err_old = std::max(0.01L, v); last_rej = false; } else last_rej = true;
                MC_CHECK(std::fabs(dt - dn) <= 1e-7L * std::fabs(dn), "step-law" + kk, "error ", double(v), " with step ", dold, " proposes ", dt, ", the law gives ", double(dn)); } else return;
        }
        after_reject = r == ode::fail; mc::outcome(mc::hash_double(dt)); mc::state(mc::mix(mc::hash_double(t), mc::mix(mc::hash_double(dt), mc::hash_double(a.X(0)))));
    }
    (void)after_reject;
}
// a trial that overflows: an estimate that is not a number is not an estimate below the tolerance
struct Power { int p; template <class X, class T> void operator()(const X& x, X& d, T) const { mc::tick(); double y = x[0]; d[0] = p == 0 ? -std::exp(y) : p == 5 ? -y * y * y * y * y : p == 3 ? -y * y * y : -y * y; } };
template <class S> static void overflow(const char* nm) {
    typedef std::vector<double> vec; static const int PS[] = {0, 2, 3, 5}; static const double DS[] = {1, 100, 1e100}; int p = PS[mc::choose(4)]; double d0 = DS[mc::choose(3)], dt = d0, t = 0; mc::shard_point(); std::string what = mc::fmt(nm, "/", p ? mc::fmt("x^", p) : std::string("exp"), "/dt=", d0); mc::ctx("x' = -x^p (or -exp x), x(0) = 1, tolerances 1e-6: " + what); vec x = {1};
    auto s = ode::make_controlled(1e-6, 1e-6, S()); ode::controlled_step_result r = ode::fail; int n = 0; for (; n < 400 && r == ode::fail; n++) { r = s.try_step(Power{p}, x, t, dt); mc::transition(); }
    MC_CHECK(std::isfinite(x[0]), "not-finite-accepted:" + what, "accepted a step of ", t, " to ", x[0]); MC_CHECK(r == ode::success, "stuck:" + what, "no step accepted in ", n, " trials, dt ", dt); mc::state(mc::mix(mc::hash_double(d0), p)); mc::outcome(mc::hash_double(x[0]));
}
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B;
#ifdef P08
    const bool C8 = true;
#else
    const bool C8 = false;
#endif
#define EB(V) B.push_back({"env.plain." #V, [] { env_body<V, Plain<V>, false, C8>(); }}); B.push_back({"env.fsal." #V, [] { env_body<V, Fsal<V>, true, C8>(); }});
    typedef long double longdouble; EB(double) EB(float) EB(longdouble)
#define RB(nm, ...) B.push_back({nm, [] { real_body<__VA_ARGS__, C8>(nm); }});
    RB("cash_karp54", RK<ode::runge_kutta_cash_karp54<state>, false>) RB("cash_karp54_classic", RK<ode::runge_kutta_cash_karp54_classic<state>, false>) RB("dopri5", RK<ode::runge_kutta_dopri5<state>, true>) RB("fehlberg78", RK<ode::runge_kutta_fehlberg78<state>, false>)
    RB("extrapolation4", RK<ode::extrapolation_stepper<4, state>, false>) RB("extrapolation6", RK<ode::extrapolation_stepper<6, state>, false>) RB("extrapolation8", RK<ode::extrapolation_stepper<8, state>, false>)
    RB("rosenbrock4_controller", Ros) RB("bulirsch_stoer", BS) RB("controlled_adams_bashforth_moulton", ABM)
#ifdef P08
    B.push_back({"overflow.cash_karp54", [] { overflow<ode::runge_kutta_cash_karp54<state>>("cash_karp54"); }}); B.push_back({"overflow.dopri5", [] { overflow<ode::runge_kutta_dopri5<state>>("dopri5"); }}); B.push_back({"overflow.fehlberg78", [] { overflow<ode::runge_kutta_fehlberg78<state>>("fehlberg78"); }});
#endif
    return mc::run_main(argc, argv, B);
}
