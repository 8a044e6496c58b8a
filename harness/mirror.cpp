// C26: backward integration mirrors forward integration, and shifting the start time of an autonomous system changes
// nothing. Every arithmetic operation commutes exactly with negating times and steps, so the mirrored run is compared
// exactly; shifted runs exactly where all times are dyadic, and within rounding otherwise.
#include "mc.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
namespace ode = boost::numeric::odeint;
typedef std::vector<double> vec; typedef boost::numeric::ublas::vector<double> uvec; typedef boost::numeric::ublas::matrix<double> umat;
static bool thorough() { return mc::E().tier == "thorough"; }

struct TooMany {};      // the problem escapes to infinity: the run is cut after this many evaluations, the mirrored one at the same place
// ---- problems: 0 oscillator with drift, 1 cubic (autonomous), 2 mildly stiff, pulsed forcing, 3 fast/slow (autonomous)
struct F {
    int p; double s; long *calls;
    template <class X, class D> void rhs(const X &x, D &d, double t) const {
        switch (p) {
            case 0: d[0] = x[1] + 0.25 * t; d[1] = -4 * x[0] + 0.5 * x[0] * x[0] - 0.125 * t * t; break;
            case 1: d[0] = x[1]; d[1] = -x[0] - 0.5 * x[0] * x[0] * x[0] + 0.125 * x[1]; break;
            case 2: d[0] = -12 * (x[0] - x[1]) + 3 / (1 + 40 * (t - 0.6) * (t - 0.6)); d[1] = -x[1] * x[0]; break;
            default: d[0] = -20 * x[0] + 2 * x[1] * x[1]; d[1] = 0.5 - x[1] * x[0] * x[0]; break;
        }
        d[0] *= s; d[1] *= s;
    }
    template <class X, class D> void operator()(const X &x, D &d, double t) const { if (calls && ++*calls > 60000) throw TooMany(); rhs(x, d, s * t); }
};
struct J {
    int p; double s;
    template <class X, class M, class D> void operator()(const X &x, M &m, double tt, D &ft) const {
        fill(x, m, s * tt); double t = s * tt; m *= s; ft[0] = ft[1] = 0;     // d/dt of s f(x, s t) is f_t
        if (p == 0) { ft[0] = 0.25; ft[1] = -0.25 * t; } if (p == 2) { double q = 1 + 40 * (t - 0.6) * (t - 0.6); ft[0] = -3 * 80 * (t - 0.6) / (q * q); }
    }
    template <class X, class M> void operator()(const X &x, M &m, double tt) const { fill(x, m, s * tt); m *= s; }
    template <class X, class M> void fill(const X &x, M &m, double) const {
        switch (p) {
            case 0: m(0, 0) = 0; m(0, 1) = 1; m(1, 0) = -4 + x[0]; m(1, 1) = 0; break;
            case 1: m(0, 0) = 0; m(0, 1) = 1; m(1, 0) = -1 - 1.5 * x[0] * x[0]; m(1, 1) = 0.125; break;
            case 2: m(0, 0) = -12; m(0, 1) = 12; m(1, 0) = -x[1]; m(1, 1) = -x[0]; break;
            default: m(0, 0) = -20; m(0, 1) = 4 * x[1]; m(1, 0) = -2 * x[1] * x[0]; m(1, 1) = -x[0] * x[0]; break;
        }
    }
};
static bool autonomous(int p) { return p == 1 || p == 3; }
struct Fq { int p; double s; void operator()(const vec &x, vec &d) const { d[0] = s * (x[0] + (p ? 0.5 : 0.25) * x[1]); d[1] = s * (2 * x[1]); } };            // dq/dt as a function of p
struct Fp { int p; double s; void operator()(const vec &x, vec &d) const { d[0] = -s * (x[0] + 0.25 * x[1] * x[1]); d[1] = -s * (3 * x[1] + 0.5 * x[0] * x[1]); } };
struct Acc { int p; double s; void operator()(const vec &x, const vec &v, vec &a, double t) const { t *= s; a[0] = -x[0] + 0.125 * s * v[1] + (p ? 0 : 0.25 * t); a[1] = -2 * x[1] * x[0] - 0.25 * s * v[0]; } };
template <class St> struct Sym {};
// how a stepper gets its problem and its state
struct Plain { typedef vec state; typedef F sys; static sys make(int p, double s, long *c) { F f = {p, s, c}; return f; } static state init(double) { vec x = {0.75, -0.5}; return x; } static vec view(const state &x, double) { return x; } };
struct Implicit { typedef uvec state; typedef std::pair<F, J> sys; static sys make(int p, double s, long *c) { F f = {p, s, c}; J j = {p, s}; return sys(f, j); } static state init(double) { uvec x(2); x[0] = 0.75; x[1] = -0.5; return x; } static vec view(const state &x, double) { return vec(x.begin(), x.end()); } };
struct Symp { typedef std::pair<vec, vec> state; typedef std::pair<Fq, Fp> sys; static sys make(int p, double s, long *) { Fq a = {p, s}; Fp b = {p, s}; return sys(a, b); } static state init(double) { return state(vec{0.75, -0.5}, vec{0.25, 1}); } static vec view(const state &x, double) { vec v = x.first; v.insert(v.end(), x.second.begin(), x.second.end()); return v; } };
struct Verlet { typedef std::pair<vec, vec> state; typedef Acc sys; static sys make(int p, double s, long *) { Acc a = {p, s}; return a; } static state init(double s) { return state(vec{0.75, -0.5}, vec{0.25 * s, 1 * s}); } static vec view(const state &x, double s) { vec v = x.first; for (auto q : x.second) v.push_back(q * s); return v; } };

// ---- runs --------------------------------------------------------------------------------------------------
struct Obs { vec x; double t; };
struct Run { std::vector<Obs> o; std::string what; double ret = 0; vec end; long calls = 0; };
struct Cfg { int fn, p; double t0, dt, len; int nt; double s, shift; std::vector<double> times; };
static const char *FN[] = {"integrate_const", "integrate_n_steps", "integrate_adaptive", "integrate_times", "const_step_iterator", "n_step_iterator", "times_iterator", "adaptive_iterator"};

template <class P> struct Watch { Run *r; double s; void operator()(const typename P::state &x, double t) const { if (r->o.size() > 20000) throw TooMany(); Obs q = {P::view(x, s), t}; r->o.push_back(q); } };
template <class R, class P> void walk(R range, Run &r, double s, P) { for (; range.first != range.second; ++range.first) { auto e = *range.first; Obs q = {P::view(e.first, s), e.second}; r.o.push_back(q); if (r.o.size() > 20000) throw TooMany(); } }
template <int C> struct Iter;   // which iterators a stepper category supports
template <> struct Iter<0> { template <class S, class P> static void go(S st, const Cfg &c, typename P::state &x, typename P::sys sys, Run &r, const vec &ts, P p) {
    double a = c.s * c.t0 + c.shift, d = c.s * c.dt; 
    if (c.fn == 4) walk(ode::make_const_step_time_range(st, sys, x, a, c.s * (c.t0 + c.len) + c.shift, d), r, c.s, p); else if (c.fn == 5) walk(ode::make_n_step_time_range(st, sys, x, a, d, c.nt), r, c.s, p);
    else if (c.fn == 6) walk(ode::make_times_time_range(st, sys, x, ts.begin(), ts.end(), d), r, c.s, p); else throw mc::Skip(); } };
template <> struct Iter<1> { template <class S, class P> static void go(S st, const Cfg &c, typename P::state &x, typename P::sys sys, Run &r, const vec &ts, P p) {
    double a = c.s * c.t0 + c.shift, d = c.s * c.dt;
    if (c.fn == 6) walk(ode::make_times_time_range(st, sys, x, ts.begin(), ts.end(), d), r, c.s, p); else if (c.fn == 7) walk(ode::make_adaptive_time_range(st, sys, x, a, c.s * (c.t0 + c.len) + c.shift, d), r, c.s, p); else throw mc::Skip(); } };
template <> struct Iter<2> { template <class S, class P> static void go(S st, const Cfg &c, typename P::state &x, typename P::sys sys, Run &r, const vec &ts, P p) {
    double a = c.s * c.t0 + c.shift, e = c.s * (c.t0 + c.len) + c.shift, d = c.s * c.dt;
    if (c.fn == 4) walk(ode::make_const_step_time_range(st, sys, x, a, e, d), r, c.s, p); else if (c.fn == 5) walk(ode::make_n_step_time_range(st, sys, x, a, d, c.nt), r, c.s, p);
    else if (c.fn == 6) walk(ode::make_times_time_range(st, sys, x, ts.begin(), ts.end(), d), r, c.s, p); else walk(ode::make_adaptive_time_range(st, sys, x, a, e, d), r, c.s, p); } };
template <> struct Iter<3> { template <class S, class P> static void go(S, const Cfg &, typename P::state &, typename P::sys, Run &, const vec &, P) { throw mc::Skip(); } };
// s = 1: forward from t0 + shift; s = -1: the mirrored problem
template <class P, int IC, class Mk> Run run(Mk mk, Cfg c, double s, double shift) {
    Run r; c.s = s; c.shift = shift; long calls = 0; typename P::state x = P::init(s); Watch<P> w = {&r, s}; double a = s * c.t0 + shift, e = s * (c.t0 + c.len) + shift, d = s * c.dt; vec ts; for (double t : c.times) ts.push_back(s * t + shift);
    typename P::sys sys = P::make(c.p, s, &calls); auto st = mk(s, c);
    try {
        switch (c.fn) {
            case 0: r.ret = (double)ode::integrate_const(st, sys, x, a, e, d, w); break;
            case 1: r.ret = s * (ode::integrate_n_steps(st, sys, x, a, d, c.nt, w) - shift); break;
            case 2: r.ret = (double)ode::integrate_adaptive(st, sys, x, a, e, d, w); break;
            case 3: r.ret = (double)ode::integrate_times(st, sys, x, ts.begin(), ts.end(), d, w); break;
            default: Iter<IC>::go(st, c, x, sys, r, ts, P());
        }
    } catch (const ode::no_progress_error &) { r.what = "no progress"; } catch (const ode::step_adjustment_error &) { r.what = "step adjustment"; } catch (const TooMany &) { r.what = "too many observations"; } catch (const std::overflow_error &) { r.what = "overflow"; }
    r.end = P::view(x, s); r.calls = calls; return r;
}
static std::string name(const char *nm, const Cfg &c) { return mc::fmt(nm, " ", FN[c.fn], " problem ", c.p, " t0 ", c.t0, " dt ", c.dt, " length ", c.len); }
static bool same(const vec &a, const vec &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
static void compare(const char *nm, const char *how, const Cfg &c, const Run &f, const Run &m, double s, double shift, double tol) {
    std::string k = mc::fmt(":", how, ":", nm, "/", FN[c.fn]), n = name(nm, c);
    auto eqt = [&](double a, double b) { return tol == 0 ? s * a + shift == b : std::fabs(s * a + shift - b) <= 1e-9; };
    auto eqx = [&](const vec &a, const vec &b) { if (tol == 0) return same(a, b); for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(a[i])))) return false; return true; };
    MC_CHECK(f.what == m.what, "exception" + k, n, ": the run ends with '", f.what, "', ", how, " with '", m.what, "'");
    size_t q = std::min(f.o.size(), m.o.size());
    for (size_t i = 0; i < q; i++) {
        MC_CHECK(eqt(f.o[i].t, m.o[i].t), "time" + k, n, ": observation ", i, " is at ", f.o[i].t, ", ", how, " at ", m.o[i].t);
        MC_CHECK(eqx(f.o[i].x, m.o[i].x), "state" + k, n, ": observation ", i, " at ", f.o[i].t, " is ", mc::show(f.o[i].x), ", ", how, " ", mc::show(m.o[i].x));
    }
    MC_CHECK(f.o.size() == m.o.size(), "count" + k, n, ": ", f.o.size(), " observations, ", how, " ", m.o.size());
    MC_CHECK(f.ret == m.ret || (c.fn == 1 && std::fabs(f.ret - m.ret) <= 1e-9 && tol > 0), "returned" + k, n, ": returns ", f.ret, ", ", how, " ", m.ret);
    MC_CHECK(eqx(f.end, m.end), "end-state" + k, n, ": ends in ", mc::show(f.end), ", ", how, " ", mc::show(m.end));
    if (tol == 0) MC_CHECK(f.calls == m.calls, "calls" + k, n, ": ", f.calls, " system calls, ", how, " ", m.calls);
}
static Cfg config(bool dyadic) {
    Cfg c; c.fn = mc::choose(8); mc::shard_point(); c.p = mc::choose(4); c.s = 1; c.shift = 0;
    static const vec t0d = {0, -1.5, 1, -4.25}, t0o = {0, 0.3, -0.7, -8.1}, dd = {0.125, 0.0625, 0.5, 1.5}, od = {0.1, 0.03, 0.7, 1.3}, ld = {1, 1.125, 0.03125, 3}, lo = {1, 0.7, 0.01, 2.3};
    int n = thorough() ? 4 : 3; c.t0 = (dyadic ? t0d : t0o)[mc::choose(thorough() ? 4 : 3)]; c.dt = (dyadic ? dd : od)[mc::choose(n)]; c.len = (dyadic ? ld : lo)[mc::choose(n)]; c.nt = c.len > 1 ? 7 : c.len < 0.1 ? 0 : 4;
    double g = c.len / 4; int m = mc::choose(2); for (int i = 0; i <= (m ? 3 : 5); i++) c.times.push_back(c.t0 + (m ? i * i * g / 2 : i * g));
    if (m && c.fn != 3 && c.fn != 6) throw mc::Skip();
    return c;
}
template <class P, int IC, class Mk> void mirrored(const char *nm, Mk mk) {
    bool dy = mc::choose(2); Cfg c = config(dy); mc::ctx(name(nm, c)); Run f = run<P, IC>(mk, c, 1, 0), m = run<P, IC>(mk, c, -1, 0);
    { std::vector<double> neg; } compare(nm, "mirrored", c, f, m, -1, 0, 0); mc::transition(); mc::outcome(mc::mix(f.o.size(), mc::hash_double(f.end.empty() ? 0 : f.end[0])));
    // the whole grid the other way round: the forward run of a backward configuration
}
template <class P, int IC, class Mk> void shifted(const char *nm, bool exact, Mk mk) {
    Cfg c = config(true); if (!autonomous(c.p)) throw mc::Skip(); static const vec sh = {1, -4, 1024, -0.5, 65536}; double d = sh[mc::choose(thorough() ? 5 : 3)]; int back = mc::choose(2); double s = back ? -1 : 1;
    mc::ctx(name(nm, c) + mc::fmt(" shift ", d)); Run f = run<P, IC>(mk, c, s, 0), m = run<P, IC>(mk, c, s, d);
    compare(nm, "shifted", c, f, m, 1, d, exact ? 0 : 1e-7); mc::transition(); mc::outcome(mc::mix(f.o.size(), mc::hash_double(f.end.empty() ? 0 : f.end[0])));
}
// ---- single trials of controlled and dense steppers ---------------------------------------------------------------
template <class P, class Mk> void trials(const char *nm, Mk mk) {
    Cfg c; c.p = mc::choose(4); c.t0 = mc::choose(2) ? 0.3 : -0.5; static const vec h = {0.01, 0.1, 0.3, 1, 4, 30}; c.dt = h[mc::choose(6)]; c.len = mc::choose(3); c.fn = 0; c.s = 1; c.shift = 0; mc::shard_point(); mc::ctx(mc::fmt(nm, " problem ", c.p, " t0 ", c.t0, " dt ", c.dt, " limit ", c.len));
    long cf = 0, cm = 0; auto sf = mk(1, c); auto sm = mk(-1, c); typename P::sys F_ = P::make(c.p, 1, &cf), M_ = P::make(c.p, -1, &cm); typename P::state x = P::init(1), y = P::init(-1); double t = c.t0, u = -c.t0, d = c.dt, e = -c.dt; std::string k = mc::fmt(":trial:", nm); int acc = 0;
    for (int i = 0; i < (thorough() ? 30 : 15); i++) {
        if (mc::deviate(2)) { double q = mc::choose(2) ? 4 : 0.0625; d *= q; e *= q; }       // the caller changes the step size
        int a = sf.try_step(F_, x, t, d), b = sm.try_step(M_, y, u, e); mc::transition(); acc += a == 0;
        MC_CHECK(a == b, "decision" + k, "trial ", i, ": ", a, " forward and ", b, " backward (0 accepted)");
        MC_CHECK(t == -u, "time" + k, "after trial ", i, " the time is ", t, " forward and ", u, " backward"); MC_CHECK(d == -e, "dt" + k, "after trial ", i, " the step size is ", d, " forward and ", e, " backward");
        MC_CHECK(same(P::view(x, 1), P::view(y, -1)), "state" + k, "after trial ", i, " the state is ", mc::show(P::view(x, 1)), " forward and ", mc::show(P::view(y, -1)), " backward");
    }
    MC_CHECK(cf == cm, "calls" + k, cf, " system calls forward and ", cm, " backward"); mc::outcome(mc::mix(acc, mc::hash_double(d)));
}
template <class P, class Mk> void dense_steps(const char *nm, Mk mk) {
    Cfg c; c.p = mc::choose(4); c.t0 = mc::choose(2) ? 0.3 : -0.5; static const vec h = {0.01, 0.1, 0.3, 1, 4}; c.dt = h[mc::choose(5)]; c.len = mc::choose(3); c.fn = 0; c.s = 1; c.shift = 0; mc::shard_point(); mc::ctx(mc::fmt(nm, " problem ", c.p, " t0 ", c.t0, " dt ", c.dt, " limit ", c.len));
    long cf = 0, cm = 0; auto sf = mk(1, c); auto sm = mk(-1, c); typename P::sys F_ = P::make(c.p, 1, &cf), M_ = P::make(c.p, -1, &cm); typename P::state x = P::init(1), y = P::init(-1); std::string k = mc::fmt(":dense:", nm);
    sf.initialize(x, c.t0, c.dt); sm.initialize(y, -c.t0, -c.dt);
    for (int i = 0; i < 8; i++) {
        std::pair<double, double> a = sf.do_step(F_), b = sm.do_step(M_); mc::transition();
        MC_CHECK(a.first == -b.first && a.second == -b.second, "interval" + k, "step ", i, " covers [", a.first, ",", a.second, "] forward and [", b.first, ",", b.second, "] backward");
        MC_CHECK(sf.current_time_step() == -sm.current_time_step() && sf.previous_time() == -sm.previous_time() && sf.current_time() == -sm.current_time(), "dt" + k, "after step ", i, " the next step size is ", sf.current_time_step(), " forward and ", sm.current_time_step(), " backward");
        MC_CHECK(same(P::view(sf.current_state(), 1), P::view(sm.current_state(), -1)), "state" + k, "after step ", i, " the states differ"); 
        for (int q = 0; q <= 4; q++) { double t = a.first + (a.second - a.first) * q / 4; sf.calc_state(t, x); sm.calc_state(-t, y); MC_CHECK(same(P::view(x, 1), P::view(y, -1)), "dense" + k, "state at ", t, " in step ", i, " is ", mc::show(P::view(x, 1)), " forward and ", mc::show(P::view(y, -1)), " backward"); }
        if (mc::deviate(2)) { x = sf.current_state(); y = sm.current_state(); double t = sf.current_time(), d = sf.current_time_step() * 4; sf.initialize(x, t, d); sm.initialize(y, -t, -d); }
    }
    MC_CHECK(cf == cm, "calls" + k, cf, " system calls forward and ", cm, " backward"); mc::outcome(mc::hash_double(sf.current_time()));
}
// ---- scripted steppers: every sequence of accept / grow / reject / shrink answers --------------------------------------
struct Script { std::vector<int> a; size_t k = 0; double h0 = 1; int next(double dt) { int q = k < a.size() ? a[k++] : 0; if (q == 2 && std::fabs(dt) <= h0 / 64) q = 0; if (q == 1 && std::fabs(dt) >= 8 * h0) q = 0; return q; } };
struct scripted {   // 0 accept, 1 accept and double, 2 reject and halve, 3 accept and halve
    typedef vec state_type; typedef vec deriv_type; typedef double value_type; typedef double time_type; typedef unsigned short order_type; typedef ode::controlled_stepper_tag stepper_category; Script s;
    template <class Sys> ode::controlled_step_result try_step(Sys sys, vec &x, double &t, double &dt) {
        int a = s.next(dt); if (a == 2) { dt *= 0.5; return ode::fail; } vec d(2); sys(x, d, t); for (int i = 0; i < 2; i++) x[i] += dt * d[i]; t += dt; if (a == 1) dt *= 2; if (a == 3 && std::fabs(dt) > s.h0 / 64) dt *= 0.5; return ode::success; }
};
struct scripted_dense {
    typedef vec state_type; typedef vec deriv_type; typedef double value_type; typedef double time_type; typedef unsigned short order_type; typedef ode::dense_output_stepper_tag stepper_category; Script s; vec x, xo; double t = 0, to = 0, dt = 0;
    template <class X> void initialize(const X &x0, double t0, double d) { x = x0; t = t0; dt = d; to = t0; xo = x; if (s.k++ > 5000) throw TooMany(); --s.k; ++inits; if (inits > 5000) throw TooMany(); } int inits = 0;
    template <class Sys> std::pair<double, double> do_step(Sys sys) { int a = s.next(dt); if (a == 2) dt *= 0.5; vec d(2); sys(x, d, t); xo = x; to = t; for (int i = 0; i < 2; i++) x[i] += dt * d[i]; t += dt; if (a == 1) dt *= 2; if (a == 3 && std::fabs(dt) > s.h0 / 64) dt *= 0.5; return {to, t}; }
    template <class X> void calc_state(double q, X &y) const { y.resize(2); for (int i = 0; i < 2; i++) y[i] = xo[i] + (x[i] - xo[i]) * ((q - to) / (t - to)); }
    const vec &current_state() const { return x; } double current_time() const { return t; } const vec &previous_state() const { return xo; } double previous_time() const { return to; } double current_time_step() const { return dt; }
};
struct Unit { int p; double s; long *calls; template <class X> void operator()(const X &, X &d, double) const { if (calls) ++*calls; d[0] = s; d[1] = -2 * s; } };   // states and times stay dyadic
struct PlainUnit { typedef vec state; typedef Unit sys; static sys make(int p, double s, long *c) { Unit f = {p, s, c}; return f; } static state init(double) { vec x = {0.75, -0.5}; return x; } static vec view(const state &x, double) { return x; } };
template <class S, int IC> void script_run(const char *nm) {
    Script sc; int n = thorough() ? 6 : 5; Cfg c; c.fn = mc::choose(8); if (c.fn == 4 || c.fn == 5) if (IC == 1) throw mc::Skip(); mc::shard_point(); for (int i = 0; i < n; i++) sc.a.push_back(mc::choose(4)); c.p = 1; c.s = 1; c.shift = 0;
    static const vec t0 = {0, -1.5, 3}, dt = {0.25, 1}, len = {1, 2.125, 0.0625}; c.t0 = t0[mc::choose(3)]; c.dt = dt[mc::choose(2)]; c.len = len[mc::choose(3)]; c.nt = 3; for (int i = 0; i < 4; i++) c.times.push_back(c.t0 + i * i * c.len / 8);
    sc.h0 = c.dt; auto mk = [sc](double, const Cfg &) { S s; s.s = sc; return s; }; mc::ctx(name(nm, c) + " script " + mc::show(sc.a)); Run f = run<PlainUnit, IC>(mk, c, 1, 0), m = run<PlainUnit, IC>(mk, c, -1, 0);
    compare(nm, "mirrored", c, f, m, -1, 0, 0); static const vec sh = {5, -0.25, -1024}; for (double d : sh) { Run a = run<PlainUnit, IC>(mk, c, 1, d); compare(nm, "shifted", c, f, a, 1, d, 0); Run b = run<PlainUnit, IC>(mk, c, -1, d); compare(nm, "mirrored-and-shifted", c, f, b, -1, d, 0); }
    mc::transition(); mc::outcome(mc::mix(f.o.size(), mc::hash_double(f.end[0])));
}
// max_dt: limit 0 none, 1 small, 2 large; signed with the direction
static double lim(double s, const Cfg &c) { return c.len == 1 ? s * 0.125 : s * 2.5; }
template <class T> T fresh(double, const Cfg &) { return T(); }
typedef std::vector<std::pair<std::string, mc::Body>> Bodies;
template <class St, class P> void add_plain(Bodies &b, const char *nm, bool deg = false) {
    b.push_back({std::string("mirror.") + nm, [nm] { mirrored<P, 0>(nm, fresh<St>); }}); b.push_back({std::string("shift.") + nm, [nm] { shifted<P, 0>(nm, true, fresh<St>); }});
}
template <class P, int IC, class Mk> void add_ctrl(Bodies &b, const char *nm, Mk mk, bool shift = true) {
    b.push_back({std::string("mirror.") + nm, [nm, mk] { mirrored<P, IC>(nm, [mk](double s, const Cfg &) { Cfg c; c.len = 0; return mk(s, c); }); }}); b.push_back({std::string("mirror.limited.") + nm, [nm, mk] { mirrored<P, IC>(nm, [mk](double s, const Cfg &) { Cfg c; c.len = 1; return mk(s, c); }); }});
    if (shift) b.push_back({std::string("shift.") + nm, [nm, mk] { shifted<P, IC>(nm, false, [mk](double s, const Cfg &) { Cfg c; c.len = 0; return mk(s, c); }); }});
}
template <class St, class P, int IC> void add_rk(Bodies &b, const char *nm) {
    auto mk = [](double s, const Cfg &c) { return c.len == 0 ? ode::make_controlled(1e-5, 1e-5, St()) : ode::make_controlled(1e-5, 1e-5, lim(s, c), St()); };
    add_ctrl<P, IC>(b, nm, mk); b.push_back({std::string("trials.") + nm, [nm, mk] { trials<P>(nm, mk); }});
}
int main(int argc, char **argv) {
    Bodies b;
#if GROUP == 1
    add_plain<ode::euler<vec>, Plain>(b, "euler"); add_plain<ode::modified_midpoint<vec>, Plain>(b, "modified_midpoint"); add_plain<ode::runge_kutta4<vec>, Plain>(b, "runge_kutta4"); add_plain<ode::runge_kutta4_classic<vec>, Plain>(b, "runge_kutta4_classic");
    add_plain<ode::runge_kutta_cash_karp54<vec>, Plain>(b, "cash_karp54"); add_plain<ode::runge_kutta_cash_karp54_classic<vec>, Plain>(b, "cash_karp54_classic"); add_plain<ode::runge_kutta_dopri5<vec>, Plain>(b, "dopri5"); add_plain<ode::runge_kutta_fehlberg78<vec>, Plain>(b, "fehlberg78");
    add_plain<ode::extrapolation_stepper<6, vec>, Plain>(b, "extrapolation6");
#elif GROUP == 2
    add_plain<ode::adams_bashforth<1, vec>, Plain>(b, "adams_bashforth1"); add_plain<ode::adams_bashforth<5, vec>, Plain>(b, "adams_bashforth5"); add_plain<ode::adams_bashforth_moulton<3, vec>, Plain>(b, "abm3"); add_plain<ode::adams_bashforth_moulton<8, vec>, Plain>(b, "abm8"); add_plain<ode::adaptive_adams_bashforth_moulton<4, vec>, Plain>(b, "adaptive_abm4");
    add_plain<ode::implicit_euler<double>, Implicit>(b, "implicit_euler"); add_plain<ode::rosenbrock4<double>, Implicit>(b, "rosenbrock4");
    add_plain<ode::symplectic_euler<vec>, Symp>(b, "symplectic_euler"); add_plain<ode::symplectic_rkn_sb3a_mclachlan<vec>, Symp>(b, "symplectic_rkn_sb3a_mclachlan"); add_plain<ode::symplectic_rkn_sb3a_m4_mclachlan<vec>, Symp>(b, "symplectic_rkn_sb3a_m4_mclachlan"); add_plain<ode::velocity_verlet<vec>, Verlet>(b, "velocity_verlet");
#elif GROUP == 3
    add_rk<ode::runge_kutta_cash_karp54<vec>, Plain, 1>(b, "controlled.cash_karp54"); add_rk<ode::runge_kutta_dopri5<vec>, Plain, 1>(b, "controlled.dopri5"); add_rk<ode::runge_kutta_fehlberg78<vec>, Plain, 1>(b, "controlled.fehlberg78"); add_rk<ode::rosenbrock4<double>, Implicit, 1>(b, "controlled.rosenbrock4");
    auto bs = [](double s, const Cfg &c) { return c.len == 0 ? ode::bulirsch_stoer<vec>(1e-5, 1e-5) : ode::bulirsch_stoer<vec>(1e-5, 1e-5, 1, 1, lim(s, c)); };
    add_ctrl<Plain, 1>(b, "bulirsch_stoer", bs); b.push_back({"trials.bulirsch_stoer", [bs] { trials<Plain>("bulirsch_stoer", bs); }});
    auto cabm = [](double s, const Cfg &c) { typedef ode::adaptive_adams_bashforth_moulton<4, vec> E; typedef ode::controlled_adams_bashforth_moulton<E> C; typedef C::step_adjuster_type A; return c.len == 0 ? C(A(1e-5, 1e-5)) : C(A(1e-5, 1e-5, lim(s, c))); };
    add_ctrl<Plain, 1>(b, "controlled_abm4", cabm, false);   // its divided differences use differences of times, whose rounding grows with a shift
     b.push_back({"trials.controlled_abm4", [cabm] { trials<Plain>("controlled_abm4", cabm); }});
    b.push_back({"script.controlled", [] { script_run<scripted, 1>("scripted"); }});
#else
    auto dd = [](double s, const Cfg &c) { return c.len == 0 ? ode::make_dense_output(1e-5, 1e-5, ode::runge_kutta_dopri5<vec>()) : ode::make_dense_output(1e-5, 1e-5, lim(s, c), ode::runge_kutta_dopri5<vec>()); };
    add_ctrl<Plain, 2>(b, "dense.dopri5", dd); b.push_back({"steps.dopri5", [dd] { dense_steps<Plain>("dense.dopri5", dd); }});
    auto dr = [](double s, const Cfg &c) { return c.len == 0 ? ode::make_dense_output(1e-5, 1e-5, ode::rosenbrock4<double>()) : ode::make_dense_output(1e-5, 1e-5, lim(s, c), ode::rosenbrock4<double>()); };
    add_ctrl<Implicit, 2>(b, "dense.rosenbrock4", dr); b.push_back({"steps.rosenbrock4", [dr] { dense_steps<Implicit>("dense.rosenbrock4", dr); }});
    auto db = [](double s, const Cfg &c) { return c.len == 0 ? ode::bulirsch_stoer_dense_out<vec>(1e-5, 1e-5) : ode::bulirsch_stoer_dense_out<vec>(1e-5, 1e-5, 1, 1, lim(s, c)); };
    add_ctrl<Plain, 2>(b, "dense.bulirsch_stoer", db); b.push_back({"steps.bulirsch_stoer", [db] { dense_steps<Plain>("dense.bulirsch_stoer", db); }});
    auto de = [](double, const Cfg &) { return ode::dense_output_runge_kutta<ode::euler<vec>>(); };
    b.push_back({"mirror.dense.euler", [de] { mirrored<Plain, 2>("dense.euler", de); }}); b.push_back({"shift.dense.euler", [de] { shifted<Plain, 2>("dense.euler", true, de); }}); b.push_back({"steps.euler", [de] { dense_steps<Plain>("dense.euler", de); }});
    b.push_back({"script.dense", [] { script_run<scripted_dense, 2>("scripted_dense"); }});
#endif
    return mc::run_main(argc, argv, b);
}
