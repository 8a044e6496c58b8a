// C06: solution iterators and ranges against the integration functions, closed with environment
// steppers (whose accept/reject/step-size answers are explored) and with real steppers.
#include "mc.hpp"
#include <utility>
#include <functional>
#include <algorithm>
#include <numeric>
#include <list>
#include <deque>
#include <boost/ref.hpp>
#include <boost/range/algorithm/for_each.hpp>
#include <boost/range/numeric.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include "env.hpp"
namespace ode = boost::numeric::odeint;
using env::Obs; using env::W; using env::state;
static bool thorough() { return mc::E().tier == "thorough"; }

struct Cfg { int it, cat; bool time, ref; int api; double t0, dt, sgn, r; int n; std::vector<double> times; double end; };
static const char* ITS[] = {"const_step", "n_step", "times", "adaptive"}; static const char* CATS[] = {"plain", "controlled", "dense"};
static std::string name(const Cfg& c) { return mc::fmt(ITS[c.it], c.time ? "_time" : "", "/", CATS[c.cat], "/", c.sgn > 0 ? "forward" : "backward"); }
static std::string key(const Cfg& c, const char* k) { return mc::fmt(k, ":", name(c)); }

static const std::vector<std::pair<int, int>>& combos() { static const std::vector<std::pair<int, int>> v = {{0, 0}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}, {2, 2}, {3, 1}, {3, 2}}; return v; }
static Cfg config() {
    Cfg c; auto p = combos()[mc::choose(9)]; c.it = p.first; c.cat = p.second; c.time = mc::choose(2); c.api = mc::choose(4); c.ref = mc::choose(2); c.sgn = mc::choose(2) ? -1 : 1;
    static const std::vector<double> t0s = {0.0, -2.5, 1.0, 1048576.0}, dts = {1.0, 0.25, 0.1}, rs = {0, 0.5, 1, 1.5, 2, 3, 4.75, 7, -0.5, -2};
    c.t0 = t0s[mc::choose(thorough() ? 4 : 2)]; c.dt = c.sgn * dts[mc::choose(3)]; c.r = 0; c.n = 0;
    if (c.it == 2) { static const std::vector<double> gaps = {1.0, 0, 0.25, 2.5}; int np = mc::choose(thorough() ? 6 : 5); double t = c.t0; for (int i = 0; i < np; i++) { if (i) t += c.sgn * gaps[mc::choose(i <= 2 ? 4 : 2)]; c.times.push_back(t); } c.end = c.times.empty() ? c.t0 : c.times.back(); }
    else if (c.it == 1) { c.n = mc::choose(thorough() ? 8 : 5); c.end = c.t0 + c.n * c.dt; }
    else { c.r = rs[mc::choose(rs.size())]; c.end = c.t0 + c.r * c.dt; }
    return c;
}
static void world(const Cfg& c, std::vector<int>* script) { W() = env::World(); W().dir = c.sgn; W().h0 = c.dt; W().limit = c.end; W().check_limit = (c.it == 3 || c.it == 2 || c.cat == 0); W().variants = thorough() ? 6 : 5; W().script = script; }

// --- walking -----------------------------------------------------------------------------------
template <class S> const S& st_of(const S& s) { return s; }
template <class S, class T> const S& st_of(const std::pair<const S&, const T&>& p) { return p.first; }
template <class S> double t_of(const S&) { return std::nan(""); }
template <class S, class T> double t_of(const std::pair<const S&, const T&>& p) { return p.second; }
struct Seen { double t, x0, n; bool users; };
template <class V> Seen seen(const V& v, const state& x) { const state& s = st_of(v); mc::tick(); return Seen{t_of(v), s[0], s[1], &s == &x}; }
template <class It> void walk(const Cfg& c, It b, It e, const state& x, std::vector<Seen>& out) {
    MC_CHECK(e == e && !(e != e), key(c, "end-equality"), "the end iterator differs from itself");
    while (true) {
        bool eq = (b == e), ne = (b != e), eq2 = (e == b); MC_CHECK(eq != ne && eq == eq2, key(c, "equality"), "== and != disagree");
        if (eq) break;
        out.push_back(seen(*b, x)); const size_t k = out.size(); if (k > 3000) throw mc::Budget();
        mc::log("element t=", out.back().t, " state-time=", out.back().x0, " steps=", out.back().n);
        MC_CHECK(b == b, key(c, "equality"), "an iterator differs from itself");
        ++b;
    }
}
template <class It> void walk_range(const Cfg& c, std::pair<It, It> r, const state& x, std::vector<Seen>& out, bool algo) {
    if (!algo) { walk(c, r.first, r.second, x, out); return; }
    boost::for_each(r, [&](decltype(*r.first) v) { out.push_back(seen(v, x)); if (out.size() > 3000) throw mc::Budget(); });
}
template <class It> void walk_std(const Cfg& c, It b, It e, const state& x, std::vector<Seen>& out, bool algo) {
    if (!algo) { walk(c, b, e, x, out); return; }
    size_t n = std::accumulate(b, e, size_t(0), [&](size_t k, decltype(*b) v) { out.push_back(seen(v, x)); if (out.size() > 3000) throw mc::Budget(); return k + 1; });
    MC_CHECK(n == out.size(), key(c, "accumulate"), "accumulate counts ", n);
}
// api 0: explicit construction, 1: make_..._begin/_end, 2: range walked by hand, 3: range in an algorithm
// D picks the iterator family
#define FAMILY(NAME, TMPL, MK, ARGS) \
    struct NAME { template <class St, class Sys> static void go(const Cfg& c, St st, Sys sys, state& x, std::vector<Seen>& out) { \
        if (c.api == 0) { typedef ode::TMPL<St, Sys, state> I; I b(st, sys, x, ARGS), e(st, sys, x); walk_std(c, b, e, x, out, false); } \
        else if (c.api == 1) walk_std(c, ode::make_##MK##_iterator_begin(st, sys, x, ARGS), ode::make_##MK##_iterator_end(st, sys, x), x, out, true); \
        else walk_range(c, ode::make_##MK##_range(st, sys, x, ARGS), x, out, c.api == 3); } };
#define COMMA ,
FAMILY(ConstF, const_step_iterator, const_step, c.t0 COMMA c.end COMMA c.dt)
FAMILY(ConstTimeF, const_step_time_iterator, const_step_time, c.t0 COMMA c.end COMMA c.dt)
FAMILY(NF, n_step_iterator, n_step, c.t0 COMMA c.dt COMMA size_t(c.n))
FAMILY(NTimeF, n_step_time_iterator, n_step_time, c.t0 COMMA c.dt COMMA size_t(c.n))
FAMILY(AdF, adaptive_iterator, adaptive, c.t0 COMMA c.end COMMA c.dt)
FAMILY(AdTimeF, adaptive_time_iterator, adaptive_time, c.t0 COMMA c.end COMMA c.dt)
typedef std::vector<double>::const_iterator TI;
struct TimesF { template <class St, class Sys> static void go(const Cfg& c, St st, Sys sys, state& x, std::vector<Seen>& out) {
    TI a = c.times.begin(), b = c.times.end();
    if (c.api == 0) { typedef ode::times_iterator<St, Sys, state, TI> I; walk_std(c, I(st, sys, x, a, b, c.dt), I(st, sys, x), x, out, false); }
    else if (c.api == 1) walk_std(c, ode::make_times_iterator_begin(st, sys, x, a, b, c.dt), ode::make_times_iterator_end<TI>(st, sys, x), x, out, true);
    else if (c.api == 2) walk_range(c, ode::make_times_range(st, sys, x, a, b, c.dt), x, out, false);
    else { std::list<double> l(a, b); walk_range(c, ode::make_times_range(st, sys, x, l.begin(), l.end(), c.dt), x, out, true); } } };
struct TimesTimeF { template <class St, class Sys> static void go(const Cfg& c, St st, Sys sys, state& x, std::vector<Seen>& out) {
    TI a = c.times.begin(), b = c.times.end();
    if (c.api == 0) { typedef ode::times_time_iterator<St, Sys, state, TI> I; walk_std(c, I(st, sys, x, a, b, c.dt), I(st, sys, x), x, out, false); }
    else if (c.api == 1) walk_std(c, ode::make_times_time_iterator_begin(st, sys, x, a, b, c.dt), ode::make_times_time_iterator_end<TI>(st, sys, x), x, out, true);
    else if (c.api == 2) walk_range(c, ode::make_times_time_range(st, sys, x, a, b, c.dt), x, out, false);
    else { std::list<double> l(a, b); walk_range(c, ode::make_times_time_range(st, sys, x, l.begin(), l.end(), c.dt), x, out, true); } } };

template <class F, class FT, class S, class Sys> void go2(const Cfg& c, S& s, Sys sys, state& x, std::vector<Seen>& o) {
    if (c.time) { if (c.ref) FT::go(c, boost::ref(s), sys, x, o); else FT::go(c, s, sys, x, o); }
    else { if (c.ref) F::go(c, boost::ref(s), sys, x, o); else F::go(c, s, sys, x, o); }
}
template <class S, class Sys> void iterate_plain(const Cfg& c, S& s, Sys sys, state& x, std::vector<Seen>& o) { if (c.it == 0) go2<ConstF, ConstTimeF>(c, s, sys, x, o); else if (c.it == 1) go2<NF, NTimeF>(c, s, sys, x, o); else go2<TimesF, TimesTimeF>(c, s, sys, x, o); }
template <class S, class Sys> void iterate_controlled(const Cfg& c, S& s, Sys sys, state& x, std::vector<Seen>& o) { if (c.it == 2) go2<TimesF, TimesTimeF>(c, s, sys, x, o); else go2<AdF, AdTimeF>(c, s, sys, x, o); }
template <class S, class Sys> void iterate_dense(const Cfg& c, S& s, Sys sys, state& x, std::vector<Seen>& o) { if (c.it == 3) go2<AdF, AdTimeF>(c, s, sys, x, o); else iterate_plain(c, s, sys, x, o); }
template <class S, class Sys, class Rec> void integrate(const Cfg& c, S& s, Sys sys, state& x, Rec rec) {
    if (c.it == 0) ode::integrate_const(s, sys, x, c.t0, c.end, c.dt, rec);
    else if (c.it == 1) ode::integrate_n_steps(s, sys, x, c.t0, c.dt, size_t(c.n), rec);
    else if (c.it == 2) { if (!c.times.empty()) ode::integrate_times(s, sys, x, c.times.begin(), c.times.end(), c.dt, rec); }
    else ode::integrate_adaptive(s, sys, x, c.t0, c.end, c.dt, rec);
}
static void grid(const Cfg& c, int& lo, int& hi) {
    long double q = ((long double)c.end - c.t0) / c.dt; bool dy = c.dt * 4 == std::floor(c.dt * 4); hi = (int)std::floor(q + 1e-9L); if (hi < 0) hi = 0;
    lo = (!dy && std::fabs((double)(q - std::round((double)q))) < 1e-8 && std::max(std::fabs(c.end), std::fabs(c.t0)) > 1) ? std::max(0, hi - 1) : hi;
}
static void body_env() {
    Cfg c = config(); mc::shard_point();
    mc::ctx(mc::fmt(name(c), c.ref ? " byref" : "", " api ", c.api, " t0 ", c.t0, " dt ", c.dt, " end ", c.end, " n ", c.n, " times ", mc::show(c.times)));
    try {
        world(c, nullptr); state x = {c.t0, 0}; std::vector<Seen> o;
        if (c.cat == 0) { env::simple s; iterate_plain(c, s, env::System(), x, o); } else if (c.cat == 1) { env::controlled s; iterate_controlled(c, s, env::System(), x, o); } else { env::dense s; iterate_dense(c, s, env::System(), x, o); }
        std::vector<int> dec = W().decisions; std::vector<env::Trial> tr = W().trials;
        // 1. what the property prescribes
        std::vector<double> want;
        if (c.r < 0) { MC_CHECK(o.empty(), key(c, "reversed-interval"), o.size(), " elements although the end lies before the start"); MC_CHECK(x[0] == c.t0 && x[1] == 0 && tr.empty(), key(c, "reversed-interval"), "steps are made although the end lies before the start"); mc::outcome(c.it); return; }
        if (c.it == 2) want = c.times;
        else if (c.it == 1) for (int i = 0; i <= c.n; i++) want.push_back(c.t0 + i * c.dt);
        else if (c.it == 0) { int lo, hi; grid(c, lo, hi); int n = (int)o.size() - 1; n = std::min(std::max(n, lo), hi); for (int i = 0; i <= n; i++) want.push_back(c.t0 + i * c.dt); }
        else { want.push_back(c.t0); for (auto& q : tr) if (q.accepted) want.push_back(q.t + q.dt); MC_CHECK(env::near(want.back(), c.end), key(c, "ends-early"), "the last step ends at ", want.back(), ", the end time is ", c.end); if (!o.empty() && c.time) MC_CHECK(std::fabs(o.back().t - c.end) <= 4e-16 * std::max(1.0, std::fabs(c.end)), key(c, "ends-early"), "last time ", o.back().t, ", end time ", c.end); }
        for (size_t i = 0; i < o.size() && i < want.size(); i++) {
            if (c.time) MC_CHECK(std::fabs(o[i].t - want[i]) <= 1e-12 * std::max(1.0, std::fabs(want[i])), key(c, "time"), "element ", i, " has time ", o[i].t, " expected ", want[i]);
            MC_CHECK(env::near(o[i].x0, want[i]), key(c, "state"), "element ", i, " shows the state of time ", o[i].x0, " expected ", want[i]);
            if (!(c.it == 3 && c.cat == 2)) MC_CHECK(o[i].users, key(c, "not-the-users-state"), "element ", i, " refers to something else than the user's state");
            mc::outcome(mc::mix(mc::hash_double(o[i].x0), mc::hash_double(o[i].n)));
        }
        MC_CHECK(o.size() == want.size(), key(c, "count"), o.size(), " elements, expected ", want.size());
        if (!o.empty()) MC_CHECK(o[0].n == 0, key(c, "initial-state"), "the first element is not the initial state");
        if (!(c.it == 3 && c.cat == 2) && !want.empty()) MC_CHECK(env::near(x[0], want.back()), key(c, "final-state"), "the user's state is left at time ", x[0], " expected ", want.back());
        // 2. the integration function with the same stepper answers
        if (c.it == 2 && c.times.empty()) return;
        world(c, &dec); state y = {c.t0, 0}; std::vector<Obs> q; env::recorder rec(&q);
        if (c.cat == 0) { env::simple s; integrate(c, s, env::System(), y, rec); } else if (c.cat == 1) { env::controlled s; integrate(c, s, env::System(), y, rec); } else { env::dense s; integrate(c, s, env::System(), y, rec); }
        if (c.it != 0) MC_CHECK(q.size() == o.size(), key(c, "integrator-count"), "iterating yields ", o.size(), " elements, integrating ", q.size());
        for (size_t i = 0; i < q.size() && i < o.size(); i++) {
            if (c.time) MC_CHECK(std::fabs(q[i].t - o[i].t) <= 1e-12 * std::max(1.0, std::fabs(q[i].t)), key(c, "integrator-time"), "element ", i, " iterating ", o[i].t, " integrating ", q[i].t);
            MC_CHECK(env::near(q[i].x0, o[i].x0), key(c, "integrator-state"), "element ", i, " iterating shows the state of time ", o[i].x0, " integrating ", q[i].x0);
        }
    } catch (mc::Violation& v) { if (v.key.find(':') == std::string::npos) v.key = key(c, v.key.c_str()); throw; }
    catch (mc::Budget&) { mc::fail(key(c, "no-termination"), "does not terminate"); }
    catch (mc::Skip&) { throw; } catch (mc::Diverged&) { throw; }
    catch (std::exception& e) { mc::fail(key(c, "unexpected-exception"), e.what()); }
}

// --- real steppers: bitwise the observations of the integration function ------------------------
struct Sys { static double dir; void operator()(const state& x, state& d, double t) const { mc::tick(); d[0] = x[1] + 0.25 * std::sin(t); d[1] = -x[0] - 0.125 * x[1]; } };
struct Full { double t; state x; };
struct FullRec { std::vector<Full>* o; void operator()(const state& x, double t) const { o->push_back(Full{t, x}); } };
template <class R, class F> void loop(R r, F& rec) { for (; r.first != r.second; ++r.first) rec(st_of(*r.first), t_of(*r.first)); }
template <class S, class F> void real_grid(const Cfg& c, S& s, state& x, F& rec) {
    Sys sys;
    if (c.it == 0) { if (c.time) loop(ode::make_const_step_time_range(s, sys, x, c.t0, c.end, c.dt), rec); else loop(ode::make_const_step_range(s, sys, x, c.t0, c.end, c.dt), rec); }
    else { if (c.time) loop(ode::make_n_step_time_range(s, sys, x, c.t0, c.dt, size_t(c.n)), rec); else loop(ode::make_n_step_range(s, sys, x, c.t0, c.dt, size_t(c.n)), rec); }
}
template <class S, class F> void real_times(const Cfg& c, S& s, state& x, F& rec) { Sys sys; if (c.time) loop(ode::make_times_time_range(s, sys, x, c.times.begin(), c.times.end(), c.dt), rec); else loop(ode::make_times_range(s, sys, x, c.times.begin(), c.times.end(), c.dt), rec); }
template <class S, class F> void real_adaptive(const Cfg& c, S& s, state& x, F& rec) { Sys sys; if (c.time) loop(ode::make_adaptive_time_range(s, sys, x, c.t0, c.end, c.dt), rec); else loop(ode::make_adaptive_range(s, sys, x, c.t0, c.end, c.dt), rec); }
template <class S, class F> void real_go(const Cfg& c, S& s, state& x, F& rec, ode::stepper_tag) { if (c.it == 2) real_times(c, s, x, rec); else real_grid(c, s, x, rec); }
template <class S, class F> void real_go(const Cfg& c, S& s, state& x, F& rec, ode::controlled_stepper_tag) { if (c.it == 2) real_times(c, s, x, rec); else real_adaptive(c, s, x, rec); }
template <class S, class F> void real_go(const Cfg& c, S& s, state& x, F& rec, ode::dense_output_stepper_tag) { if (c.it == 2) real_times(c, s, x, rec); else if (c.it == 3) real_adaptive(c, s, x, rec); else real_grid(c, s, x, rec); }
template <class S> void real_run(const Cfg& c, S& s, std::vector<Full>& out, state& x) {
    auto rec = [&](const state& y, double t) { out.push_back(Full{t, y}); if (out.size() > 5000) throw mc::Budget(); };
    real_go(c, s, x, rec, typename ode::base_tag<typename S::stepper_category>::type());
}
template <class S> void real_body(const char* nm, int cat, S (*make)()) {
    Cfg c; c.cat = cat; c.time = mc::choose(2); c.sgn = mc::choose(2) ? -1 : 1; c.ref = false; c.api = 2;
    static const std::vector<std::vector<int>> its = {{0, 1, 2}, {2, 3}, {0, 1, 2, 3}}; c.it = mc::choose_from(its[cat]);
    static const std::vector<double> t0s = {0.0, -2.5}, dts = {1.0, 0.25, 0.1, 0.01}, ends = {0, 0.25, 1, 3.7};
    c.t0 = mc::choose_from(t0s); c.dt = c.sgn * mc::choose_from(dts); c.n = 0; c.r = 0;
    if (c.it == 2) { static const std::vector<double> gaps = {1.0, 0.03, 2.5}; int np = 1 + mc::choose(4); double t = c.t0; for (int i = 0; i < np; i++) { if (i) t += c.sgn * gaps[mc::choose(3)]; c.times.push_back(t); } c.end = t; }
    else if (c.it == 1) { c.n = mc::choose(7); c.end = c.t0 + c.n * c.dt; } else c.end = c.t0 + c.sgn * mc::choose_from(ends);
    mc::shard_point(); mc::ctx(mc::fmt(nm, " ", name(c), " t0 ", c.t0, " dt ", c.dt, " end ", c.end, " n ", c.n, " times ", mc::show(c.times)));
    std::string kk = mc::fmt(":", nm, "/", name(c));
    state x = {1.0, 0.5}, y(x); std::vector<Full> o, q; S s = make(), s2 = make();
    try { real_run(c, s, o, x); integrate(c, s2, Sys(), y, FullRec{&q}); } catch (mc::Budget&) { mc::fail("no-termination" + kk, "does not terminate"); }
    MC_CHECK(o.size() == q.size(), "real-count" + kk, "iterating yields ", o.size(), " elements, integrating ", q.size());
    double tol = cat == 0 ? 1e-13 : 1e-5;
    for (size_t i = 0; i < o.size(); i++) {
        if (c.time) MC_CHECK(mc::close(o[i].t, q[i].t, 1e-13), "real-time" + kk, "element ", i, " has time ", o[i].t, " integrating ", q[i].t);
        for (int k = 0; k < 2; k++) MC_CHECK(mc::close(o[i].x[k], q[i].x[k], tol), "real-state" + kk, "element ", i, " is ", mc::show(o[i].x), " integrating shows ", mc::show(q[i].x), " at t=", q[i].t);
        mc::outcome(mc::hash_double(o[i].x[0])); mc::transition();
    }
    if (!(c.it == 3 && cat == 2)) for (int k = 0; k < 2; k++) MC_CHECK(mc::close(x[k], y[k], tol), "real-final-state" + kk, "iterating leaves ", mc::show(x), " integrating ", mc::show(y));
    mc::state(std::hash<std::string>()(mc::E().ctx));
}
template <class S> S mk() { return S(); }
typedef ode::runge_kutta_dopri5<state> DP; typedef ode::runge_kutta_cash_karp54<state> CK;
static auto mk_c_dp() { return ode::make_controlled(1e-7, 1e-7, DP()); } static auto mk_c_ck() { return ode::make_controlled(1e-7, 1e-7, CK()); } static auto mk_d_dp() { return ode::make_dense_output(1e-7, 1e-7, DP()); }
static auto mk_d_rk4() { return ode::dense_output_runge_kutta<ode::euler<state>>(); }
static auto mk_bs() { return ode::bulirsch_stoer<state>(1e-7, 1e-7); } static auto mk_bsd() { return ode::bulirsch_stoer_dense_out<state>(1e-7, 1e-7); }
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B;
#ifdef SANITIZED
    B.push_back({"env_asan", body_env});
#else
    B.push_back({"env", body_env});
#endif
#define RB(nm, cat, f) B.push_back({nm, [] { real_body<decltype(f())>(nm, cat, f); }});
    B.push_back({"rk4", [] { real_body<ode::runge_kutta4<state>>("rk4", 0, mk<ode::runge_kutta4<state>>); }});
    B.push_back({"ck54", [] { real_body<CK>("ck54", 0, mk<CK>); }}); B.push_back({"dopri5", [] { real_body<DP>("dopri5", 0, mk<DP>); }});
    B.push_back({"ab3", [] { real_body<ode::adams_bashforth<3, state>>("ab3", 0, mk<ode::adams_bashforth<3, state>>); }});
    RB("controlled_dopri5", 1, mk_c_dp) RB("controlled_ck54", 1, mk_c_ck) RB("bulirsch_stoer", 1, mk_bs) RB("dense_dopri5", 2, mk_d_dp) RB("dense_euler", 2, mk_d_rk4) RB("bulirsch_stoer_dense", 2, mk_bsd)
    return mc::run_main(argc, argv, B);
}
