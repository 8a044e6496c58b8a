// C01-C05: integration functions closed with environment steppers.
// ITER=1 uses the iterator-based implementation of the same functions.
#ifndef ITER
#define ITER 0
#endif
#include "mc.hpp"
#include <utility>
#include <functional>
#if ITER
#include <boost/numeric/odeint/iterator/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_times.hpp>
#else
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#endif
#include <boost/numeric/odeint/integrate/null_observer.hpp>
#include <boost/numeric/odeint/util/odeint_error.hpp>
#include "env.hpp"
#include <list>
using namespace boost::numeric::odeint;
using env::Obs; using env::W;
typedef std::vector<double> state;

static const bool thorough() { return mc::E().tier == "thorough"; }

struct Cfg { int kind; double t0, dt; double r; bool by_ref; bool obs_ref; double sgn; double e = 1e300; double end() const { return e < 1e299 ? e : t0 + r * dt; } };
static const char* kinds[] = {"plain", "controlled", "dense"};

static void world(const Cfg& c, double end, bool limit) {
    W() = env::World(); W().dir = c.sgn; W().h0 = c.dt; W().limit = end; W().check_limit = limit; W().variants = thorough() ? 6 : 5;
}
static bool ODD = false;   // times and steps that are no machine numbers: every rounding of t + (end - t) occurs
template <void (*BODY)()> static void odd() { struct G { G() { ODD = true; } ~G() { ODD = false; } } g; BODY(); }
static Cfg config(bool tiny) {
    Cfg c;
    c.kind = mc::choose(3);
    c.sgn = mc::choose(2) ? -1 : 1;
    if (ODD) {
        static const std::vector<double> t0s = {-3.0, 0.1, -5.7, -2.9, -0.9, 1.1, -7.3, 97.3}, dts = {0.1, 0.3, 0.7, 1.0 / 3, 0.013, 13.7};
        c.t0 = t0s[mc::choose(8)]; c.dt = dts[mc::choose(6)] * c.sgn; c.r = (std::fabs(c.dt) > 2 ? 0.03 : 0.37) * (1 + mc::choose(thorough() ? 80 : 32)); if (mc::choose(2)) { c.e = std::round((c.t0 + c.r * c.dt) * 10) / 10; c.r = (c.e - c.t0) / c.dt; if (c.r < 0) { c.r = 0; c.e = c.t0; } } c.by_ref = false; c.obs_ref = false; return c;
    }
    static const std::vector<double> t0s = {0.0, 1.0, -2.5, 1048576.0};
    static const std::vector<double> dts = {1.0, 0.25, 0.1};
    c.t0 = t0s[mc::choose(thorough() ? 4 : 3)];
    c.dt = dts[mc::choose(3)] * c.sgn;
    static const std::vector<double> rs = {0, 0.5, 1, 1.5, 2, 3, 4.75, 7};
    c.r = rs[mc::choose((int)rs.size())];
    // the end misses a whole number of steps by very little, yet far more than rounding (times of ordinary size only)
    if (tiny && std::fabs(c.t0) < 100 && c.r == std::floor(c.r)) { static const std::vector<double> ex = {0, 1e-3, 1e-6, 1e-7, -1e-3, -1e-6}; double e = ex[mc::choose(c.r > 0 ? 6 : 4)]; c.r += e; }
    c.by_ref = mc::choose(2); c.obs_ref = c.by_ref;
    return c;
}
static std::string show(const char* what, const Cfg& c) { return mc::fmt(what, ITER ? "(iter)" : "", "/", kinds[c.kind], "/", c.sgn > 0 ? "forward" : "backward", " t0=", c.t0, " dt=", c.dt, " r=", c.r, c.by_ref ? " byref" : ""); }
static std::string key(const char* what, const Cfg& c, const std::string& k) { return mc::fmt(k, ":", what, ITER ? "(iter)" : "", "/", kinds[c.kind], "/", c.sgn > 0 ? "forward" : "backward"); }

// run f and qualify violation keys raised inside the environment with the function under test
template <class F> static void guarded(const char* what, const Cfg& c, F f) {
    try { f(); }
    catch (mc::Violation& v) { if (v.key.find(':') == std::string::npos) v.key = key(what, c, v.key); throw; }
    catch (mc::Budget&) { mc::fail(key(what, c, "no-termination"), "does not terminate"); }
    catch (mc::Skip&) { throw; } catch (mc::Diverged&) { throw; }
    catch (std::exception& e) { mc::fail(key(what, c, "unexpected-exception"), e.what()); }
}

template <class F> static void with_stepper(const Cfg& c, F f) {
    if (c.kind == 0) { env::simple s; if (c.by_ref) f(std::ref(s)); else f(s); }
    else if (c.kind == 1) { env::controlled s; if (c.by_ref) f(std::ref(s)); else f(s); }
    else { env::dense s; if (c.by_ref) f(boost::ref(s)); else f(s); }
}

// number of grid points after t0 not passing the end; ambiguous where only rounding decides
static void grid(const Cfg& c, double end, int& nmin, int& nmax) {
    long double q = ((long double)end - c.t0) / c.dt;   // in steps
    double slack = 1e-12L * std::max(1.0, std::fabs(end)) / std::fabs(c.dt);
    bool exact = (c.dt * 4 == std::floor(c.dt * 4)) ;   // dyadic steps and times: no rounding at all
    bool small = std::fabs(end) <= 1.0 && std::fabs(c.t0) <= 1.0;
    long double fl = std::floor(q + 1e-9L);
    nmax = (int)fl; nmin = (exact || small) ? nmax : ((std::fabs((double)(q - std::round((double)q))) < 1e-9 + slack) ? nmax - 1 : nmax);
    if (nmin < 0) nmin = 0; if (nmax < 0) nmax = 0;
}

static void check_obs(const char* what, const Cfg& c, const std::vector<Obs>& o, const std::vector<double>& times, bool strict = true) {
    for (size_t i = 0; i < o.size() && i < times.size(); i++) {
        MC_CHECK(std::fabs(o[i].t - times[i]) <= 1e-12 * std::max(1.0, std::fabs(times[i])), key(what, c, "observed-time"), "observation ", i, " at t=", o[i].t, " expected ", times[i]);
        MC_CHECK(env::near(o[i].x0, o[i].t), key(what, c, "observed-state"), "observation ", i, " at t=", o[i].t, " shows the state of time ", o[i].x0);
        mc::outcome(mc::mix(mc::hash_double(o[i].t), mc::hash_double(o[i].n)));
    }
    MC_CHECK(o.size() == times.size(), key(what, c, "observation-count"), "observed ", o.size(), " times, expected ", times.size());
    if (!o.empty() && strict) MC_CHECK(o[0].n == 0, key(what, c, "initial-state"), "first observation is not the initial state");
}

static void body_const() {
    Cfg c = config(true); int variant = mc::choose(ITER ? 2 : 3);  // observer by value / by ref (tied to stepper) / no observer
    mc::shard_point();
    const char* what = variant == 2 ? "const-noobs" : "const"; mc::ctx(show(what, c));
    double end = c.end(); int nmin, nmax; grid(c, end, nmin, nmax);
    world(c, end, c.kind != 2);
    state x = {c.t0, 0}; std::vector<Obs> o; size_t ret = 0;
    guarded(what, c, [&] {
        with_stepper(c, [&](auto st) {
            env::recorder rec(&o);
            if (variant == 0) ret = integrate_const(st, env::System(), x, c.t0, end, c.dt, rec);
            else if (variant == 1) ret = integrate_const(st, env::System(), x, c.t0, end, c.dt, std::ref(rec));
            else ret = integrate_const(st, env::System(), x, c.t0, end, c.dt);
        });
        std::vector<double> times; 
        if (variant != 2) {
            int n = (int)o.size() - 1; if (n < nmin) n = nmin; if (n > nmax) n = nmax;
            for (int i = 0; i <= n; i++) times.push_back(c.t0 + i * c.dt);
            check_obs(what, c, o, times);
            if (c.kind == 0) MC_CHECK(ret == (size_t)n, key(what, c, "return"), "returned ", ret, " steps, made ", n);
            MC_CHECK(env::near(x[0], times.back()), key(what, c, "final-state"), "state left at time ", x[0], " expected ", times.back());
        } else {
            MC_CHECK(env::near(x[0], c.t0 + nmin * c.dt) || env::near(x[0], c.t0 + nmax * c.dt), key(what, c, "final-state"), "state left at time ", x[0], " expected ", c.t0 + nmax * c.dt);
        }
        if (!ITER) MC_CHECK(ret == (size_t)W().accepted, key(what, c, "return"), "returned ", ret, " steps, the stepper made ", W().accepted);
    });
}
static void body_nsteps() {
    Cfg c = config(false); int variant = mc::choose(ITER ? 2 : 3);
    mc::shard_point();
    int n = (int)std::floor(c.r + 0.5); if (c.r == 7 && thorough()) n = 11;
    const char* what = variant == 2 ? "nsteps-noobs" : "nsteps"; mc::ctx(show(what, c) + mc::fmt(" n=", n));
    double end = c.t0 + n * c.dt;
    world(c, end, !(ITER && c.kind == 2));
    state x = {c.t0, 0}; std::vector<Obs> o; double ret = 0;
    guarded(what, c, [&] {
        with_stepper(c, [&](auto st) {
            env::recorder rec(&o);
            if (variant == 0) ret = integrate_n_steps(st, env::System(), x, c.t0, c.dt, (size_t)n, rec);
            else if (variant == 1) ret = integrate_n_steps(st, env::System(), x, c.t0, c.dt, (size_t)n, std::ref(rec));
            else ret = integrate_n_steps(st, env::System(), x, c.t0, c.dt, (size_t)n);
        });
        std::vector<double> times; for (int i = 0; i <= n; i++) times.push_back(c.t0 + i * c.dt);
        if (variant != 2) check_obs(what, c, o, times, c.kind != 2);
        MC_CHECK(std::fabs(ret - end) <= 1e-12 * std::max(1.0, std::fabs(end)), key(what, c, "return"), "returned ", ret, " expected ", end);
        MC_CHECK(env::near(x[0], end), key(what, c, "final-state"), "state left at time ", x[0], " expected ", end);
    });
}
static void body_adaptive() {
    Cfg c = config(true); int variant = mc::choose(ITER ? 2 : 3);
    mc::shard_point();
    const char* what = variant == 2 ? "adaptive-noobs" : "adaptive"; mc::ctx(show(what, c));
    double end = c.end();
    world(c, end, true);
    state x = {c.t0, 0}; std::vector<Obs> o; size_t ret = 0;
    guarded(what, c, [&] {
        with_stepper(c, [&](auto st) {
            env::recorder rec(&o);
            if (variant == 0) ret = integrate_adaptive(st, env::System(), x, c.t0, end, c.dt, rec);
            else if (variant == 1) ret = integrate_adaptive(st, env::System(), x, c.t0, end, c.dt, std::ref(rec));
            else ret = integrate_adaptive(st, env::System(), x, c.t0, end, c.dt);
        });
        MC_CHECK(ret == (size_t)W().accepted, key(what, c, "return"), "returned ", ret, " steps, the stepper accepted ", W().accepted);
        if (!(ITER && c.kind == 2)) MC_CHECK(env::near(x[0], end), key(what, c, "final-state"), "state left at time ", x[0], " expected ", end);
        if (variant != 2) {
            std::vector<double> times(1, c.t0); double t = c.t0;
            for (auto& tr : W().trials) if (tr.accepted) { t = tr.t + tr.dt; times.push_back(t); }
            MC_CHECK(env::near(times.back(), end), key(what, c, "end"), "last step ends at ", times.back());
            check_obs(what, c, o, times);
            for (size_t i = 1; i < o.size(); i++) MC_CHECK((o[i].t - o[i - 1].t) * c.sgn > 0, key(what, c, "monotone"), "observed times not monotone: ", o[i - 1].t, " then ", o[i].t);
            for (size_t i = 0; i < o.size(); i++) MC_CHECK(o[i].n == (double)i, key(what, c, "observed-state"), "observation ", i, " shows a state after ", o[i].n, " steps");
            MC_CHECK(std::fabs(o.back().t - end) <= 1e-12 * std::max(1.0, std::fabs(end)), key(what, c, "end"), "last observation at ", o.back().t, " end time ", end);
            if (c.kind == 0) {  // plain steppers: the given step size, only the last one shortened
                for (size_t i = 0; i < W().trials.size(); i++) MC_CHECK(std::fabs(W().trials[i].dt - c.dt) < 1e-9 || (i + 1 == W().trials.size() && std::fabs(W().trials[i].dt) < std::fabs(c.dt)), key(what, c, "step-size"), "plain step ", i, " has size ", W().trials[i].dt);
            }
        }
        // the first trial uses the caller's step size unless the end is nearer
        if (!W().trials.empty() && c.r >= 1 && c.kind == 1) MC_CHECK(std::fabs(W().trials[0].dt - c.dt) < 1e-9, key(what, c, "initial-step"), "first trial uses ", W().trials[0].dt);
    });
}
// many equal steps with a step size that is not a machine number: the grid is computed, never accumulated
template <bool NST> static void body_long() {
    Cfg c; c.kind = mc::choose(3); c.sgn = mc::choose(2) ? -1 : 1;
    static const std::vector<double> t0s = {0.0, 1000.0, -2.5, 0.1}; static const std::vector<double> dts = {0.1, 0.3, 1.0 / 3.0, 1e-3};
    c.t0 = t0s[mc::choose(4)]; c.dt = dts[mc::choose(4)] * c.sgn; c.by_ref = mc::choose(2); c.obs_ref = false;
    int n = thorough() ? 18000 : 3000; c.r = n + 0.5;
    const char* what = NST ? "nsteps-long" : "const-long";
    mc::shard_point(); mc::ctx(show(what, c));
    double end = NST ? c.t0 + n * c.dt : c.t0 + c.r * c.dt;
    world(c, end + (NST ? 0.01 * c.dt : 0), false); W().always_default = true; W().max_trials = 3 * n + 100;
    state x = {c.t0, 0}; std::vector<Obs> o; double ret = 0; size_t rn = 0;
    guarded(what, c, [&] {
        with_stepper(c, [&](auto st) { env::recorder rec(&o);
            if (NST) ret = integrate_n_steps(st, env::System(), x, c.t0, c.dt, (size_t)n, rec); else rn = integrate_const(st, env::System(), x, c.t0, end, c.dt, rec); });
        MC_CHECK(o.size() == (size_t)n + 1, key(what, c, "observation-count"), "observed ", o.size(), " times, expected ", n + 1);
        for (int i = 0; i <= n; i++) { double e = c.t0 + i * c.dt, tl = 8 * 2.3e-16 * std::max(std::fabs(c.t0), std::fabs(i * c.dt));
            MC_CHECK(std::fabs(o[i].t - e) <= tl, key(what, c, "grid-drift"), "observation ", i, " at t=", mc::fmt(o[i].t), " is ", o[i].t - e, " off the grid point t0+", i, "*dt"); }
        if (NST) { MC_CHECK(std::fabs(ret - end) <= 8 * 2.3e-16 * std::max(std::fabs(c.t0), std::fabs(n * c.dt)), key(what, c, "return"), "returned ", ret, " expected ", end);
            MC_CHECK(env::near(x[0], end), key(what, c, "final-state"), "state left at time ", x[0], " expected ", end); }
        if (!NST && c.kind == 0) MC_CHECK(rn == (size_t)n, key(what, c, "return"), "returned ", rn, " steps, expected ", n);
    });
    mc::outcome(mc::mix(mc::hash_double(o.back().t), o.size()));
}
static void body_times() {
    Cfg c; c.kind = mc::choose(3); c.sgn = mc::choose(2) ? -1 : 1; c.by_ref = mc::choose(2); c.obs_ref = false; c.r = 0;
    static const std::vector<double> t0s = {0.0, -2.5, 1048576.0, 0.1};
    c.t0 = t0s[mc::choose(thorough() ? 4 : 2)];
    static const std::vector<double> dts = {1.0, 0.25, 0.1, 4.0};
    c.dt = dts[mc::choose(4)] * c.sgn;
    // gaps between successive time points
    static const std::vector<double> gaps = {1.0, 0.25, 0, 2.5, 0.1};   // 0: a time point given twice
    int npts = 1 + mc::choose(thorough() ? 5 : 4);
    std::vector<double> times(1, c.t0);
    if (ODD) { static const std::vector<double> o = {-3.0, 0.1, -2.9, -0.9, 97.3}, g = {0.1, 0.3, 0.7, 1.0 / 3, 6.13, 1.9, 3.1}; c.t0 = times[0] = o[mc::choose(5)]; c.dt *= 1 + 0.7 * mc::choose(3); for (int i = 1; i < npts; i++) times.push_back(times.back() + c.sgn * g[mc::choose(7)]); }
    else for (int i = 1; i < npts; i++) times.push_back(times.back() + c.sgn * gaps[mc::choose(i <= 2 ? 5 : 3)]);
    int api = mc::choose(ITER ? 2 : 3);
    mc::shard_point();
    const char* what = "times"; mc::ctx(show(what, c) + mc::fmt(" times=", mc::show(times), " api=", api));
    world(c, times.back(), true);
    state x = {c.t0, 0}; std::vector<Obs> o; size_t ret = 0;
    guarded(what, c, [&] {
        with_stepper(c, [&](auto st) {
            env::recorder rec(&o);
            if (api == 0) ret = integrate_times(st, env::System(), x, times.begin(), times.end(), c.dt, rec);
            else if (api == 1) ret = integrate_times(st, env::System(), x, times, c.dt, std::ref(rec));
            
#if !ITER
            else { std::list<double> l(times.begin(), times.end()); ret = integrate_times(st, env::System(), x, l.begin(), l.end(), c.dt, rec); }
#endif
        });
        check_obs(what, c, o, times);
        MC_CHECK(env::near(x[0], times.back()), key(what, c, "final-state"), "state left at time ", x[0], " expected ", times.back());
        if (!ITER) MC_CHECK(ret == (size_t)W().accepted, key(what, c, "return"), "returned ", ret, " the stepper made ", W().accepted);
        // step-size memory: with a plain stepper no step is longer than dt, and intervals longer than dt are crossed with full steps
        if (c.kind == 0) for (auto& tr : W().trials) MC_CHECK(std::fabs(tr.dt) <= std::fabs(c.dt) * (1 + 1e-12), key(what, c, "step-size"), "plain step of size ", tr.dt, " exceeds dt=", c.dt);
        if (c.kind == 0) { size_t need = 0; for (size_t i = 1; i < times.size(); i++) need += (size_t)std::ceil(std::fabs(times[i] - times[i - 1]) / std::fabs(c.dt) - 1e-9); MC_CHECK((size_t)W().accepted <= need + (c.dt * 4 == std::floor(c.dt * 4) ? 0 : times.size()), key(what, c, "step-size"), W().accepted, " plain steps where ", need, " suffice: the step size is not restored after a time point"); }
    });
}

#if !ITER
// C05: limits.  The expected outcome is derived from the environment's own log of an unlimited twin run
// with the same decisions.
struct Twin { std::vector<Obs> o; std::vector<int> steps_between; int max_rej = 0; };
template <class Call> static void run_limited(const char* what, const Cfg& c, double end, bool lim, int N, Call call, bool observed = true) {
    // unlimited run, decisions explored
    world(c, end, lim); W().variants = 6; W().max_trials = 6000;
    std::vector<Obs> o1; bool thrown1 = false; 
    state x1 = {c.t0, 0};
    try { call(x1, o1, -1); } catch (odeint_error& e) { thrown1 = true; }
    std::vector<int> dec = W().decisions;
    MC_CHECK(!thrown1, key(what, c, "spurious-error"), "error raised although every interval made progress");
    // expected: first observation interval that needs more than N steps makes the limited run fail
    std::vector<Obs> o2; bool thrown2 = false, wrong = false; std::string msg; state x2 = {c.t0, 0};
    world(c, end, lim); W().variants = 6; W().script = &dec; W().max_trials = 6000;
    try { call(x2, o2, N); } catch (no_progress_error& e) { thrown2 = true; } catch (odeint_error& e) { wrong = true; msg = e.what(); }
    MC_CHECK(!wrong, key(what, c, "wrong-error"), "wrong kind of error: ", msg);
    // count via a second environment pass: o?.n holds accepted steps made so far (dense: steps made when observed)
    int first_bad = -1; for (size_t i = 0; i + 1 < o1.size(); i++) if ((int)(o1[i + 1].n - o1[i].n) > N) { first_bad = (int)i; break; }
    // dense output: an interval may be observed after steps that already belong to later intervals; n counts steps made so far, which is what the limit counts
    if (first_bad >= 0) {
        MC_CHECK(thrown2, key(what, c, "limit-not-enforced"), "interval ", first_bad, " needs ", o1[first_bad + 1].n - o1[first_bad].n, " steps, limit ", N, ", but no error was raised");
        if (!observed) return;
        MC_CHECK((int)o2.size() == first_bad + 1, key(what, c, "limit-observations"), "observations before the error: ", o2.size(), " expected ", first_bad + 1);
        int made = W().accepted - (int)o2.back().n;
        MC_CHECK(made >= N && made <= N + 1, key(what, c, "limit-value"), "error raised after ", made, " steps since the last observation, limit ", N);
    } else {
        MC_CHECK(!thrown2, key(what, c, "limit-too-early"), "no interval needs more than ", N, " steps but the limit fired");
        if (observed) MC_CHECK(o2.size() == o1.size(), key(what, c, "limit-observations"), "limited run made ", o2.size(), " observations, unlimited ", o1.size());
        MC_CHECK(x1 == x2, key(what, c, "limit-state"), "limited and unlimited run end in different states");
    }
    for (size_t i = 0; i < o2.size() && i < o1.size(); i++) MC_CHECK(o1[i].t == o2[i].t && o1[i].x0 == o2[i].x0, key(what, c, "limit-observations"), "observation ", i, " differs under a limit");
    mc::outcome(mc::mix(first_bad + 2, o2.size()));
}
static Cfg lim_config() {
    Cfg c; c.kind = mc::choose(3); c.sgn = mc::choose(2) ? -1 : 1; c.t0 = mc::choose(2) ? -2.5 : 0.0; c.by_ref = mc::choose(2); c.obs_ref = false; c.dt = c.sgn * 1.0; c.r = 0; return c;
}
// body: controlled/dense steppers need sub-steps only through decisions; give them a finer start by a large grid step
static void body_limit_const() {
    Cfg c = lim_config(); int N = 1 + mc::choose(5); c.r = 2 + mc::choose(3); int byref = mc::choose(3);
    mc::shard_point(); mc::ctx(show("limit-const", c) + mc::fmt(" N=", N)); double end = c.t0 + c.r * c.dt;
    guarded("limit-const", c, [&] { run_limited("limit-const", c, end, false, N, [&](state& x, std::vector<Obs>& o, int n) {
        with_stepper(c, [&](auto st) { env::recorder rec(&o); if (n < 0) integrate_const(st, env::System(), x, c.t0, end, c.dt, rec); else if (byref == 2) { integrate_const(st, env::System(), x, c.t0, end, c.dt, null_observer(), max_step_checker(n)); }
            else if (byref) { max_step_checker ch(n); integrate_const(st, env::System(), x, c.t0, end, c.dt, std::ref(rec), std::ref(ch)); } else integrate_const(st, env::System(), x, c.t0, end, c.dt, rec, max_step_checker(n)); }); }, byref != 2); });
}
static void body_limit_nsteps() {
    Cfg c = lim_config(); int N = 1 + mc::choose(5); int n0 = 1 + mc::choose(4); c.r = n0; int byref = mc::choose(2);
    mc::shard_point(); mc::ctx(show("limit-nsteps", c) + mc::fmt(" N=", N)); double end = c.t0 + n0 * c.dt;
    guarded("limit-nsteps", c, [&] { run_limited("limit-nsteps", c, end, false, N, [&](state& x, std::vector<Obs>& o, int n) {
        with_stepper(c, [&](auto st) { env::recorder rec(&o); if (n < 0) integrate_n_steps(st, env::System(), x, c.t0, c.dt, (size_t)n0, rec); else if (byref) { max_step_checker ch(n); integrate_n_steps(st, env::System(), x, c.t0, c.dt, (size_t)n0, std::ref(rec), std::ref(ch)); } else integrate_n_steps(st, env::System(), x, c.t0, c.dt, (size_t)n0, rec, max_step_checker(n)); }); }); });
}
static void body_limit_times() {
    Cfg c = lim_config(); int N = 1 + mc::choose(5); int np = 2 + mc::choose(2); static const std::vector<double> gaps = {1.0, 3.0, 0.25, 0};
    std::vector<double> times(1, c.t0); for (int i = 1; i < np; i++) times.push_back(times.back() + c.sgn * gaps[mc::choose(4)]);
    int byref = mc::choose(2), range = mc::choose(2);
    mc::shard_point(); mc::ctx(show("limit-times", c) + mc::fmt(" N=", N, " times=", mc::show(times)));
    guarded("limit-times", c, [&] { run_limited("limit-times", c, times.back(), false, N, [&](state& x, std::vector<Obs>& o, int n) {
        with_stepper(c, [&](auto st) { env::recorder rec(&o); if (n < 0) integrate_times(st, env::System(), x, times.begin(), times.end(), c.dt, rec);
            else if (range) integrate_times(st, env::System(), x, times, c.dt, rec, max_step_checker(n));
            else if (byref) { max_step_checker ch(n); integrate_times(st, env::System(), x, times.begin(), times.end(), c.dt, std::ref(rec), std::ref(ch)); }
            else integrate_times(st, env::System(), x, times.begin(), times.end(), c.dt, rec, max_step_checker(n)); }); }); });
}
// a stepper that rejects R times at its k-th step; its script is shared between copies
struct stubborn {
    typedef state state_type; typedef double value_type; typedef state deriv_type; typedef double time_type; typedef controlled_stepper_tag stepper_category;
    struct Script { int tries, R, k, rej, step; bool regrow; };
    Script* p;
    explicit stubborn(Script* q) : p(q) {}
    template <class Sys, class S> controlled_step_result try_step(Sys, S& x, double& t, double& dt) {
        if (++p->tries > 20000) throw mc::Budget(); mc::transition();
        if (p->step == p->k && (p->R < 0 || p->rej < p->R)) { ++p->rej; dt *= 0.99; return fail; }
        t += dt; x[0] = t; x[1] += 1; p->step++; dt = (p->regrow || std::fabs(dt) < 1.0) ? dt * 1.5 : dt; return success;
    }
};
static void body_stubborn() {
    int fn = mc::choose(4); int k = mc::choose(3); static const std::vector<int> Rs = {0, 1, 10, 100, 400, 498, -1}; int R = Rs[mc::choose((int)Rs.size())]; bool g = mc::choose(2); double sg = mc::choose(2) ? -1 : 1;
    mc::shard_point();
    static const char* fns[] = {"adaptive", "const", "nsteps", "times"};
    mc::ctx(mc::fmt("stubborn/", fns[fn], " k=", k, " R=", R, " regrow=", g, " sgn=", sg));
    std::string kk = mc::fmt(":stubborn/", fns[fn]);
    stubborn::Script sc = {0, R, k, 0, 0, g}; int& tries = sc.tries; state x = {0, 0}; std::vector<Obs> o; bool err = false; std::string what;
    try {
        stubborn s(&sc); env::recorder rec(&o);
        if (fn == 0) integrate_adaptive(s, env::System(), x, 0.0, 6.0 * sg, 1.0 * sg, rec);
        else if (fn == 1) integrate_const(s, env::System(), x, 0.0, 6.0 * sg, 1.0 * sg, rec);
        else if (fn == 2) integrate_n_steps(s, env::System(), x, 0.0, 1.0 * sg, 6, rec);
        else { std::vector<double> ts; for (int i = 0; i <= 6; i++) ts.push_back(i * sg); integrate_times(s, env::System(), x, ts.begin(), ts.end(), 1.0 * sg, rec); }
    } catch (step_adjustment_error& e) { err = true; what = e.what(); }
    catch (odeint_error& e) { mc::fail("wrong-error" + kk, e.what()); }
    catch (mc::Budget&) { mc::fail("endless-rejection" + kk, "keeps trying after ", tries, " rejections"); }
    if (R < 0) { MC_CHECK(err, "endless-rejection" + kk, "no error although every trial is rejected"); MC_CHECK(tries <= 1200, "endless-rejection" + kk, "error only after ", tries, " trials"); MC_CHECK(tries >= 500, "reject-limit-early" + kk, "gives up after ", tries, " trials"); }
    else { MC_CHECK(!err, "reject-limit-early" + kk, "error after only ", R, " rejections of one step: ", what); MC_CHECK(env::near(x[0], 6 * sg), "final-state" + kk, "ended at ", x[0]); }
    mc::state(mc::mix(fn * 100 + k, R)); mc::outcome(tries);
}
// many small steps in total, few rejections each: the failure counter must not accumulate over accepted steps
struct hiccup {
    typedef state state_type; typedef double value_type; typedef state deriv_type; typedef double time_type; typedef controlled_stepper_tag stepper_category;
    int per; int* rej; hiccup(int p, int* r) : per(p), rej(r) {}
    template <class Sys, class S> controlled_step_result try_step(Sys, S& x, double& t, double& dt) {
        mc::transition(); mc::tick(); if (*rej < per && std::fabs(dt) > 1e-6) { ++*rej; dt *= 0.5; return fail; }
        *rej = 0; double d = dt; t += d; x[0] = t; x[1] += 1; dt = std::min(1.0, std::fabs(d) * std::pow(2.0, per + 1)) * (d > 0 ? 1 : -1); return success;
    }
};
static void body_hiccup() {
    int fn = mc::choose(4); int per = 1 + mc::choose(5); double sg = mc::choose(2) ? -1 : 1; bool lim = mc::choose(2);
    mc::shard_point(); static const char* fns[] = {"adaptive", "const", "nsteps", "times"};
    mc::ctx(mc::fmt("hiccup/", fns[fn], " per=", per, " sgn=", sg)); std::string kk = mc::fmt(":hiccup/", fns[fn]);
    state x = {0, 0}; std::vector<Obs> o; double T = 64;
    try { int rej = 0; hiccup s(per, &rej); env::recorder rec(&o);
        if (fn == 0) integrate_adaptive(s, env::System(), x, 0.0, T * 8 * sg, 1.0 * sg, rec);
        else if (fn == 1) { if (lim) integrate_const(s, env::System(), x, 0.0, T * sg, 1.0 * sg, rec, max_step_checker(500)); else integrate_const(s, env::System(), x, 0.0, T * sg, 1.0 * sg, rec); }
        else if (fn == 2) { if (lim) integrate_n_steps(s, env::System(), x, 0.0, 1.0 * sg, (size_t)T, rec, max_step_checker(500)); else integrate_n_steps(s, env::System(), x, 0.0, 1.0 * sg, (size_t)T, rec); }
        else { std::vector<double> ts; for (int i = 0; i <= T; i++) ts.push_back(i * sg); if (lim) integrate_times(s, env::System(), x, ts, 1.0 * sg, rec, max_step_checker(500)); else integrate_times(s, env::System(), x, ts.begin(), ts.end(), 1.0 * sg, rec); }
    } catch (std::exception& e) { mc::fail("spurious-error" + kk, "error although no step is rejected more than ", per, " times: ", e.what()); }
    MC_CHECK(env::near(x[0], (fn == 0 ? T * 8 : T) * sg), "final-state" + kk, "ended at ", x[0]);
    mc::state(mc::mix(fn * 10 + per, o.size())); mc::outcome(o.size());
}
#endif

int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> b;
#ifdef P01
    b.push_back({"const", body_const}); b.push_back({"const_long", body_long<false>}); b.push_back({"const_odd", odd<body_const>});
#endif
#ifdef P02
    b.push_back({"nsteps", body_nsteps}); b.push_back({"nsteps_long", body_long<true>}); b.push_back({"nsteps_odd", odd<body_nsteps>});
#endif
#ifdef P03
    b.push_back({"adaptive", body_adaptive}); b.push_back({"adaptive_odd", odd<body_adaptive>});
#endif
#ifdef P04
    b.push_back({"times", body_times}); b.push_back({"times_odd", odd<body_times>});
#endif
#if defined(P05) && !ITER
    b.push_back({"limit_const", body_limit_const}); b.push_back({"limit_nsteps", body_limit_nsteps}); b.push_back({"limit_times", body_limit_times});
    b.push_back({"stubborn", body_stubborn}); b.push_back({"hiccup", body_hiccup});
#endif
    return mc::run_main(argc, argv, b);
}
