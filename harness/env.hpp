// Environment steppers: concept-conforming steppers whose accept/reject and step-size decisions are
// choice points of the explorer, and whose state carries the exact time it belongs to:
//   x[0] = time the state belongs to, x[1] = accepted steps behind it.
// They check, at every call, that they are used the way the stepper concepts promise.
#ifndef VERIF_ENV_HPP
#define VERIF_ENV_HPP
#include "mc.hpp"
#include <utility>
#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/util/resizer.hpp>

namespace env {
namespace ode = boost::numeric::odeint;
typedef std::vector<double> state;

struct Trial { double t, dt; bool accepted; double next_dt; };
struct World {
    std::vector<Trial> trials;         // every trial step in order (dense: every internal step)
    int accepted = 0, rejected = 0, inits = 0, queries = 0;
    int max_trials = 3000;
    double limit = 1e300;              // if finite: no step may end beyond this time
    double dir = 1;
    bool check_limit = false;
    int variants = 5;                  // size of the decision menu
    int consecutive_rejects = 0;
    bool always_default = false;
    double h0 = 0;                     // nominal step: much smaller steps grow again after acceptance (a fair controller)
    std::vector<int>* script = nullptr; size_t script_pos = 0;   // scripted decisions instead of the explorer
    std::vector<int> decisions;
};
inline World& W() { static World w; return w; }
inline double tol(double a) { return 1e-9 * std::max(1.0, std::fabs(a)); }
inline bool near(double a, double b) { return std::fabs(a - b) <= tol(std::max(std::fabs(a), std::fabs(b))); }

// rounding-sized steps are never rejected or cut (no real controller does, the solution cannot change over them)
inline int decide(double dt) {
    World& w = W(); int c;
    if (w.h0 != 0 && std::fabs(dt) < 1e-9 * std::fabs(w.h0)) return 0;
    if (w.script) c = w.script_pos < w.script->size() ? (*w.script)[w.script_pos++] : 0;
    else if (w.always_default) c = 0;
    else c = mc::deviate(w.variants);
    w.decisions.push_back(c);
    return c;
}
// every real controller enlarges steps that are far smaller than the problem needs
inline double fair(double next) { double h = std::fabs(W().h0); return (h > 0 && std::fabs(next) < h / 64) ? next * 4 : next; }

struct System { void operator()(const state& x, state& dxdt, double t) const { dxdt[0] = 1; dxdt[1] = 0; } };

inline void note_step(double t, double dt) {
    World& w = W(); mc::transition();
    if ((int)w.trials.size() > w.max_trials) throw mc::Budget();
    MC_CHECK(dt != 0 && (dt > 0) == (w.dir > 0), "step-direction", "step of size ", dt, " at t=", t, " against the direction of integration");
    if (w.check_limit) MC_CHECK((t + dt - w.limit) * w.dir <= tol(w.limit), "overshoot", "step from ", t, " by ", dt, " passes the end time ", w.limit);
    mc::state(mc::mix(mc::mix(mc::hash_double(t), mc::hash_double(dt)), w.accepted * 64 + w.rejected));
}

struct simple {
    typedef env::state state_type; typedef double value_type; typedef state deriv_type; typedef double time_type; typedef unsigned short order_type;
    typedef ode::stepper_tag stepper_category; typedef ode::range_algebra algebra_type; typedef ode::default_operations operations_type;
    order_type order() const { return 1; }
    template <class Sys, class S> void do_step(Sys, S& x, double t, double dt) {
        MC_CHECK(near(x[0], t), "state-time-mismatch", "step started at t=", t, " with the state of time ", x[0]);
        note_step(t, dt); W().trials.push_back(Trial{t, dt, true, dt}); W().accepted++;
        mc::log("do_step t=", t, " dt=", dt);
        x[0] = t + dt; x[1] += 1;
    }
};

struct controlled {
    typedef env::state state_type; typedef double value_type; typedef state deriv_type; typedef double time_type; typedef unsigned short order_type;
    typedef ode::controlled_stepper_tag stepper_category;
    template <class Sys, class S> ode::controlled_step_result try_step(Sys, S& x, double& t, double& dt) {
        World& w = W();
        MC_CHECK(near(x[0], t), "state-time-mismatch", "trial step started at t=", t, " with the state of time ", x[0]);
        note_step(t, dt);
        int c = decide(dt); double d = dt;
        switch (c) {
            case 1: dt = d / 2; break;                  // reject, halve
            case 2: dt = d * 2; break;                  // accept, grow
            case 3: dt = d / 2; break;                  // accept, shrink
            case 4: dt = d / 8; break;                  // reject, cut hard
            case 5: dt = d * 4; break;                  // accept, grow much
        }
        bool ok = !(c == 1 || c == 4);
        if (ok) dt = fair(dt);
        w.trials.push_back(Trial{t, d, ok, dt});
        mc::log("try_step t=", t, " dt=", d, ok ? " accepted" : " rejected", " next dt=", dt);
        if (!ok) { w.rejected++; w.consecutive_rejects++; return ode::fail; }
        w.consecutive_rejects = 0; w.accepted++; t += d; x[0] = t; x[1] += 1; return ode::success;
    }
};

struct dense {
    typedef env::state state_type; typedef double value_type; typedef state deriv_type; typedef double time_type;
    typedef ode::dense_output_stepper_tag stepper_category;
    double t_old = 0, t_cur = 0, dt = 0; bool inited = false, stepped = false; state cur, old;
    template <class S> void initialize(const S& x0, double t0, double dt0) {
        MC_CHECK(near(x0[0], t0), "state-time-mismatch", "dense stepper initialised at t=", t0, " with the state of time ", x0[0]);
        mc::log("initialize t0=", t0, " dt0=", dt0);
        cur.assign(x0.begin(), x0.end()); t_cur = t0; dt = dt0; inited = true; stepped = false; if (W().inits++ > 20000) throw mc::Budget();
    }
    template <class Sys> std::pair<double, double> do_step(Sys) {
        World& w = W(); MC_CHECK(inited, "step-before-init", "do_step on an uninitialised dense stepper");
        MC_CHECK(dt != 0, "zero-step", "dense step of size zero at t=", t_cur);
        int c = decide(dt); double d = dt, n = dt;
        switch (c) { case 1: d = dt / 2; n = dt / 2; w.rejected++; break; case 2: n = dt * 2; break; case 3: n = dt / 2; break; case 4: d = dt / 8; n = dt / 4; w.rejected++; break; case 5: n = dt * 4; break; }
        n = fair(n); note_step(t_cur, d);
        old = cur; t_old = t_cur; t_cur = t_cur + d; cur[0] = t_cur; cur[1] += 1; dt = n; stepped = true;
        w.trials.push_back(Trial{t_old, d, true, n}); w.accepted++;
        mc::log("do_step [", t_old, ",", t_cur, "] next dt=", n);
        return std::make_pair(t_old, t_cur);
    }
    template <class S> void calc_state(double t, S& x) const {
        World& w = W(); w.queries++; mc::transition();
        MC_CHECK(stepped, "query-before-step", "dense output queried at t=", t, " before any step was made (last known time ", t_cur, ")");
        double lo = std::min(t_old, t_cur), hi = std::max(t_old, t_cur);
        MC_CHECK(t >= lo - tol(lo) && t <= hi + tol(hi), "extrapolation", "dense output queried at t=", t, " outside the last step [", t_old, ",", t_cur, "]");
        mc::log("calc_state t=", t);
        x[0] = t; x[1] = cur[1];
    }
    template <class S> void calc_state(double t, const S& x) const { calc_state(t, const_cast<S&>(x)); }
    const state& current_state() const { return cur; }
    const state& previous_state() const { return old; }
    double current_time() const { return t_cur; }
    double previous_time() const { return t_old; }
    double current_time_step() const { return dt; }
};

struct Obs { double t, x0; double n; };
struct recorder {
    std::vector<Obs>* o;
    explicit recorder(std::vector<Obs>* p) : o(p) {}
    template <class S> void operator()(const S& x, double t) const {
        mc::tick(); if (o->size() > 20000) throw mc::Budget();
        o->push_back(Obs{t, x[0], x[1]}); mc::log("observe t=", t, " state-time=", x[0], " steps=", x[1]);
    }
};
} // namespace env
#endif
