// stepper families run on parallel states and sequentially (C22, C23)
#pragma once
#include <vector>
#include <string>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
namespace ode = boost::numeric::odeint;
typedef std::vector<double> Vec;
typedef std::vector<Vec> Trace;
// every stepper family on states of type S with algebra A; P supplies the problem and the view of a state
template <class S, class A, class P> struct Runs {
    typedef typename P::Obs PObs; typedef typename P::Sys Sys; typedef typename P::Force Force; typedef typename P::Accel Accel;
    typedef double D;
    static std::vector<std::pair<std::string, Trace (*)(S)>> all() {
        std::vector<std::pair<std::string, Trace (*)(S)>> v;
        v.push_back({"euler", plain<ode::euler<S, D, S, D, A>>}); v.push_back({"midpoint", plain<ode::modified_midpoint<S, D, S, D, A>>});
        v.push_back({"rk4", plain<ode::runge_kutta4<S, D, S, D, A>>}); v.push_back({"rk4_classic", plain<ode::runge_kutta4_classic<S, D, S, D, A>>});
        v.push_back({"extrapolation", plain<ode::extrapolation_stepper<4, S, D, S, D, A>>});
        v.push_back({"cash_karp54", err<ode::runge_kutta_cash_karp54<S, D, S, D, A>>}); v.push_back({"cash_karp54_classic", err<ode::runge_kutta_cash_karp54_classic<S, D, S, D, A>>});
        v.push_back({"dopri5", err<ode::runge_kutta_dopri5<S, D, S, D, A>>}); v.push_back({"fehlberg78", err<ode::runge_kutta_fehlberg78<S, D, S, D, A>>});
        v.push_back({"adams_bashforth", plain<ode::adams_bashforth<4, S, D, S, D, A>>}); v.push_back({"abm", plain<ode::adams_bashforth_moulton<3, S, D, S, D, A>>}); v.push_back({"abm8", plain<ode::adams_bashforth_moulton<8, S, D, S, D, A>>});
        v.push_back({"ctrl_cash_karp54", ctrl<ode::runge_kutta_cash_karp54<S, D, S, D, A>>}); v.push_back({"ctrl_dopri5", ctrl<ode::runge_kutta_dopri5<S, D, S, D, A>>}); v.push_back({"ctrl_fehlberg78", ctrl<ode::runge_kutta_fehlberg78<S, D, S, D, A>>});
        v.push_back({"dense_dopri5", dense<ode::runge_kutta_dopri5<S, D, S, D, A>>}); v.push_back({"dense_euler", dense_plain<ode::euler<S, D, S, D, A>>});
        v.push_back({"bulirsch_stoer", bs}); v.push_back({"bulirsch_stoer_dense", bsd});
        v.push_back({"symplectic", symp<ode::symplectic_rkn_sb3a_mclachlan<S, S, D, S, S, D, A>>}); v.push_back({"symplectic_m4", symp<ode::symplectic_rkn_sb3a_m4_mclachlan<S, S, D, S, S, D, A>>}); v.push_back({"symplectic_euler", symp<ode::symplectic_euler<S, S, D, S, S, D, A>>});
        v.push_back({"verlet", verlet});
        return v;
    }
    template <class St> static Trace plain(S x) { Trace t; PObs o = {&t}; St st; ode::integrate_n_steps(st, Sys(), x, 0.0, 0.125, 3, o); t.push_back(P::view(x)); return t; }
    template <class St> static Trace err(S x) { Trace t; St st; S e = x; double tm = 0; for (int i = 0; i < 2; i++, tm += 0.25) { st.do_step(Sys(), x, tm, 0.25, e); t.push_back(P::view(x)); t.push_back(P::view(e)); } return t; }
    template <class St> static Trace ctrl(S x) { Trace t; PObs o = {&t}; ode::integrate_adaptive(ode::make_controlled(1e-4, 1e-4, St()), Sys(), x, 0.0, 1.0, 0.5, o); t.push_back(P::view(x)); return t; }
    template <class St> static Trace dense(S x) { Trace t; PObs o = {&t}; ode::integrate_const(ode::make_dense_output(1e-3, 1e-3, St()), Sys(), x, 0.0, 1.0, 0.375, o); t.push_back(P::view(x)); return t; }
    template <class St> static Trace dense_plain(S x) { Trace t; PObs o = {&t}; ode::dense_output_runge_kutta<St> d; ode::integrate_const(d, Sys(), x, 0.0, 0.5, 0.1875, o); t.push_back(P::view(x)); return t; }
    static Trace bs(S x) { Trace t; PObs o = {&t}; ode::bulirsch_stoer<S, D, S, D, A> st(1e-4, 1e-4); ode::integrate_adaptive(st, Sys(), x, 0.0, 0.5, 0.25, o); t.push_back(P::view(x)); return t; }
    static Trace bsd(S x) { Trace t; PObs o = {&t}; ode::bulirsch_stoer_dense_out<S, D, S, D, A> st(1e-3, 1e-3); ode::integrate_const(st, Sys(), x, 0.0, 0.5, 0.1875, o); t.push_back(P::view(x)); return t; }
    template <class St> static Trace symp(S x) { Trace t; St st; S p = x; double tm = 0; for (int i = 0; i < 2; i++, tm += 0.25) { st.do_step(std::make_pair(Force(), Force()), x, p, tm, 0.25); t.push_back(P::view(x)); t.push_back(P::view(p)); } return t; }
    static Trace verlet(S x) { Trace t; ode::velocity_verlet<S, S, D, S, D, D, A> st; S v = x; double tm = 0; for (int i = 0; i < 3; i++, tm += 0.25) { st.do_step(Accel(), std::make_pair(boost::ref(x), boost::ref(v)), tm, 0.25); t.push_back(P::view(x)); t.push_back(P::view(v)); } return t; }
};
inline Vec start(size_t n) { Vec v; for (size_t i = 0; i < n; i++) v.push_back(0.5 + 0.375 * i - 0.0625 * i * i); return v; }
