// Adaptors giving every stepper of the library a uniform "operation" interface, so that the
// explorer can enumerate operation sequences over all of them.
//   Traj  : what the user holds (state, time, step size)
//   A::op : performs operation k on stepper and trajectory through one of the public overloads and
//           appends everything the user can see to `o`
#ifndef VERIF_ZOO_HPP
#define VERIF_ZOO_HPP
#include "mc.hpp"
#include <utility>
#include <functional>
#include <memory>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
namespace zoo {
namespace ode = boost::numeric::odeint;
typedef std::vector<double> vec;
typedef boost::numeric::ublas::vector<double> uvec;
typedef boost::numeric::ublas::matrix<double> umat;
typedef std::vector<double> Obs;

struct Calls { long n; double tmin, tmax; };
inline Calls& calls() { static Calls c = {0, 1e300, -1e300}; return c; }
inline void called(double t) { Calls& c = calls(); c.n++; if (t < c.tmin) c.tmin = t; if (t > c.tmax) c.tmax = t; mc::tick(); }
inline void reset_calls() { calls() = Calls{0, 1e300, -1e300}; }

// non-linear, coupled, explicitly time dependent, mildly contractive; defined for every size
struct Sys {
    double a; explicit Sys(double aa = 0) : a(aa) {}
    template <class X, class D> void operator()(const X& x, D& d, double t) const {
        called(t); size_t n = x.size();
        for (size_t i = 0; i < n; i++) d[i] = std::cos((1.3 + a) * t + 0.7 * i) - x[i] * (0.5 + 0.25 * x[(i + 1) % n]);
    }
};
struct Jac {
    double a; explicit Jac(double aa = 0) : a(aa) {}
    void fill(const uvec& x, umat& J) const {
        size_t n = x.size(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) J(i, j) = 0;
        for (size_t i = 0; i < n; i++) { J(i, i) -= 0.5 + 0.25 * x[(i + 1) % n]; J(i, (i + 1) % n) -= 0.25 * x[i]; }
    }
    void operator()(const uvec& x, umat& J, double t, uvec& dfdt) const { fill(x, J); for (size_t i = 0; i < x.size(); i++) dfdt[i] = -(1.3 + a) * std::sin((1.3 + a) * t + 0.7 * i); }
    void operator()(const uvec& x, umat& J, double) const { fill(x, J); }
};
struct CoorF { template <class P, class D> void operator()(const P& p, D& d) const { mc::tick(); for (size_t i = 0; i < p.size(); i++) d[i] = p[i] * (1.0 + 0.1 * i); } };
struct MomF { double a; explicit MomF(double aa = 0) : a(aa) {} template <class Q, class D> void operator()(const Q& q, D& d) const { mc::tick(); size_t n = q.size(); for (size_t i = 0; i < n; i++) d[i] = -(1.0 + a) * std::sin(q[i]) + 0.3 * q[(i + 1) % n]; } };
struct Acc { double a; explicit Acc(double aa = 0) : a(aa) {} template <class Q, class P, class A> void operator()(const Q& q, const P& p, A& acc, double t) const { mc::tick(); size_t n = q.size(); for (size_t i = 0; i < n; i++) acc[i] = -(1.0 + a) * std::sin(q[i]) + 0.3 * q[(i + 1) % n] + 0.1 * std::cos(t) - 0.05 * p[i]; } };

template <class V> struct Traj { V x, p; double t, dt, a; bool failed, stepped; };
template <class V> Traj<V> start(int which, size_t n, double dt) {
    Traj<V> T; T.x = V(n); T.p = V(n); T.failed = T.stepped = false;
    for (size_t i = 0; i < n; i++) { T.x[i] = which == 0 ? 0.8 + 0.3 * i : (which == 1 ? -0.4 + 0.25 * i : 1.7 - 0.2 * i); T.p[i] = which == 0 ? 0.3 - 0.1 * i : 0.1 * i - 0.2; }
    T.t = which == 0 ? 0.25 : (which == 1 ? -1.5 : 3.0); T.dt = dt; T.a = which == 2 ? 0.5 : 0.0; return T;
}
template <class V> void put(Obs& o, const V& v) { for (size_t i = 0; i < v.size(); i++) o.push_back(v[i]); }
template <class V> void put_traj(Obs& o, const Traj<V>& T) { put(o, T.x); o.push_back(T.t); o.push_back(T.dt); }
template <class V> V like(const V& v, double fill) { V r(v.size()); for (size_t i = 0; i < r.size(); i++) r[i] = fill; return r; }
template <class V> bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!mc::same_bits_or_nan(a[i], b[i])) return false; return true; }
template <class V> void untouched(const V& before, const V& after, const char* what) { if (!same(before, after)) mc::fail(std::string("input-modified:") + what, "the call modified its input ", what); }
inline bool same_obs(const Obs& a, const Obs& b) { return same(a, b); }
inline bool close_obs(const Obs& a, const Obs& b, double tol) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!mc::close(a[i], b[i], tol)) return false; return true; }

template <class V> void judge_trial(Traj<V>& T_, ode::controlled_step_result r, double t0, double dt0, Obs& o) {
    T_.failed = r == ode::fail;
    if (T_.failed) {
        if (T_.t != t0) mc::fail("time-moved-on-reject", "t moved from ", t0, " to ", T_.t);
        if (!(std::fabs(T_.dt) < std::fabs(dt0)) || T_.dt * dt0 <= 0) mc::fail("reject-does-not-shrink", "rejected step of ", dt0, " proposes ", T_.dt);
    } else if (std::fabs(T_.t - (t0 + dt0)) > 1e-12) mc::fail("accept-advances-wrong", "accepted step of ", dt0, " moved t from ", t0, " to ", T_.t);
    o.push_back(T_.failed ? 1 : 0); put_traj(o, T_);
}
// how the system is handed over
struct by_value { template <class F> static F w(F& f) { return f; } static const char* name() { return "value"; } };
struct by_ref { template <class F> static boost::reference_wrapper<F> w(F& f) { return boost::ref(f); } static const char* name() { return "ref"; } };
struct base { 
    static bool memory() { return false; }           // does the stepper remember earlier calls?
    static bool resizes_itself() { return true; }    // size change needs no restart under always_resizer
    static bool self_restart() { return false; }     // a size change under always_resizer restarts it
    static bool dense() { return false; }
    static int restarts() { return 1; }              // documented ways to start afresh
    template <class S, class T> static void restart_as(S&, T&, int) {}   // ways 1..
    static bool adjustable() { return true; }        // has adjust_size
    static bool controlled() { return false; }
    static int err_op() { return -1; }               // first variant that also returns an error estimate
};

// plain explicit steppers: 0 in place, 1 in place + dxdt, 2 out of place, 3 out of place + dxdt
template <class S> struct explicit_ : base {
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static S make() { return S(); }
    static int ops() { return 4; }
    static void restart(S&, T&) {}
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        Sys f(T_.a); vec d(T_.x.size()), out(like(T_.x, 99)), in(T_.x);
        if (k == 1 || k == 3) f(T_.x, d, T_.t);
        vec d0(d);
        switch (k) {
            case 0: s.do_step(W::w(f), T_.x, T_.t, T_.dt); break;
            case 1: s.do_step(W::w(f), T_.x, d, T_.t, T_.dt); untouched(d0, d, "dxdt"); break;
            case 2: s.do_step(W::w(f), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); T_.x = out; break;
            case 3: s.do_step(W::w(f), in, d, T_.t, out, T_.dt); untouched(T_.x, in, "x"); untouched(d0, d, "dxdt"); T_.x = out; break;
        }
        T_.t += T_.dt; put_traj(o, T_);
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
// error steppers: as above, 4..7 the same with an error estimate
template <class S> struct error_ : base {
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static S make() { return S(); }
    static int err_op() { return 4; }
    static int ops() { return 8; }
    static void restart(S&, T&) {}
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        Sys f(T_.a); vec d(T_.x.size()), out(like(T_.x, 99)), in(T_.x), e(like(T_.x, 77));
        if (k & 1) f(T_.x, d, T_.t);
        vec d0(d);
        switch (k) {
            case 0: s.do_step(W::w(f), T_.x, T_.t, T_.dt); break;
            case 1: s.do_step(W::w(f), T_.x, d, T_.t, T_.dt); untouched(d0, d, "dxdt"); break;
            case 2: s.do_step(W::w(f), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); T_.x = out; break;
            case 3: s.do_step(W::w(f), in, d, T_.t, out, T_.dt); untouched(T_.x, in, "x"); untouched(d0, d, "dxdt"); T_.x = out; break;
            case 4: s.do_step(W::w(f), T_.x, T_.t, T_.dt, e); break;
            case 5: s.do_step(W::w(f), T_.x, d, T_.t, T_.dt, e); untouched(d0, d, "dxdt"); break;
            case 6: s.do_step(W::w(f), in, T_.t, out, T_.dt, e); untouched(T_.x, in, "x"); T_.x = out; break;
            case 7: s.do_step(W::w(f), in, d, T_.t, out, T_.dt, e); untouched(T_.x, in, "x"); untouched(d0, d, "dxdt"); T_.x = out; break;
        }
        T_.t += T_.dt; put_traj(o, T_); if (k >= 4) put(o, e);
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
// first-same-as-last error steppers
template <class S> struct fsal_ : base {
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static bool memory() { return true; } static bool self_restart() { return true; }
    static S make() { return S(); }
    static int err_op() { return 4; }
    static int ops() { return 8; }
    static void restart(S& s, T&) { s.reset(); }
    static int restarts() { return 3; }
    static void restart_as(S& s, T& T_, int r) { Sys f(T_.a); if (r == 1) s.initialize(f, T_.x, T_.t); else { vec d(T_.x.size()); f(T_.x, d, T_.t); s.initialize(d); } if (!s.is_initialized()) mc::fail("initialize", "not initialized after initialize"); }
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        Sys f(T_.a); vec d(T_.x.size()), dn(like(T_.x, 55)), out(like(T_.x, 99)), in(T_.x), e(like(T_.x, 77));
        if (k & 1) f(T_.x, d, T_.t);
        vec d0(d); bool have = false;
        switch (k) {
            case 0: s.do_step(W::w(f), T_.x, T_.t, T_.dt); break;
            case 1: s.do_step(W::w(f), T_.x, d, T_.t, T_.dt); dn = d; have = true; break;
            case 2: s.do_step(W::w(f), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); T_.x = out; break;
            case 3: s.do_step(W::w(f), in, d, T_.t, out, dn, T_.dt); untouched(T_.x, in, "x"); untouched(d0, d, "dxdt"); T_.x = out; have = true; break;
            case 4: s.do_step(W::w(f), T_.x, T_.t, T_.dt, e); break;
            case 5: s.do_step(W::w(f), T_.x, d, T_.t, T_.dt, e); dn = d; have = true; break;
            case 6: s.do_step(W::w(f), in, T_.t, out, T_.dt, e); untouched(T_.x, in, "x"); T_.x = out; break;
            case 7: s.do_step(W::w(f), in, d, T_.t, out, dn, T_.dt, e); untouched(T_.x, in, "x"); untouched(d0, d, "dxdt"); T_.x = out; have = true; break;
        }
        T_.t += T_.dt; put_traj(o, T_); if (k >= 4) put(o, e);
        if (have) { vec g(T_.x.size()); f(T_.x, g, T_.t); for (size_t i = 0; i < g.size(); i++) if (!mc::close(g[i], dn[i], 1e-12)) mc::fail("dxdt-out", "returned derivative is not that of the new state: ", dn[i], " expected ", g[i]); }
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
// multistep
template <class S> struct multistep_ : base {
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static bool memory() { return true; } static bool self_restart() { return true; }
    static S make() { return S(); }
    static int ops() { return 2; }
    static void restart(S& s, T&) { s.reset(); }
    static int restarts() { return 3; }
    static void restart_as(S& s, T& T_, int r) { Sys f(T_.a); if (r == 1) s.initialize(f, T_.x, T_.t, T_.dt); else s.initialize(ode::runge_kutta4<vec>(), f, T_.x, T_.t, T_.dt); }
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        Sys f(T_.a); vec out(like(T_.x, 99)), in(T_.x);
        if (k == 0) s.do_step(W::w(f), T_.x, T_.t, T_.dt); else { s.do_step(W::w(f), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); T_.x = out; }
        T_.t += T_.dt; put_traj(o, T_);
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
// symplectic: state is (x,p)
template <class S> struct symplectic_ : base {
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static S make() { return S(); }
    static int ops() { return 6; }
    static void restart(S&, T&) {}
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        CoorF fq; MomF fp(T_.a); std::pair<CoorF, MomF> sys(fq, fp); vec qo(like(T_.x, 9)), po(like(T_.x, 9)); 
        std::pair<vec, vec> in(T_.x, T_.p), out(qo, po);
        switch (k) {
            case 0: s.do_step(W::w(sys), in, T_.t, T_.dt); T_.x = in.first; T_.p = in.second; break;
            case 1: s.do_step(W::w(sys), in, T_.t, out, T_.dt); untouched(T_.x, in.first, "q"); untouched(T_.p, in.second, "p"); T_.x = out.first; T_.p = out.second; break;
            case 2: s.do_step(W::w(sys), T_.x, T_.p, T_.t, T_.dt); break;
            case 3: s.do_step(std::make_pair(std::ref(fq), std::ref(fp)), std::make_pair(std::ref(T_.x), std::ref(T_.p)), T_.t, T_.dt); break;
            case 4: s.do_step(boost::ref(sys), in, T_.t, T_.dt); T_.x = in.first; T_.p = in.second; break;
            case 5: { const std::pair<vec, vec> cin(in); s.do_step(W::w(sys), cin, T_.t, out, T_.dt); T_.x = out.first; T_.p = out.second; break; }
        }
        T_.t += T_.dt; put_traj(o, T_); put(o, T_.p);
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
struct verlet_base : base {};
template <class S> struct verlet_ : base {
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static bool memory() { return true; } static bool self_restart() { return true; }
    static S make() { return S(); }
    static int ops() { return 3; }
    static void restart(S& s, T&) { s.reset(); }
    static int restarts() { return 3; }
    static void restart_as(S& s, T& T_, int r) { Acc f(T_.a); if (r == 1) s.initialize(f, T_.x, T_.p, T_.t); else { vec a(T_.x.size()); f(T_.x, T_.p, a, T_.t); s.initialize(a); } }
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        Acc f(T_.a); std::pair<vec, vec> in(T_.x, T_.p);
        if (k == 0) { s.do_step(W::w(f), in, T_.t, T_.dt); T_.x = in.first; T_.p = in.second; }
        else if (k == 1) { s.do_step(W::w(f), std::make_pair(std::ref(T_.x), std::ref(T_.p)), T_.t, T_.dt); }
        else { s.do_step(std::ref(f), in, T_.t, T_.dt); T_.x = in.first; T_.p = in.second; }
        T_.t += T_.dt; put_traj(o, T_); put(o, T_.p);
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
template <class S> struct rosen_ : base {
    typedef S stepper; typedef uvec V; typedef Traj<uvec> T;
    static S make() { return S(); }
    static int err_op() { return 2; }
    static int ops() { return 4; }
    static void restart(S&, T&) {}
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        auto sys = std::make_pair(Sys(T_.a), Jac(T_.a)); uvec in(T_.x), out(like(T_.x, 9)), e(like(T_.x, 9));
        switch (k) {
            case 0: s.do_step(W::w(sys), T_.x, T_.t, T_.dt); break;
            case 1: s.do_step(W::w(sys), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); T_.x = out; break;
            case 2: s.do_step(W::w(sys), T_.x, T_.t, T_.dt, e); break;
            case 3: s.do_step(W::w(sys), in, T_.t, out, T_.dt, e); untouched(T_.x, in, "x"); T_.x = out; break;
        }
        T_.t += T_.dt; put_traj(o, T_); if (k >= 2) put(o, e);
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
template <class S> struct implicit_ : base {
    typedef S stepper; typedef uvec V; typedef Traj<uvec> T;
    static S make() { return S(1e-11); }
    static int ops() { return 2; }
    static void restart(S&, T&) {}
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        auto sys = std::make_pair(Sys(T_.a), Jac(T_.a));
        if (k == 0) s.do_step(W::w(sys), T_.x, T_.t, T_.dt); else s.do_step(std::ref(sys), T_.x, T_.t, T_.dt);
        T_.t += T_.dt; put_traj(o, T_);
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
// step-size controlled
struct ctrl_kind_rk {}; struct ctrl_kind_fsal {}; struct ctrl_kind_bs {};
template <class S, class Kind> struct ctrl_ : base {
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static const bool FSAL = std::is_same<Kind, ctrl_kind_fsal>::value;
    static const bool Reset = !std::is_same<Kind, ctrl_kind_rk>::value;
    static bool memory() { return Reset; }
    static bool controlled() { return true; }
    static S make() { return S(); }
    static int ops() { return 4; }
    static void rst(S& s, std::true_type) { s.reset(); }
    static void rst(S&, std::false_type) {}
    static void restart(S& s, T&) { rst(s, std::integral_constant<bool, Reset>()); }
    static bool self_restart() { return true; }
    static int restarts() { return FSAL ? 3 : 1; }
    static void ini(S& s, T& T_, int r, std::true_type) { Sys f(T_.a); if (r == 1) s.initialize(f, T_.x, T_.t); else { vec d(T_.x.size()); f(T_.x, d, T_.t); s.initialize(d); } if (!s.is_initialized()) mc::fail("initialize", "not initialized after initialize"); }
    static void ini(S&, T&, int, std::false_type) {}
    static void restart_as(S& s, T& T_, int r) { ini(s, T_, r, std::integral_constant<bool, FSAL>()); }
    template <class F> static ode::controlled_step_result inplace_d(S& s, F f, T& T_, vec& d, std::true_type) { return s.try_step(f, T_.x, d, T_.t, T_.dt); }
    template <class F> static ode::controlled_step_result inplace_d(S& s, F f, T& T_, vec& d, std::false_type) { const vec c(d); return s.try_step(f, T_.x, c, T_.t, T_.dt); }
    template <class F> static ode::controlled_step_result out_d(S& s, F f, T& T_, const vec& in, const vec& d, vec& out, vec& dn, ctrl_kind_fsal) { return s.try_step(f, in, d, T_.t, out, dn, T_.dt); }
    template <class F, class K> static ode::controlled_step_result out_d(S& s, F f, T& T_, const vec& in, const vec& d, vec& out, vec&, K) { return s.try_step(f, in, d, T_.t, out, T_.dt); }
    template <class F> static ode::controlled_step_result inplace_bs(S& s, F f, T& T_, vec& d, ctrl_kind_bs) { (void)d; return s.try_step(f, T_.x, T_.t, T_.dt); }
    template <class F, class K> static ode::controlled_step_result inplace_bs(S& s, F f, T& T_, vec& d, K) { return inplace_d(s, f, T_, d, std::integral_constant<bool, FSAL>()); }
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        Sys f(T_.a); vec in(T_.x), out(like(T_.x, 9)), d(T_.x.size()), dn(like(T_.x, 9)); double t0 = T_.t, dt0 = T_.dt; ode::controlled_step_result r; bool have = false;
        if (k == 1 || k == 3) f(T_.x, d, T_.t);
        vec d0(d);
        switch (k) {
            case 0: r = s.try_step(W::w(f), T_.x, T_.t, T_.dt); break;
            case 1: r = inplace_bs(s, W::w(f), T_, d, Kind()); if (r == ode::fail || !FSAL) untouched(d0, d, "dxdt"); else { dn = d; have = true; } break;
            case 2: r = s.try_step(W::w(f), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); if (r == ode::success) T_.x = out; break;
            case 3: r = out_d(s, W::w(f), T_, in, d, out, dn, Kind()); untouched(T_.x, in, "x"); untouched(d0, d, "dxdt"); if (r == ode::success) { T_.x = out; have = FSAL; } break;
        }
        if (r == ode::fail && k < 2) untouched(in, T_.x, "x of a rejected step");
        if (have) { vec g(T_.x.size()); f(T_.x, g, T_.t); for (size_t i = 0; i < g.size(); i++) if (!mc::close(g[i], dn[i], 1e-12)) mc::fail("dxdt-out", "returned derivative is not that of the new state: ", dn[i], " expected ", g[i]); }
        judge(T_, r, t0, dt0, o);
    }
    static void judge(T& T_, ode::controlled_step_result r, double t0, double dt0, Obs& o) { judge_trial(T_, r, t0, dt0, o); }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
template <class S> struct rosenctrl_ : base {
    typedef S stepper; typedef uvec V; typedef Traj<uvec> T;
    static bool memory() { return true; }
    static bool controlled() { return true; }
    static S make() { return S(1e-4, 1e-4); }
    static int ops() { return 2; }
    static void restart(S& s, T&) { s.~S(); new (&s) S(make()); }   // offers no reset
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        auto sys = std::make_pair(Sys(T_.a), Jac(T_.a)); uvec in(T_.x), out(like(T_.x, 9)); double t0 = T_.t, dt0 = T_.dt; ode::controlled_step_result r;
        if (k == 0) { r = s.try_step(W::w(sys), T_.x, T_.t, T_.dt); if (r == ode::fail) untouched(in, T_.x, "x of a rejected step"); }
        else { r = s.try_step(W::w(sys), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); if (r == ode::success) T_.x = out; }
        judge_trial(T_, r, t0, dt0, o);
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
// variable-step multistep
template <class S> struct aabm_ : base {     // adaptive_adams_bashforth_moulton used directly (error stepper)
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static bool memory() { return true; }
    static bool resizes_itself() { return false; }
    static S make() { return S(); }
    static int err_op() { return 2; }
    static int ops() { return 4; }
    static void restart(S& s, T&) { s.reset(); }
    static int restarts() { return 3; }
    static void restart_as(S& s, T& T_, int r) { Sys f(T_.a); if (r == 1) s.initialize(f, T_.x, T_.t, T_.dt); else s.initialize(ode::runge_kutta4<vec>(), f, T_.x, T_.t, T_.dt); }
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        Sys f(T_.a); vec in(T_.x), out(like(T_.x, 9)), e(like(T_.x, 9));
        switch (k) {
            case 0: s.do_step(W::w(f), T_.x, T_.t, T_.dt); break;
            case 1: s.do_step(W::w(f), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); T_.x = out; break;
            case 2: s.do_step(W::w(f), T_.x, T_.t, T_.dt, e); break;
            case 3: s.do_step(W::w(f), in, T_.t, out, T_.dt, e); untouched(T_.x, in, "x"); T_.x = out; break;
        }
        T_.t += T_.dt; put_traj(o, T_); if (k >= 2) put(o, e);
    }
    template <class X> static void resize(S&, const X&) {}   // there is no adjust_size
    static bool adjustable() { return false; }
};
template <class S> struct cabm_ : base {
    typedef S stepper; typedef vec V; typedef Traj<vec> T;
    static bool memory() { return true; }
    static bool resizes_itself() { return false; }
    static bool controlled() { return true; }
    static S make() { return S(); }
    static int ops() { return 2; }
    static void restart(S& s, T&) { s.reset(); }
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        Sys f(T_.a); vec in(T_.x), out(like(T_.x, 9)); double t0 = T_.t, dt0 = T_.dt; ode::controlled_step_result r;
        if (k == 0) { r = s.try_step(W::w(f), T_.x, T_.t, T_.dt); if (r == ode::fail) untouched(in, T_.x, "x of a rejected step"); }
        else { r = s.try_step(W::w(f), in, T_.t, out, T_.dt); untouched(T_.x, in, "x"); if (r == ode::success) T_.x = out; }
        judge_trial(T_, r, t0, dt0, o);
    }
    template <class X> static void resize(S&, const X&) {}   // there is no adjust_size
    static bool adjustable() { return false; }
};
// dense output; Traj only says where to start
template <class S, class V_, bool Rosen> struct dense_ : base {
    typedef S stepper; typedef V_ V; typedef Traj<V_> T;
    static bool memory() { return true; }
    static bool dense() { return true; }
    static S make() { return S(); }
    static int ops() { return 4; }
    static void restart(S& s, T& T_) { s.initialize(T_.x, T_.t, T_.dt); T_.stepped = false; }
    static std::pair<Sys, Jac> sys(const T& T_, std::true_type) { return std::make_pair(Sys(T_.a), Jac(T_.a)); }
    static Sys sys(const T& T_, std::false_type) { return Sys(T_.a); }
    template <class W> static void op(S& s, int k, T& T_, Obs& o) {
        auto f = sys(T_, std::integral_constant<bool, Rosen>());
        if (k == 0) { std::pair<double, double> iv = s.do_step(W::w(f)); o.push_back(iv.first); o.push_back(iv.second); T_.t = s.current_time(); T_.stepped = true; }
        else if (T_.stepped) {      // queries are defined after a step
            double th = k == 1 ? 0.0 : (k == 2 ? 0.37 : 1.0), a = s.previous_time(), b = s.current_time(); V_ q(T_.x.size());
            s.calc_state(a + th * (b - a), q); put(o, q);
        }
        o.push_back(s.current_time()); o.push_back(s.current_time_step()); put(o, s.current_state());
    }
    template <class X> static void resize(S& s, const X& x) { s.adjust_size(x); }
};
} // namespace zoo
#endif
