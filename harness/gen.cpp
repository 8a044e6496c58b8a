// C25: what make_controlled / make_dense_output return behaves exactly like the steppers built directly: tolerances in the
// right roles, the maximal step size enforced, the passed stepper's own configuration kept; tighter tolerances accept less.
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <mc.hpp>
namespace ode = boost::numeric::odeint;
typedef std::vector<double> vec; typedef boost::numeric::ublas::vector<double> uvec; typedef boost::numeric::ublas::matrix<double> umat;
static bool thorough() { return mc::E().tier == "thorough"; }
// an algebra that counts what it does: the configuration of a stepper
struct tagged_algebra : ode::range_algebra { long *n; explicit tagged_algebra(long *n_ = 0) : n(n_) {} void hit() { if (n) ++*n; }
    template <class A, class B, class O> void for_each2(A &a, B &b, O o) { hit(); range_algebra::for_each2(a, b, o); }
    template <class A, class B, class C, class O> void for_each3(A &a, B &b, C &c, O o) { hit(); range_algebra::for_each3(a, b, c, o); }
    template <class A, class B, class C, class D, class O> void for_each4(A &a, B &b, C &c, D &d, O o) { hit(); range_algebra::for_each4(a, b, c, d, o); }
    template <class A, class B, class C, class D, class E, class O> void for_each5(A &a, B &b, C &c, D &d, E &e, O o) { hit(); range_algebra::for_each5(a, b, c, d, e, o); }
    template <class A, class B, class C, class D, class E, class F, class O> void for_each6(A &a, B &b, C &c, D &d, E &e, F &f, O o) { hit(); range_algebra::for_each6(a, b, c, d, e, f, o); }
    template <class A, class B, class C, class D, class E, class F, class G, class O> void for_each7(A &a, B &b, C &c, D &d, E &e, F &f, G &g, O o) { hit(); range_algebra::for_each7(a, b, c, d, e, f, g, o); }
    template <class A, class B, class C, class D, class E, class F, class G, class H, class O> void for_each8(A &a, B &b, C &c, D &d, E &e, F &f, G &g, H &h, O o) { hit(); range_algebra::for_each8(a, b, c, d, e, f, g, h, o); }
    template <class A, class B, class C, class D, class E, class F, class G, class H, class I, class O> void for_each9(A &a, B &b, C &c, D &d, E &e, F &f, G &g, H &h, I &i, O o) { hit(); range_algebra::for_each9(a, b, c, d, e, f, g, h, i, o); }
    template <class S> static typename ode::norm_result_type<S>::type norm_inf(const S &s) { return ode::range_algebra::norm_inf(s); }
};
// ---- problems: every component matters to the error in its own way -------------------------------------------------------------
struct F { int p; template <class X, class D> void operator()(const X &x, D &d, double t) const {
    switch (p) { case 0: d[0] = x[1] + 0.25 * t; d[1] = -4 * x[0] + 0.5 * x[0] * x[0] * x[0] * 1e-3; break; case 1: d[0] = 3 * x[0]; d[1] = -x[1] * std::sin(3 * t); break;
                 case 2: d[0] = 1e-3 * x[1]; d[1] = -9e3 * x[0] + std::cos(7 * t); break; default: d[0] = std::sin(11 * t) * x[0]; d[1] = 2 - 5 * x[1]; } } };
struct J { int p; template <class M> void operator()(const uvec &x, M &m, const double &t, uvec &dt) const {
    dt[0] = dt[1] = 0; m(0, 0) = m(0, 1) = m(1, 0) = m(1, 1) = 0;
    switch (p) { case 0: m(0, 1) = 1; m(1, 0) = -4 + 1.5e-3 * x[0] * x[0]; dt[0] = 0.25; break; case 1: m(0, 0) = 3; m(1, 1) = -std::sin(3 * t); dt[1] = -3 * x[1] * std::cos(3 * t); break;
                 case 2: m(0, 1) = 1e-3; m(1, 0) = -9e3; dt[1] = -7 * std::sin(7 * t); break; default: m(0, 0) = std::sin(11 * t); dt[0] = 11 * std::cos(11 * t) * x[0]; m(1, 1) = -5; } } };
template <class X> X init(int p) { X x(2); static const double v[4][2] = {{1, 0.5}, {1e-6, 3}, {2, 1e3}, {40, 0}}; x[0] = v[p][0]; x[1] = v[p][1]; return x; }
struct Plain { typedef vec state; typedef F sys; static sys make(int p) { F f = {p}; return f; } };
struct Impl { typedef uvec state; typedef std::pair<F, J> sys; static sys make(int p) { F f = {p}; J j = {p}; return sys(f, j); } };
template <class X> vec V(const X &x) { return vec(x.begin(), x.end()); }
static bool same(const vec &a, const vec &b) { for (size_t i = 0; i < a.size(); i++) if (!mc::same_bits_or_nan(a[i], b[i])) return false; return a.size() == b.size(); }
struct Cfg { double a, r, dt, lim, s; int p; };
static Cfg config() {
    static const vec ea = {1e-3, 1e-6, 1e-9, 1}, er = {1e-2, 1e-5, 1e-8, 0}, h = {0.001, 0.1, 2, 0.02}, l = {0, 0.05, 0.6, 1e-3}; int n = thorough() ? 4 : 3; Cfg c;
    c.a = ea[mc::choose(4)]; c.r = er[mc::choose(4)]; c.p = mc::choose(4); mc::shard_point(); c.s = mc::choose(2) ? -1 : 1; c.lim = c.s * l[mc::choose(n)]; c.dt = c.s * h[mc::choose(n)]; return c;
}
static std::string show(const char *nm, const Cfg &c) { return mc::fmt(nm, " problem ", c.p, " abs ", c.a, " rel ", c.r, " dt ", c.dt, " max_dt ", c.lim); }
// ---- independent error measures of one trial ------------------------------------------------------------------------------------
template <class St> double measure_rk(const F &f, const Cfg &c, const vec &x, double t, double dt) {
    St s; vec d(2), o(2), e(2); f(x, d, t); s.do_step(f, x, d, t, o, dt, e); double m = 0; for (int i = 0; i < 2; i++) m = std::max(m, std::fabs(e[i]) / (c.a + c.r * (std::fabs(x[i]) + std::fabs(dt) * std::fabs(d[i])))); return m;
}
template <class St> struct RkMeasure { template <class X> static double error(const Plain::sys &f, const Cfg &c, const X &x, double t, double dt) { return measure_rk<St>(f, c, x, t, dt); } };
template <> struct RkMeasure<ode::runge_kutta_dopri5<vec>> { template <class X> static double error(const Plain::sys &f, const Cfg &c, const X &x, double t, double dt) {
    ode::runge_kutta_dopri5<vec> s; vec d(2), q(2), o(2), e(2); f(x, d, t); s.do_step(f, x, d, t, o, q, dt, e); double m = 0; for (int i = 0; i < 2; i++) m = std::max(m, std::fabs(e[i]) / (c.a + c.r * (std::fabs(x[i]) + std::fabs(dt) * std::fabs(d[i])))); return m; } };
struct RosMeasure { template <class X> static double error(const Impl::sys &f, const Cfg &c, const X &x, double t, double dt) {
    ode::rosenbrock4<double> s; uvec o(2), e(2), y = x; s.do_step(f, y, t, o, dt, e); double m = 0; for (int i = 0; i < 2; i++) { double k = c.a + c.r * std::max(std::fabs(x[i]), std::fabs(o[i])); m += e[i] * e[i] / k / k; } return std::sqrt(m / 2); } };
struct NoMeasure { template <class S, class X> static double error(const S &, const Cfg &, const X &, double, double) { return -1; } };
static bool undecided(double e) { return e < 0 || e != e || std::fabs(e - 1) < 1e-7; }
// ---- controlled: generated next to direct ---------------------------------------------------------------------------------------
template <class P, class Ms, class Gen, class Dir> void trials(const char *nm, Gen gen, Dir dir, double slack, bool tol0 = true) {
    Cfg c = config(); if (!tol0 && c.r == 0) throw mc::Skip(); int over = mc::choose(c.lim != 0 ? 2 : 2); mc::ctx(show(nm, c) + mc::fmt(" overload ", over)); std::string k = mc::fmt(":", nm);
    auto g = gen(c, over); auto d = dir(c); auto tight = gen(Cfg{c.a / 8, c.r / 8, c.dt, c.lim, c.s, c.p}, over); auto loose_a = gen(Cfg{c.a * 4, c.r, c.dt, c.lim, c.s, c.p}, over); auto loose_r = gen(Cfg{c.a, c.r * 4, c.dt, c.lim, c.s, c.p}, over);
    typename P::sys sys = P::make(c.p); typename P::state x = init<typename P::state>(c.p), y = x; double t = 0.25, u = t, dt = c.dt, du = dt; int acc = 0;
    { typename P::state z = x; double tz = t, dz = dt; bool in = tight.try_step(sys, z, tz, dz) == ode::success; typename P::state z1 = x, z2 = x, z3 = x; double t1 = t, t2 = t, t3 = t, d1 = dt, d2 = dt, d3 = dt; auto mid = gen(c, over); bool im = mid.try_step(sys, z1, t1, d1) == ode::success, ia = loose_a.try_step(sys, z2, t2, d2) == ode::success, ir = loose_r.try_step(sys, z3, t3, d3) == ode::success; mc::transition();
      MC_CHECK((!in || im) && (!im || ia) && (!im || ir), "monotone" + k, show(nm, c), ": the first trial is ", in ? "accepted" : "refused", " with tolerances an eighth, ", im ? "accepted" : "refused", " as given, ", ia ? "accepted" : "refused", " with four times the absolute, ", ir ? "accepted" : "refused", " with four times the relative tolerance"); }
    int n = thorough() ? 16 : 10;
    for (int i = 0; i < n; i++) {
        if (mc::deviate(2)) { double q = mc::choose(2) ? 8 : 0.0625; dt *= q; du *= q; }
        double t0 = t, d0 = dt; double e = Ms::error(sys, c, x, t, dt); bool over_lim = c.lim != 0 && std::fabs(dt) > std::fabs(c.lim);
        bool a = g.try_step(sys, x, t, dt) == ode::success, b = d.try_step(sys, y, u, du) == ode::success; mc::transition(); acc += a;
        MC_CHECK(a == b && mc::same_bits_or_nan(t, u) && mc::same_bits_or_nan(dt, du) && same(V(x), V(y)), "differs" + k, show(nm, c), ": trial ", i, " generated: ", a ? "accepted" : "refused", " t ", t, " dt ", dt, " x ", mc::show(V(x)), ", built directly: ", b ? "accepted" : "refused", " t ", u, " dt ", du, " x ", mc::show(V(y)));
        if (over_lim) { MC_CHECK(!a || std::fabs(d0) <= std::fabs(c.lim) * slack, "limit" + k, show(nm, c), ": trial ", i, " accepts a step of ", d0); }
        else if (!undecided(e)) MC_CHECK(a == (e < 1), "acceptance" + k, show(nm, c), ": trial ", i, " at ", t0, " with ", d0, " has error ", e, " in units of the tolerance and is ", a ? "accepted" : "refused");
        if (c.lim != 0) MC_CHECK(std::fabs(dt) <= std::fabs(c.lim) * (1 + 1e-12) || !over_lim && !a && std::fabs(dt) <= std::fabs(d0), "limit-proposed" + k, show(nm, c), ": trial ", i, " proposes ", dt);
        if (!(std::fabs(x[0]) < 1e100)) break;
    }
    mc::outcome(mc::mix(acc, mc::hash_double(dt)));
}
// ---- dense output ---------------------------------------------------------------------------------------------------------------
template <class P, class Ms, class Gen, class Dir> void denses(const char *nm, Gen gen, Dir dir) {
    Cfg c = config(); int over = mc::choose(2); mc::ctx(show(nm, c) + mc::fmt(" overload ", over)); std::string k = mc::fmt(":", nm); auto g = gen(c, over); auto d = dir(c); typename P::sys sys = P::make(c.p); typename P::state x = init<typename P::state>(c.p), y = x, z = x; g.initialize(x, 0.25, c.dt); d.initialize(x, 0.25, c.dt);
    for (int i = 0; i < (thorough() ? 12 : 6); i++) {
        if (mc::deviate(2)) { x = g.current_state(); double t = g.current_time(), h = g.current_time_step() * 8; g.initialize(x, t, h); d.initialize(x, t, h); }
        x = g.current_state(); std::pair<double, double> a, b; bool fa = false, fb = false; try { a = g.do_step(sys); } catch (const std::overflow_error &) { fa = true; } try { b = d.do_step(sys); } catch (const std::overflow_error &) { fb = true; } mc::transition();
        MC_CHECK(fa == fb, "gives-up" + k, show(nm, c), ": step ", i, fa ? " the generated stepper gives up" : " the directly built stepper gives up"); if (fa) break;
        MC_CHECK(mc::same_bits_or_nan(a.first, b.first) && mc::same_bits_or_nan(a.second, b.second) && same(V(g.current_state()), V(d.current_state())) && mc::same_bits_or_nan(g.current_time_step(), d.current_time_step()), "differs" + k, show(nm, c), ": step ", i, " generated [", a.first, ",", a.second, "] next ", g.current_time_step(), ", built directly [", b.first, ",", b.second, "] next ", d.current_time_step());
        double h = a.second - a.first, e = Ms::error(sys, c, x, a.first, h); if (c.lim != 0) MC_CHECK(std::fabs(h) <= std::fabs(c.lim) * (1 + 1e-9), "limit" + k, show(nm, c), ": step ", i, " covers ", h);
        if (!undecided(e) && std::fabs(h) > 1e-9) MC_CHECK(e < 1 + 1e-4, "acceptance" + k, show(nm, c), ": step ", i, " over [", a.first, ",", a.second, "] has error ", e, " in units of the tolerance");
        for (int q = 1; q < 4; q++) { double t = a.first + q * h / 4; g.calc_state(t, y); d.calc_state(t, z); MC_CHECK(same(V(y), V(z)), "dense" + k, show(nm, c), ": states at ", t, " differ"); }
        if (!(std::fabs(x[0]) < 1e100)) break;
    }
    mc::outcome(mc::hash_double(g.current_time()));
}
// ---- the configuration of the passed stepper ---------------------------------------------------------------------------------
template <class S, class Gen> void tagged(const char *nm, Gen gen, bool dense) {
    int over = mc::choose(2); long used = 0; tagged_algebra al(&used); S s(al); Cfg c = {1e-6, 1e-6, 0.01, over ? 0.5 : 0, 1, mc::choose(4)}; mc::ctx(mc::fmt(nm, " overload ", over)); auto g = gen(c, s); long before = used; F f = {c.p}; vec x = init<vec>(c.p); double t = 0, dt = 0.01; mc::transition(); g(f, x, t, dt);
    MC_CHECK(used > before, mc::fmt("configuration:", nm), nm, ": the generated stepper does not use the algebra object of the stepper it was made from"); mc::outcome(used);
}
// ---- steppers of the user: registered with get_controller / get_dense_output -------------------------------------------------------
struct Mine { typedef double value_type; typedef float time_type; int id; explicit Mine(int i = 7) : id(i) {} };
struct MyControlled { double a, r; float m; int id; int how; MyControlled(double a_, double r_, const Mine &s) : a(a_), r(r_), m(-1), id(s.id), how(1) {} MyControlled(double a_, double r_, float m_, const Mine &s) : a(a_), r(r_), m(m_), id(s.id), how(2) {} };
struct MyDense { double a, r; float m; int id; int how; MyDense(double a_, double r_, const Mine &s) : a(a_), r(r_), m(-1), id(s.id), how(1) {} MyDense(double a_, double r_, float m_, const Mine &s) : a(a_), r(r_), m(m_), id(s.id), how(2) {} };
// a user's error stepper whose answers depend on its own settings: default factory of controlled_runge_kutta
struct custom { typedef vec state_type; typedef vec deriv_type; typedef double value_type; typedef double time_type; typedef unsigned short order_type; typedef ode::range_algebra algebra_type; typedef ode::default_operations operations_type; typedef ode::initially_resizer resizer_type; typedef ode::state_wrapper<vec> wrapped_state_type; typedef ode::state_wrapper<vec> wrapped_deriv_type; typedef ode::explicit_error_stepper_tag stepper_category;
    double bias, scale; explicit custom(double b = 0, double s = 1) : bias(b), scale(s) {} order_type order() const { return 2; } order_type stepper_order() const { return 2; } order_type error_order() const { return 1; } algebra_type al; algebra_type &algebra() { return al; } template <class X> void adjust_size(const X &) {}
    template <class Sys, class X, class D, class O, class E> void do_step(Sys, const X &x, const D &d, double, O &o, double dt, E &e) { for (int i = 0; i < 2; i++) { o[i] = x[i] + dt * d[i] + bias; e[i] = scale * (i + 1); } } };
// a different time type: the limit must arrive in it
typedef ode::runge_kutta_cash_karp54<std::vector<float>, float, std::vector<float>, double> mixed_time;
namespace boost { namespace numeric { namespace odeint {
template <> struct get_controller<Mine> { typedef MyControlled type; }; template <> struct get_dense_output<Mine> { typedef MyDense type; }; template <> struct get_controller<custom> { typedef controlled_runge_kutta<custom> type; };
} } }
static void roles() {
    static const vec v = {1e-3, 1e-6, 0.25, 3}; double a = v[mc::choose(4)], r = v[mc::choose(4)]; float m = mc::choose(2) ? 0.125f : -2.5f; int id = mc::choose(3); mc::ctx(mc::fmt("roles abs ", a, " rel ", r, " max ", m, " id ", id)); Mine s(id); mc::transition();
    auto q = [&](const char *nm, double ga, double gr, float gm, int gid, int how, int eh, int eid) { MC_CHECK(ga == a && gr == r && how == eh && (eh == 1 || gm == m) && gid == eid, mc::fmt("roles:", nm), nm, " passes abs ", ga, " rel ", gr, " max ", gm, " stepper ", gid, " to the constructor with ", how == 1 ? "3" : "4", " arguments; called with abs ", a, " rel ", r, " max ", m, " stepper ", eid); };
    { auto c = ode::make_controlled(a, r, s); q("make_controlled(a,r,s)", c.a, c.r, c.m, c.id, c.how, 1, id); } { auto c = ode::make_controlled(a, r, m, s); q("make_controlled(a,r,max,s)", c.a, c.r, c.m, c.id, c.how, 2, id); }
    { auto c = ode::make_controlled<Mine>(a, r); q("make_controlled<S>(a,r)", c.a, c.r, c.m, c.id, c.how, 1, 7); } { auto c = ode::make_controlled<Mine>(a, r, m); q("make_controlled<S>(a,r,max)", c.a, c.r, c.m, c.id, c.how, 2, 7); }
    { auto c = ode::make_dense_output(a, r, s); q("make_dense_output(a,r,s)", c.a, c.r, c.m, c.id, c.how, 1, id); } { auto c = ode::make_dense_output(a, r, m, s); q("make_dense_output(a,r,max,s)", c.a, c.r, c.m, c.id, c.how, 2, id); }
    { auto c = ode::make_dense_output<Mine>(a, r); q("make_dense_output<S>(a,r)", c.a, c.r, c.m, c.id, c.how, 1, 7); } { auto c = ode::make_dense_output<Mine>(a, r, m); q("make_dense_output<S>(a,r,max)", c.a, c.r, c.m, c.id, c.how, 2, 7); }
    mc::outcome(id);
}
static void customs() {
    static const vec ea = {1e-3, 0.5, 2}, er = {0, 0.25, 1}, sc = {1e-3, 0.4, 1, 8}, bi = {0, 0.25}, l = {0, 0.05, 0.5}, h = {0.05, 0.125, 1}, mag = {0, 1, 100}; double a = ea[mc::choose(3)], r = er[mc::choose(3)], s = sc[mc::choose(4)], b = bi[mc::choose(2)], m = l[mc::choose(3)], dt = h[mc::choose(3)]; vec x = {mag[mc::choose(3)], -mag[mc::choose(3)]}; double sg = mc::choose(2) ? -1 : 1; m *= sg; dt *= sg;
    mc::ctx(mc::fmt("custom stepper abs ", a, " rel ", r, " scale ", s, " bias ", b, " max ", m, " dt ", dt, " x ", mc::show(x))); custom st(b, s); auto c = m != 0 ? ode::make_controlled(a, r, m, st) : ode::make_controlled(a, r, st); mc::transition();
    auto f = [](const vec &, vec &d, double) { d[0] = 2; d[1] = -4; }; double err = 0; for (int i = 0; i < 2; i++) err = std::max(err, s * (i + 1) / (a + r * (std::fabs(x[i]) + std::fabs(dt) * (i ? 4 : 2)))); vec y = x; double t = 1, d = dt; bool ok = c.try_step(f, y, t, d) == ode::success;
    if (m != 0 && std::fabs(dt) > std::fabs(m)) { MC_CHECK(!ok && d == m && t == 1 && y == x, "limit:custom", "a trial of ", dt, " with a limit of ", m, " returns ", ok ? "success" : "fail", " and proposes ", d); return; }
    if (std::fabs(err - 1) < 1e-9) return; MC_CHECK(ok == (err < 1), "acceptance:custom", "a trial with error ", err, " in units of the tolerance is ", ok ? "accepted" : "refused");
    if (ok) { MC_CHECK(y[0] == x[0] + dt * 2 + b && y[1] == x[1] - dt * 4 + b && t == 1 + dt, "configuration:custom", "the step leads to ", mc::show(y), ", the passed stepper's settings are lost"); }
    double want = dt; if (err > 1) want = dt * std::max(0.2, 0.0); if (err < 0.5) { double e = std::max(err, std::pow(5.0, -2)); want = dt * 0.9 * std::pow(e, -0.5); if (m != 0 && std::fabs(want) > std::fabs(m)) want = m; }
    if (err < 1) MC_CHECK(mc::close(d, want, 1e-12), "dt:custom", "the next step size is ", d, ", expected ", want); mc::outcome(mc::hash_double(d));
}
static void times() {
    // a limit that a float cannot hold: steps of exactly this size are allowed
    double m = 0.1, dt = 0.1 * (mc::choose(2) ? 1 : 0.5); int over = mc::choose(3); mc::ctx(mc::fmt("limit in the time type, dt ", dt, " overload ", over)); mc::transition(); auto f = [](const std::vector<float> &, std::vector<float> &d, double) { d[0] = 1; };
    auto c = over == 0 ? ode::make_controlled(1e-2f, 1e-2f, m, mixed_time()) : over == 1 ? ode::make_controlled<mixed_time>(1e-2f, 1e-2f, m) : ode::controlled_runge_kutta<mixed_time>(ode::controlled_runge_kutta<mixed_time>::error_checker_type(1e-2f, 1e-2f), ode::controlled_runge_kutta<mixed_time>::step_adjuster_type(m)); 
    for (int i = 0; i < 4; i++) { std::vector<float> x(1, 1.f); double t = 0, d = dt; bool ok = c.try_step(f, x, t, d) == ode::success; MC_CHECK(ok && t == dt, "limit-type", "a step of ", dt, " with a limit of ", m, " is refused"); MC_CHECK(d <= m, "limit-type-proposed", "proposes ", mc::fmt(d - m), " above the limit"); dt = d; }
    mc::outcome(over);
}
// a first step just above the limit: refused by every generated controller
template <class S> void just_above(const char *nm) {
    static const vec q = {1.01, 1.05, 1.2, 4}; double f = q[mc::choose(4)], m = mc::choose(2) ? 0.05 : -0.05, dt = m * f; mc::ctx(mc::fmt(nm, " limit ", m, " step ", dt)); auto g = ode::make_controlled(0.1, 0.1, m, S()); vec x = init<vec>(0); double t = 0, d = dt; F sys = {0}; mc::transition();
    bool ok = g.try_step(sys, x, t, d) == ode::success; mc::outcome(ok); MC_CHECK(!ok, mc::fmt("above-limit:", nm, "/", f, "*max_dt"), "the first step of ", dt, " is accepted, the maximal step size is ", m);
}
#ifdef UNITS
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/si/io.hpp>
#include <boost/fusion/container.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
namespace un = boost::units; namespace si = boost::units::si; typedef un::quantity<si::time, double> tq; typedef un::quantity<si::length, double> lq; typedef un::quantity<si::velocity, double> vq; typedef un::quantity<si::acceleration, double> aq;
typedef boost::fusion::vector<lq, vq> ust; typedef boost::fusion::vector<vq, aq> ude;
template <class S> static void units(const char *nm) {
    static const vec ea = {1e-3, 1e-6}, l = {0.05, 0.6}, h = {0.01, 0.3, 2}; double a = ea[mc::choose(2)], r = ea[mc::choose(2)], m = l[mc::choose(2)], dt = h[mc::choose(3)]; mc::ctx(mc::fmt(nm, " with units abs ", a, " rel ", r, " max ", m, " dt ", dt)); 
    auto f = [](const ust &x, ude &d, tq) { boost::fusion::at_c<0>(d) = boost::fusion::at_c<1>(x); boost::fusion::at_c<1>(d) = -4.0 * si::hertz * si::hertz * boost::fusion::at_c<0>(x); };
    auto g = ode::make_controlled(a, r, m * si::seconds, S()); typedef ode::controlled_runge_kutta<S> C; C d(typename C::error_checker_type(a, r), typename C::step_adjuster_type(m * si::seconds)); ust x(1.0 * si::meter, 0.5 * si::meter_per_second), y = x; tq t(0.0 * si::second), u = t, p(dt * si::second), q = p;
    for (int i = 0; i < 8; i++) { tq p0 = p; bool s1 = g.try_step(f, x, t, p) == ode::success, s2 = d.try_step(f, y, u, q) == ode::success; mc::transition(); MC_CHECK(s1 == s2 && t == u && p == q && boost::fusion::at_c<0>(x) == boost::fusion::at_c<0>(y), mc::fmt("differs:units:", nm), "trial ", i, " differs from the directly built stepper"); MC_CHECK(!s1 || p0.value() <= m, mc::fmt("limit:units:", nm), "a step of ", p0.value(), " is accepted"); MC_CHECK(p.value() <= m * (1 + 1e-12), mc::fmt("limit-proposed:units:", nm), "proposes ", p.value()); }
    mc::outcome(mc::hash_double(t.value()));
}
#endif
int main(int argc, char **argv) {
    std::vector<std::pair<std::string, mc::Body>> b;
#ifdef UNITS
    typedef ode::runge_kutta_cash_karp54_classic<ust, double, ude, tq> U1; typedef ode::runge_kutta_dopri5<ust, double, ude, tq> U2;
    b.push_back({"units.cash_karp54_classic", [] { units<U1>("cash_karp54_classic"); }}); b.push_back({"units.dopri5", [] { units<U2>("dopri5"); }});
#else
#define RK(NAME, ...) { typedef __VA_ARGS__ S; typedef ode::controlled_runge_kutta<S> C; \
        auto gen = [](const Cfg &c, int o) { return c.lim == 0 ? (o ? ode::make_controlled<S>(c.a, c.r) : ode::make_controlled(c.a, c.r, S())) : (o ? ode::make_controlled<S>(c.a, c.r, c.lim) : ode::make_controlled(c.a, c.r, c.lim, S())); }; \
        auto dir = [](const Cfg &c) { return C(C::error_checker_type(c.a, c.r), C::step_adjuster_type(c.lim), S()); }; b.push_back({"controlled." NAME, [gen, dir] { trials<Plain, RkMeasure<S>>(NAME, gen, dir, 1); }}); }
    RK("cash_karp54", ode::runge_kutta_cash_karp54<vec>) RK("cash_karp54_classic", ode::runge_kutta_cash_karp54_classic<vec>) RK("dopri5", ode::runge_kutta_dopri5<vec>) RK("fehlberg78", ode::runge_kutta_fehlberg78<vec>)
    { typedef ode::rosenbrock4<double> S; typedef ode::rosenbrock4_controller<S> C; auto gen = [](const Cfg &c, int o) { return c.lim == 0 ? (o ? ode::make_controlled<S>(c.a, c.r) : ode::make_controlled(c.a, c.r, S())) : (o ? ode::make_controlled<S>(c.a, c.r, c.lim) : ode::make_controlled(c.a, c.r, c.lim, S())); };
      auto dir = [](const Cfg &c) { return c.lim == 0 ? C(c.a, c.r, S()) : C(c.a, c.r, c.lim, S()); }; b.push_back({"controlled.rosenbrock4", [gen, dir] { trials<Impl, RosMeasure>("rosenbrock4", gen, dir, 1); }});
      typedef ode::rosenbrock4_dense_output<C> D; auto dgen = [](const Cfg &c, int o) { return c.lim == 0 ? (o ? ode::make_dense_output<S>(c.a, c.r) : ode::make_dense_output(c.a, c.r, S())) : (o ? ode::make_dense_output<S>(c.a, c.r, c.lim) : ode::make_dense_output(c.a, c.r, c.lim, S())); };
      auto ddir = [dir](const Cfg &c) { return D(dir(c)); }; b.push_back({"dense.rosenbrock4", [dgen, ddir] { denses<Impl, RosMeasure>("rosenbrock4", dgen, ddir); }}); }
    { typedef ode::runge_kutta_dopri5<vec> S; typedef ode::controlled_runge_kutta<S> C; typedef ode::dense_output_runge_kutta<C> D; auto gen = [](const Cfg &c, int o) { return c.lim == 0 ? (o ? ode::make_dense_output<S>(c.a, c.r) : ode::make_dense_output(c.a, c.r, S())) : (o ? ode::make_dense_output<S>(c.a, c.r, c.lim) : ode::make_dense_output(c.a, c.r, c.lim, S())); };
      auto dir = [](const Cfg &c) { return D(C(C::error_checker_type(c.a, c.r), C::step_adjuster_type(c.lim), S())); }; b.push_back({"dense.dopri5", [gen, dir] { denses<Plain, RkMeasure<S>>("dopri5", gen, dir); }}); }
#define ABM(N) { typedef ode::adaptive_adams_bashforth_moulton<N, vec> S; typedef ode::controlled_adams_bashforth_moulton<S> C; typedef C::step_adjuster_type A; auto gen = [](const Cfg &c, int o) { return c.lim == 0 ? (o ? ode::make_controlled<S>(c.a, c.r) : ode::make_controlled(c.a, c.r, S())) : (o ? ode::make_controlled<S>(c.a, c.r, c.lim) : ode::make_controlled(c.a, c.r, c.lim, S())); }; \
      auto dir = [](const Cfg &c) { return c.lim == 0 ? C(A(c.a, c.r)) : C(A(c.a, c.r, c.lim)); }; b.push_back({"controlled.abm" #N, [gen, dir] { trials<Plain, NoMeasure>("abm" #N, gen, dir, 1 / 0.9 * (1 + 1e-12)); }}); }
    ABM(3) ABM(5)
#define TAG(NAME, ...) { typedef __VA_ARGS__ S; b.push_back({"tagged." NAME, [] { tagged<S>(NAME, [](const Cfg &c, const S &s) { auto q = c.lim == 0 ? ode::make_controlled(c.a, c.r, s) : ode::make_controlled(c.a, c.r, c.lim, s); return [q](F f, vec &x, double &t, double &dt) mutable { q.try_step(f, x, t, dt); }; }, false); }}); }
    TAG("cash_karp54", ode::runge_kutta_cash_karp54<vec, double, vec, double, tagged_algebra>) TAG("cash_karp54_classic", ode::runge_kutta_cash_karp54_classic<vec, double, vec, double, tagged_algebra>) TAG("dopri5", ode::runge_kutta_dopri5<vec, double, vec, double, tagged_algebra>) TAG("fehlberg78", ode::runge_kutta_fehlberg78<vec, double, vec, double, tagged_algebra>) TAG("abm3", ode::adaptive_adams_bashforth_moulton<3, vec, double, vec, double, tagged_algebra>)
    { typedef ode::runge_kutta_dopri5<vec, double, vec, double, tagged_algebra> S; b.push_back({"tagged.dense.dopri5", [] { tagged<S>("dense.dopri5", [](const Cfg &c, const S &s) { auto q = c.lim == 0 ? ode::make_dense_output(c.a, c.r, s) : ode::make_dense_output(c.a, c.r, c.lim, s); return [q](F f, vec &x, double &t, double &dt) mutable { q.initialize(x, t, dt); q.do_step(f); }; }, true); }}); }
    b.push_back({"above.dopri5", [] { just_above<ode::runge_kutta_dopri5<vec>>("dopri5"); }}); b.push_back({"above.abm3", [] { just_above<ode::adaptive_adams_bashforth_moulton<3, vec>>("abm3"); }}); b.push_back({"above.abm5", [] { just_above<ode::adaptive_adams_bashforth_moulton<5, vec>>("abm5"); }});
    b.push_back({"roles", roles}); b.push_back({"custom", customs}); b.push_back({"times", times});
#endif
    return mc::run_main(argc, argv, b);
}
