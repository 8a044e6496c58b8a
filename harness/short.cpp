// C28: short forms and default settings mean what their long forms say.
#ifndef ITER
#define ITER 0
#endif
#if ITER // the iterator-based implementation of the same functions (same include guards)
#include <boost/numeric/odeint/iterator/integrate/null_observer.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/integrate/observer_collection.hpp>
#endif
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/integrate/observer_collection.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <array>
#include <mc.hpp>
namespace ode = boost::numeric::odeint;
typedef std::vector<std::pair<std::string, mc::Body>> Bodies; typedef std::vector<double> vec; typedef std::vector<std::vector<long double>> Log;
static int g_problem; static long g_calls; static int g_sign;
struct Sys { template <class X, class D, class T> void operator()(const X &x, D &d, T t_) const { if (++g_calls > 30000) throw mc::Budget(); typedef typename std::decay<decltype(x[0])>::type V; V t = V(t_) * V(g_sign); V a = x[0], b = x[1], p, q; switch (g_problem) {
    case 0: p = b; q = -a; break; case 1: p = -a + std::sin(3 * t); q = V(0.5) * a - V(2) * b; break; case 2: p = b; q = V(3) * (1 - a * a) * b - a; break; case 3: p = V(-40) * (a - std::cos(t)); q = a - b; break; default: p = 1 / (1 + t * t); q = 2 * t; } d[0] = V(g_sign) * p; d[1] = V(g_sign) * q; } };
struct Jac { template <class X, class J, class T> void operator()(const X &x, J &j, T t_, X &dt) const { double t = t_; double a = x[0], b = x[1]; j(0, 0) = j(0, 1) = j(1, 0) = j(1, 1) = dt[0] = dt[1] = 0; switch (g_problem) {
    case 0: j(0, 1) = 1; j(1, 0) = -1; break; case 1: j(0, 0) = -1; dt[0] = 3 * std::cos(3 * t); j(1, 0) = 0.5; j(1, 1) = -2; break; case 2: j(0, 1) = 1; j(1, 0) = -6 * a * b - 1; j(1, 1) = 3 * (1 - a * a); break; case 3: j(0, 0) = -40; dt[0] = -40 * std::sin(t); j(1, 0) = 1; j(1, 1) = -1; break; default: dt[0] = -2 * t / ((1 + t * t) * (1 + t * t)); dt[1] = 2; } } };
struct Obs { Log *l; template <class X, class T> void operator()(const X &x, const T &t) const { l->push_back({(long double)x[0], (long double)x[1], (long double)t}); } };
template <class X> static void start(X &x) { x[0] = 1.25; x[1] = -0.5; }
template <class V> static void start(std::vector<V> &x) { x.resize(2); x[0] = V(1.25); x[1] = V(-0.5); }
static void start(boost::numeric::ublas::vector<double> &x) { x.resize(2); x[0] = 1.25; x[1] = -0.5; }
static std::string show(const std::vector<long double> &v) { std::string s = "("; for (auto d : v) s += mc::fmt(d, " "); return s + ")"; }
static void same(const std::string &key, const Log &a, const Log &b, const char *sa, const char *sb) {
    for (size_t i = 0; i < std::min(a.size(), b.size()); i++) { for (size_t j = 0; j < a[i].size(); j++) if (!(a[i][j] == b[i][j] || (a[i][j] != a[i][j] && b[i][j] != b[i][j]))) mc::fail(key, "entry ", i, ": ", sa, " gives ", show(a[i]), ", ", sb, " ", show(b[i])); for (auto d : a[i]) mc::outcome(mc::hash_double(d)); }
    MC_CHECK(a.size() == b.size(), key, sa, " gives ", a.size(), " entries, ", sb, " ", b.size()); }
template <class X> static void last(Log &l, const X &x, long double n) { l.push_back({(long double)x[0], (long double)x[1], n}); }
// ---- integrate --------------------------------------------------------------------------------------------------------------------------
#if ITER // has no forms with an explicit value type
template <class V, class X, class T> static size_t with_value(int, X &, T, T, T, Obs) { return 0; }
#else
template <class V, class X, class T> static size_t with_value(int form, X &x, T t0, T t1, T dt, Obs ob) { return form == 2 ? ode::integrate<V>(Sys(), x, t0, t1, dt, ob) : ode::integrate<V>(Sys(), x, t0, t1, dt); }
#endif
template <class X, class V, class T> static void shorthand(const char *nm, std::true_type has_value) {
    int form = mc::choose(ITER ? 2 : 4); g_problem = mc::choose(5); g_sign = 1; mc::shard_point(); int dir = mc::choose(2) ? -1 : 1;
    T t0 = T(mc::choose_from(std::vector<double>{0, 0.3, -2, 100})), t1 = t0 + dir * T(mc::choose_from(std::vector<double>{1, 0.37, 4, 1e-3, 0})), dt = dir * T(mc::choose_from(std::vector<double>{0.1, 1e-3, 1, 10}));
    mc::ctx(mc::fmt("integrate ", nm, " form ", form, " problem ", g_problem, " from ", t0, " to ", t1, " dt ", dt)); mc::transition();
    typedef ode::runge_kutta_dopri5<X, V, X, T> D; Log a, b; X x; start(x); X y(x); size_t n = 0, m = 0; g_calls = 0; bool ea = false, eb = false;
    try { n = form == 0 ? ode::integrate(Sys(), x, t0, t1, dt, Obs{&a}) : form == 1 ? ode::integrate(Sys(), x, t0, t1, dt) : with_value<V>(form, x, t0, t1, dt, Obs{&a}); } catch (std::exception &) { ea = true; }
    long ca = g_calls; g_calls = 0; if (form & 1) a.clear();
    try { m = ode::integrate_adaptive(ode::make_controlled(V(1e-6), V(1e-6), D()), Sys(), y, t0, t1, dt, Obs{&b}); } catch (std::exception &) { eb = true; }
    std::string key = mc::fmt("integrate:", nm, "/form", form); if (form & 1) b.clear(); last(a, x, n); last(b, y, m); last(a, x, ea); last(b, y, eb); last(a, x, ca); last(b, y, g_calls);
    same(key, a, b, "integrate", "integrate_adaptive with a controlled Dormand-Prince stepper");
}
// ---- without observer ------------------------------------------------------------------------------------------------------------------
template <class Mk, class X, class Sy> static void unobserved(const char *nm, const Mk &mk, Sy sy) {
    int fn = mc::choose(3); g_problem = mc::choose(5); mc::shard_point(); g_sign = 1; int dir = mc::choose(2) ? -1 : 1; double t0 = mc::choose_from(std::vector<double>{0, 0.3, -2}), len = mc::choose_from(std::vector<double>{1, 0.37, 0.05, 0}), dt = dir * mc::choose_from(std::vector<double>{0.1, 0.3, 0.01}), t1 = t0 + dir * len;
    if (std::string(nm) == "rosenbrock4" && dir < 0) throw mc::Skip();
    mc::ctx(mc::fmt("without observer: ", nm, " function ", fn, " problem ", g_problem, " from ", t0, " to ", t1, " dt ", dt)); mc::transition();
    Log r[3]; for (int v = 0; v < 3; v++) { X x; start(x); Log seen; g_calls = 0; double ret = 0; Obs ob = {&seen};
        switch (fn) { case 0: ret = v == 0 ? ode::integrate_const(mk(), sy, x, t0, t1, dt) : v == 1 ? ode::integrate_const(mk(), sy, x, t0, t1, dt, ode::null_observer()) : ode::integrate_const(mk(), sy, x, t0, t1, dt, ob); break;
            case 1: ret = v == 0 ? ode::integrate_n_steps(mk(), sy, x, t0, dt, 7) : v == 1 ? ode::integrate_n_steps(mk(), sy, x, t0, dt, 7, ode::null_observer()) : ode::integrate_n_steps(mk(), sy, x, t0, dt, 7, ob); break;
            default: ret = v == 0 ? ode::integrate_adaptive(mk(), sy, x, t0, t1, dt) : v == 1 ? ode::integrate_adaptive(mk(), sy, x, t0, t1, dt, ode::null_observer()) : ode::integrate_adaptive(mk(), sy, x, t0, t1, dt, ob); }
        last(r[v], x, ret); last(r[v], x, g_calls); }
    std::string key = mc::fmt("unobserved:", nm, "/function", fn); same(key, r[0], r[1], "without observer", "with null_observer"); if (ITER && fn == 0) return; /* makes its own steps to the end when nobody observes */ same(key, r[0], r[2], "without observer", "with an observer");
}
// ---- default-constructed error control ----------------------------------------------------------------------------------------------------
template <class X, class Sy, class A, class B> static void trials(const char *nm, const A &mka, const B &mkb, Sy sy) {
    g_problem = mc::choose(5); mc::shard_point(); g_sign = 1; double t0 = mc::choose_from(std::vector<double>{0, 0.3}), dt0 = mc::choose_from(std::vector<double>{0.1, 1.0, 1e-3, 30.0, -0.2}); if (std::string(nm) == "rosenbrock4" && dt0 < 0) throw mc::Skip();
    mc::ctx(mc::fmt("defaults of ", nm, " problem ", g_problem, " t0=", t0, " dt=", dt0)); mc::transition(); Log a, b;
    { auto st = mka(); X x; start(x); double t = t0, dt = dt0; g_calls = 0; for (int i = 0; i < 12; i++) { a.push_back({(long double)st.try_step(sy, x, t, dt), dt, t}); last(a, x, g_calls); } }
    { auto st = mkb(); X x; start(x); double t = t0, dt = dt0; g_calls = 0; for (int i = 0; i < 12; i++) { b.push_back({(long double)st.try_step(sy, x, t, dt), dt, t}); last(b, x, g_calls); } }
    same(mc::fmt("defaults:", nm), a, b, "the default stepper", "the one with tolerances 1e-6");
}
template <class X, class Sy, class A, class B> static void dense(const char *nm, const A &mka, const B &mkb, Sy sy) {
    g_problem = mc::choose(5); mc::shard_point(); g_sign = 1; double t0 = mc::choose_from(std::vector<double>{0, 0.3}), dt0 = mc::choose_from(std::vector<double>{0.1, 1.0, 1e-3, 30.0, -0.2}); if (std::string(nm) == "dense.rosenbrock4" && dt0 < 0) throw mc::Skip();
    mc::ctx(mc::fmt("defaults of ", nm, " problem ", g_problem, " t0=", t0, " dt=", dt0)); mc::transition(); Log a, b;
    { auto st = mka(); X x; start(x); st.initialize(x, t0, dt0); g_calls = 0; for (int i = 0; i < 8; i++) { st.do_step(sy); st.calc_state(0.3 * st.previous_time() + 0.7 * st.current_time(), x); last(a, x, g_calls); last(a, st.current_state(), st.current_time()); } }
    { auto st = mkb(); X x; start(x); st.initialize(x, t0, dt0); g_calls = 0; for (int i = 0; i < 8; i++) { st.do_step(sy); st.calc_state(0.3 * st.previous_time() + 0.7 * st.current_time(), x); last(b, x, g_calls); last(b, st.current_state(), st.current_time()); } }
    same(mc::fmt("defaults:", nm), a, b, "the default stepper", "the one with tolerances 1e-6");
}
// ---- limits -------------------------------------------------------------------------------------------------------------------------------
template <class C, class E> static long allowed(C &c) { for (long i = 0; i < 5000; i++) try { c(); } catch (E &) { return i; } return -1; }
static void limits() {
    int kind = mc::choose(2), before = mc::choose_from(std::vector<int>{0, 1, 499, 500}); mc::ctx(mc::fmt("default limit of checker ", kind, " after ", before, " calls")); mc::transition();
    if (kind == 0) { ode::max_step_checker c; for (int i = 0; i < before; i++) c(); long n = allowed<ode::max_step_checker, ode::no_progress_error>(c); MC_CHECK(n + before == 500, "limit:max_step_checker", "allowed ", n + before, " steps"); c.reset(); ode::max_step_checker d(c); n = allowed<ode::max_step_checker, ode::no_progress_error>(d); MC_CHECK(n == 500, "limit:max_step_checker-reset", "allowed ", n, " steps after a reset"); }
    else { ode::failed_step_checker c; for (int i = 0; i < before; i++) c(); long n = allowed<ode::failed_step_checker, ode::step_adjustment_error>(c); MC_CHECK(n + before == 500, "limit:failed_step_checker", "allowed ", n + before, " trials"); c.reset(); ode::failed_step_checker d(c); n = allowed<ode::failed_step_checker, ode::step_adjustment_error>(d); MC_CHECK(n == 500, "limit:failed_step_checker-reset", "allowed ", n, " trials after a reset"); }
    mc::outcome(before * 2 + kind);
}
// ---- observer collections -------------------------------------------------------------------------------------------------------------
static void collection() {
    typedef ode::observer_collection<vec, double> C; int n = mc::choose(5), fn = mc::choose(4), way = mc::choose(3); mc::shard_point(); g_problem = mc::choose(5); g_sign = 1; std::vector<std::pair<int, std::vector<long double>>> got; C c; const C &cc = c;
    mc::ctx(mc::fmt("collection of ", n, " observers, function ", fn, " way ", way)); mc::transition();
    for (int i = 0; i < n; i++) c.observers().push_back([&got, i](const vec &x, const double &t) { got.push_back({i, {x[0], x[1], t}}); });
    MC_CHECK((int)cc.observers().size() == n, "collection:size", "holds ", cc.observers().size());
    Log ref; vec x; start(x); vec y(x); auto st = ode::make_controlled(1e-4, 1e-4, ode::runge_kutta_cash_karp54<vec>()); std::vector<double> ts = {0, 0.2, 0.9, 1.0};
    auto go = [&](vec &z, auto ob) { switch (fn) { case 0: ode::integrate_const(st, Sys(), z, 0.0, 1.0, 0.3, ob); break; case 1: ode::integrate_n_steps(st, Sys(), z, 0.0, 0.3, 3, ob); break; case 2: ode::integrate_adaptive(st, Sys(), z, 0.0, 1.0, 0.3, ob); break; default: ode::integrate_times(st, Sys(), z, ts, 0.1, ob); } };
    if (way == 0) go(x, c); else if (way == 1) go(x, boost::ref(c)); else { C d(c); go(x, std::ref(d)); }
    go(y, Obs{&ref}); MC_CHECK(got.size() == ref.size() * n, "collection:calls", "the observers were called ", got.size(), " times for ", ref.size(), " observations and ", n, " observers");
    for (size_t i = 0; i < got.size(); i++) { MC_CHECK(got[i].first == int(i % n), "collection:order", "call ", i, " went to observer ", got[i].first); MC_CHECK(got[i].second == ref[i / n], "collection:value", "call ", i, " had ", show(got[i].second), " instead of ", show(ref[i / n])); mc::outcome(mc::hash_double(got[i].second[0])); }
}
typedef ode::runge_kutta_cash_karp54<vec> CK; typedef ode::runge_kutta_cash_karp54_classic<vec> CKC; typedef ode::runge_kutta_dopri5<vec> DP; typedef ode::runge_kutta_fehlberg78<vec> F78; typedef boost::numeric::ublas::vector<double> uvec; typedef ode::rosenbrock4<double> R4; typedef ode::rosenbrock4_controller<R4> RC;
int main(int argc, char **argv) {
    Bodies B;
#if GROUP == 1
#define I(NM, X, V, T) B.push_back({std::string("integrate.") + NM, [] { shorthand<X, V, T>(NM, std::true_type()); }});
    typedef std::array<double, 2> arr; typedef boost::array<float, 2> farr;
    I("vector", vec, double, double) I("array", arr, double, double) I("float", std::vector<float>, float, float) I("float_double_time", farr, float, double) I("long_double", std::vector<long double>, long double, long double)
    B.push_back({"limits", limits}); B.push_back({"collection", collection});
#elif GROUP == 2
#define U(NM, X, SY, ...) B.push_back({std::string("unobserved.") + NM, [] { auto mk = [] { return __VA_ARGS__; }; unobserved<decltype(mk), X>(NM, mk, SY); }});
    U("euler", vec, Sys(), ode::euler<vec>()) U("rk4", vec, Sys(), ode::runge_kutta4<vec>()) U("dopri5", vec, Sys(), DP()) U("adams_bashforth", vec, Sys(), ode::adams_bashforth<3, vec>()) U("controlled_cash_karp54", vec, Sys(), ode::make_controlled(1e-5, 1e-5, CK())) U("controlled_dopri5", vec, Sys(), ode::make_controlled(1e-5, 1e-5, DP())) U("dense_dopri5", vec, Sys(), ode::make_dense_output(1e-5, 1e-5, DP())) U("dense_euler", vec, Sys(), ode::dense_output_runge_kutta<ode::euler<vec>>())
    U("bulirsch_stoer", vec, Sys(), ode::bulirsch_stoer<vec>(1e-5, 1e-5)) U("dense_bulirsch_stoer", vec, Sys(), ode::bulirsch_stoer_dense_out<vec>(1e-5, 1e-5)) U("rosenbrock4", uvec, std::make_pair(Sys(), Jac()), RC(1e-5, 1e-5))
#else
#define D_(NM, X, SY, A, ...) B.push_back({std::string("defaults.") + NM, [] { trials<X>(NM, [] { return A(); }, [] { return __VA_ARGS__; }, SY); }});
#define E_(NM, X, SY, A, ...) B.push_back({std::string("defaults.") + NM, [] { dense<X>(NM, [] { return A(); }, [] { return __VA_ARGS__; }, SY); }});
    typedef ode::controlled_runge_kutta<CK> c1; typedef ode::controlled_runge_kutta<DP> c2; typedef ode::controlled_runge_kutta<F78> c3; typedef ode::controlled_runge_kutta<CKC> c4; typedef ode::bulirsch_stoer<vec> bs; typedef ode::bulirsch_stoer_dense_out<vec> bd; typedef ode::adaptive_adams_bashforth_moulton<4, vec> am; typedef ode::controlled_adams_bashforth_moulton<am> ca;
    D_("cash_karp54", vec, Sys(), c1, ode::make_controlled(1e-6, 1e-6, CK())) D_("dopri5", vec, Sys(), c2, c2(c2::error_checker_type(1e-6, 1e-6, 1.0, 1.0), c2::step_adjuster_type(0.0))) D_("fehlberg78", vec, Sys(), c3, ode::make_controlled(1e-6, 1e-6, F78())) D_("cash_karp54_classic", vec, Sys(), c4, ode::make_controlled(1e-6, 1e-6, CKC()))
    D_("rosenbrock4", uvec, std::make_pair(Sys(), Jac()), RC, RC(1e-6, 1e-6)) D_("bulirsch_stoer", vec, Sys(), bs, bs(1e-6, 1e-6, 1.0, 1.0, 0.0)) D_("controlled_abm4", vec, Sys(), ca, ca(ca::step_adjuster_type(1e-6, 1e-6, 1.0)))
    typedef ode::dense_output_runge_kutta<c2> d2; typedef ode::rosenbrock4_dense_output<RC> rd;
    E_("dense.dopri5", vec, Sys(), d2, ode::make_dense_output(1e-6, 1e-6, DP())) E_("dense.rosenbrock4", uvec, std::make_pair(Sys(), Jac()), rd, rd(RC(1e-6, 1e-6))) E_("dense.bulirsch_stoer", vec, Sys(), bd, bd(1e-6, 1e-6, 1.0, 1.0, 0.0, false))
#endif
    return mc::run_main(argc, argv, B);
}
