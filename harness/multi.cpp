// C12: fixed-step multistep methods: polynomial exactness over all histories of steps, resets,
// re-initialisations, copies, step-size changes at restarts, in-place and out-of-place calls.
#include "mc.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
namespace ode = boost::numeric::odeint;
static bool thorough() { return mc::E().tier == "thorough"; }
// y_k = off_k + (t-c)^k, k = 1..K.  kind 0: y_k' = k (t-c)^(k-1);  kind 1: y_k' = k (y_{k-1} - off_{k-1});  kind 2: products
template <class V> struct Prob {
    typedef std::vector<V> state; int K, kind; V c;
    V off(int k) const { return kind == 0 ? V(0) : V(0.5) - V(0.25) * V(double(k)); }
    static V pw(V t, int k) { V r = V(1); for (int i = 0; i < k; i++) r *= t; return r; }
    void operator()(const state& y, state& d, V t) const { mc::tick(); V s = t - c; d[0] = V(1);
        for (int k = 2; k <= K; k++) d[k - 1] = V(double(k)) * (kind == 0 ? pw(s, k - 1) : kind == 1 ? y[k - 2] - off(k - 1) : k % 2 ? pw(s, 1) * (k > 2 ? y[k - 3] - off(k - 2) : V(1)) : (y[k / 2 - 1] - off(k / 2)) * pw(s, k / 2 - 1)); }
    V exact(int k, V t) const { return off(k) + pw(t - c, k); }
    state at(V t) const { state y(K); for (int k = 1; k <= K; k++) y[k - 1] = exact(k, t); return y; }
};
template <class V> struct ExactStepper { const Prob<V>* p; int* calls; template <class Sys, class X, class D> void do_step_dxdt_impl(Sys, X& x, const D&, V t, V dt) { ++*calls; for (int k = 1; k <= p->K; k++) x[k - 1] = p->exact(k, t + dt); } };
template <class V> double rel(V got, V want, V scale) { using std::abs; return double(V(abs(got - want)) / (V(1) + V(abs(scale)))); }
template <class V> void verify(const Prob<V>& p, const std::vector<V>& x, V t, int kmax, const char* nm, const char* what, double reach) {
    for (int k = 1; k <= kmax; k++) { V sc = Prob<V>::pw(V(1) + V(reach), k); double e = rel(x[k - 1], p.exact(k, t), sc); MC_CHECK(e <= (p.K > 6 ? 100000 : 4000) * double(std::numeric_limits<V>::epsilon()), mc::fmt("exactness:", nm), "solution of degree ", k, " after ", what, " at t=", double(t), " is ", double(x[k - 1]), ", exact ", double(p.exact(k, t)), " (relative error ", e, ")"); }
}
template <class V> V dt_menu(int i) { static const double d[] = {0.25, -0.25, 0.5, -1.0}; return V(d[i]); }
// S: the stepper; exact_start: highest degree its own start-up reproduces
template <class V, class S, int Steps> void history(const char* nm, int degree, int own_start) {
    typedef std::vector<V> state; int kind = mc::choose(3), dk = mc::choose(4); V t = V(mc::choose(2) ? -2.5 : 0.0); int mode = mc::choose(3); mc::shard_point();   // mode: self start, initialize(), initialize(exact stepper)
    Prob<V> p; p.K = degree; p.kind = kind; p.c = t - V(0.5); V dt = dt_menu<V>(dk); int deg = degree;   // how far exactness currently reaches
    std::string cx = mc::fmt(nm, " kind ", kind, " dt ", double(dt), " t0 ", double(t), " operations"); state x = p.at(t), out; double reach = Steps; S s; int calls = 0, depth = 2 * Steps + (thorough() ? 8 : 5); S dead; V td = t; (void)td;
    for (int k = 0; k < depth; k++) {
        // what: 0 step in place, 1 out of place, 2 reset, 3 initialize, 4 initialize(exact), 5 copy, 6 reset + other step size
        int op = k == 0 ? (mode == 0 ? 0 : mode == 1 ? 3 : 4) : mc::deviate(7); mc::transition();
        switch (op) {
            case 0: cx += " step"; mc::ctx(cx); s.do_step(std::cref(p), x, t, dt); t += dt; break;
            case 1: { cx += " step(out)"; mc::ctx(cx); state in(x); out.assign(x.size(), V(77)); s.do_step(std::cref(p), in, t, out, dt); MC_CHECK(in == x, mc::fmt("input-modified:", nm), "out-of-place step changed its input"); x = out; t += dt; break; }
            case 6: dt = dt_menu<V>((++dk) % 4); cx += mc::fmt(" dt=", double(dt));   // fall through
            case 2: cx += " reset"; mc::ctx(cx); s.reset(); break;
            case 3: { cx += " initialize"; mc::ctx(cx); V told = t; s.initialize(std::cref(p), x, t, dt); MC_CHECK(std::fabs(double(t - (told + V(double(Steps - 1)) * dt))) < 1e-12, mc::fmt("initialize-time:", nm), "initialize moved time from ", double(told), " to ", double(t)); break; }
            case 4: { cx += " initialize(exact)"; mc::ctx(cx); V told = t; int c0 = calls; ExactStepper<V> es = {&p, &calls}; s.initialize(es, std::cref(p), x, t, dt); MC_CHECK(std::fabs(double(t - (told + V(double(Steps - 1)) * dt))) < 1e-12 && calls - c0 == Steps - 1, mc::fmt("initialize-time:", nm), "initialize moved time from ", double(told), " to ", double(t), " in ", calls - c0, " steps"); break; }
            case 5: { cx += " copy"; mc::ctx(cx); S c(s); S d; d = c; state y(x); V ty = t + V(3); s.reset(); s.do_step(std::cref(p), y, ty, dt); s = d; break; }
        }
        // an own start that is not exact to this degree limits what can be expected until the next exact start
        if (own_start < degree && (op == 2 || op == 6 || op == 3 || (k == 0 && op == 0))) deg = own_start;
        if (own_start < degree && op == 4) { for (int q = 1; q <= degree; q++) x[q - 1] = p.exact(q, t); deg = degree; if (Steps > 1) { S f; state y = p.at(t - V(double(Steps - 1)) * dt); V ty = t - V(double(Steps - 1)) * dt; ExactStepper<V> es = {&p, &calls}; f.initialize(es, std::cref(p), y, ty, dt); s = f; } }
        reach = std::max(reach, std::fabs(double(t - p.c)) + 1);
        verify(p, x, t, deg, nm, cx.c_str() + (cx.size() > 60 ? cx.size() - 60 : 0), reach);
        mc::state(mc::mix(mc::mix(mc::hash_double(double(t)), mc::hash_double(double(x[0]))), std::hash<std::string>()(cx))); mc::outcome(mc::hash_double(double(x.back())));
    }
}
// Adams-Moulton by itself: the corrector for a given prediction and given earlier derivatives
template <class V, int Steps> void corrector(const char* nm) {
    typedef std::vector<V> state; typedef ode::adams_moulton<Steps, state, V> S; int kind = mc::choose(3); V dt = dt_menu<V>(mc::choose(4)); V t = V(mc::choose(2) ? -2.5 : 0.0); int variant = mc::choose(4); mc::shard_point();
    Prob<V> p; p.K = Steps; p.kind = kind; p.c = t - V(0.5); mc::ctx(mc::fmt(nm, " kind ", kind, " dt ", double(dt), " t ", double(t), " variant ", variant)); S s; if (variant >= 2) { S c(s); s = c; }
    MC_CHECK(int(s.order()) == Steps, mc::fmt("advertised-order:", nm), "order() is ", s.order());
    ode::detail::rotating_buffer<ode::state_wrapper<state>, Steps> buf; int turns = mc::choose(3);
    for (int i = 0; i < Steps; i++) buf[i].m_v.assign(p.K, V(0)); for (int i = 0; i < turns; i++) buf.rotate();
    for (int i = 0; i < Steps; i++) { state y = p.at(t - V(double(i)) * dt); p(y, buf[i].m_v, t - V(double(i)) * dt); }
    state x = p.at(t), pred = p.at(t + dt), out(p.K, V(5)); state x0(x), p0(pred);
    if (variant % 2 == 0) { s.do_step(std::cref(p), x, pred, t + dt, out, dt, buf); MC_CHECK(x == x0, mc::fmt("input-modified:", nm), "input changed"); } else { out = x; s.do_step(std::cref(p), out, pred, t + dt, dt, buf); }
    MC_CHECK(pred == p0, mc::fmt("input-modified:", nm), "prediction changed"); verify(p, out, t + dt, Steps, nm, "one corrector step", 8.0); mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx) + turns); mc::outcome(mc::hash_double(double(out.back())));
}
// not exact one degree higher (the order table is not a trivial one)
template <class V, class S> void sharp(const char* nm, int degree, int Steps, int order) {
    mc::ctx(mc::fmt(nm, " order")); S s; MC_CHECK(int(s.order()) == order, mc::fmt("advertised-order:", nm), "order() is ", s.order(), " documented ", order); Prob<V> p; p.K = degree + 1; p.kind = 0; p.c = V(0); int calls = 0; V t = V(0); std::vector<V> x = p.at(t); ExactStepper<V> es = {&p, &calls}; s.initialize(es, std::cref(p), x, t, V(1)); s.do_step(std::cref(p), x, t, V(1)); mc::transition();
    using std::abs; MC_CHECK(double(abs(V(x[degree] - p.exact(degree + 1, t + V(1))))) > 1e-6, mc::fmt("order-table:", nm), "degree ", degree + 1, " is exact too");
}
typedef long double ld; typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<50>, boost::multiprecision::et_off> mp50;
#ifndef VT
#define VT double
#endif
template <int N> void add(std::vector<std::pair<std::string, mc::Body>>& B) {
    typedef VT V; typedef std::vector<V> st; static std::vector<std::string> names; names.reserve(64); auto nm = [&](const char* a) { names.push_back(mc::fmt(a, N)); return names.back().c_str(); };
    typedef ode::adams_bashforth<N, st, V> AB; typedef ode::adams_bashforth_moulton<N, st, V> ABM; typedef ode::adams_bashforth_moulton<N, st, V, st, V, ode::range_algebra, ode::default_operations, ode::initially_resizer, ode::runge_kutta_fehlberg78<st, V>> ABM78; typedef ode::adams_bashforth<N, st, V, st, V, ode::range_algebra, ode::default_operations, ode::initially_resizer, ode::runge_kutta4<st, V>> AB4;
    const char* a = nm("adams_bashforth"); B.push_back({a, [=] { history<V, AB, N>(a, N, N); }}); B.push_back({std::string(a) + ".sharp", [=] { sharp<V, AB>(a, N, N, N); }});
    const char* a4 = nm("adams_bashforth_rk4_"); B.push_back({a4, [=] { history<V, AB4, N>(a4, N, N < 4 ? N : 4); }});
    // with a predictor of order N the corrector is exact up to degree N for coupled systems
    const char* m = nm("adams_bashforth_moulton"); B.push_back({m, [=] { history<V, ABM, N>(m, N, N < 4 ? N : 4); }});
    const char* m7 = nm("adams_bashforth_moulton_fehlberg78_"); B.push_back({m7, [=] { history<V, ABM78, N>(m7, N, N < 8 ? N : 8); }}); B.push_back({std::string(m) + ".sharp", [=] { sharp<V, ABM>(m, N + 1, N, N); }});
    const char* c = nm("adams_moulton"); B.push_back({c, [=] { corrector<V, N>(c); }});
}
int main(int argc, char** argv) { std::vector<std::pair<std::string, mc::Body>> B; add<1>(B); add<2>(B); add<3>(B); add<4>(B); add<5>(B); add<6>(B); add<7>(B); add<8>(B); return mc::run_main(argc, argv, B); }
