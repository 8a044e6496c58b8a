// C21: the same system from the same initial values gives the same observations whichever supported state type holds the values.
// One translation unit per container family (macro TYPES); each compares with the std::vector run of the same configuration.
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <complex>
#include <deque>
#include <list>
#include <memory>
#include <mc.hpp>
namespace ode = boost::numeric::odeint;
typedef std::vector<double> vec;
// ---- problems on plain doubles; complex states are pairs of doubles -----------------------------------------------------------
static int g_problem; static long g_calls;
static void rhs(int n, const double *x, double *d, double t) {
    if (++g_calls > 20000) throw mc::Budget();
    for (int i = 0; i < n; i++) { double y = x[(i + 1) % n]; switch (g_problem) {
        case 0: d[i] = 0.7 * y - 0.3 * x[i] + 0.1 * (i + 1) * t; break;
        case 1: d[i] = std::cos(x[i]) * (1 - 0.5 * std::sin(y)) + 0.1 * (i + 1) * y / (1 + y * y); break;
        case 2: d[i] = -(5.0 + 20 * i) * x[i] + std::cos(3 * t) + 0.1 * y; break;
        default: d[i] = (i % 2 ? -1.5 : 1.0) * y * std::sin(t + i) - 0.1 * std::sin(3 * x[i]); } }
}
// accelerations for the symplectic steppers
static void force(int n, const double *q, double *d) { if (++g_calls > 20000) throw mc::Budget(); for (int i = 0; i < n; i++) { double y = q[(i + 1) % n]; d[i] = g_problem % 2 ? -q[i] - 0.1 * q[i] * y : -(1.0 + i) * q[i] + 0.2 * y; } }
static double initial(int i) { static const double v[] = {1, 0.5, -0.25, 1.5, -0.75, 0.125, 0.3, -1.1, 0.9, 0.7, -0.6, 0.45}; return v[i % 12]; }
// ---- containers -------------------------------------------------------------------------------------------------------------------
// D doubles in a state; put/get move them; `same`: bit for bit with the reference container, else tolerance
template <class S, class V = double, class T = double, class Dv = S> struct Base { typedef S state; typedef V value; typedef T time; typedef Dv deriv; static T tm(double t) { return T(t); } static double tmd(const T &t) { return double(t); } static double tol() { return 0; } };
template <class S, class V, int N> struct Seq : Base<S, V> { enum { D = N }; static void init(S &) {} template <class X> static void put(X &x, const double *v) { int i = 0; for (auto it = x.begin(); it != x.end(); ++it) *it = V(v[i++]); } template <class X> static void get(const X &x, double *v) { int i = 0; for (auto it = x.begin(); it != x.end(); ++it) v[i++] = double(*it); } static void fin(S &) {} };
template <class S, class V, int N> struct DynSeq : Seq<S, V, N> { static void init(S &x) { x.resize(N); } };
template <class S, class V, int N> struct CSeq : Seq<S, V, N> { enum { D = 2 * N }; template <class X> static void put(X &x, const double *v) { int i = 0; for (auto it = x.begin(); it != x.end(); ++it, i += 2) *it = V(v[i], v[i + 1]); } template <class X> static void get(const X &x, double *v) { for (auto it = x.begin(); it != x.end(); ++it) { *v++ = it->real(); *v++ = it->imag(); } } };
template <class S, class V, int N> struct DynCSeq : CSeq<S, V, N> { static void init(S &x) { x.resize(N); } };
template <int N> struct Vec : DynSeq<vec, double, N> {}; template <int N> struct VecF : DynSeq<std::vector<float>, float, N> { };
template <int N> struct VecC : DynCSeq<std::vector<std::complex<double>>, std::complex<double>, N> { typedef double value; };
// ---- systems ------------------------------------------------------------------------------------------------------------------------
template <class A> struct Sys { template <class X, class Dv, class T> void operator()(const X &x, Dv &&d, const T &t) const { double a[A::D], b[A::D]; A::get(x, a); rhs(A::D, a, b, A::tmd(t)); A::putd(d, b); } };
template <class A, class = void> struct Fix : A { template <class X> static void putd(X &d, const double *b) { A::put(d, b); } };
template <class A> struct Q { template <class X, class Dv> void operator()(const X &p, Dv &d) const { double a[A::D]; A::get(p, a); A::put(d, a); } };
template <class A> struct P { template <class X, class Dv> void operator()(const X &q, Dv &d) const { double a[A::D], b[A::D]; A::get(q, a); force(A::D, a, b); A::put(d, b); } };
template <class A> struct Acc { template <class X, class Y, class Dv, class T> void operator()(const X &q, const Y &v, Dv &d, const T &t) const { double a[A::D], b[A::D], c[A::D]; A::get(q, a); A::get(v, c); force(A::D, a, b); for (int i = 0; i < A::D; i++) b[i] += 0.1 * A::tmd(t) - 0.05 * c[i]; A::put(d, b); } };
// ---- steppers: 0 plain, 1 controlled, 2 dense ----------------------------------------------------------------------------------------
#define STATE_ARGS typename A::state, typename A::value, typename A::deriv, typename A::time
template <class A> struct val { static double e() { return 1e-5; } };
#define PLAIN(NM, ...) struct NM { enum { kind = 0 }; static const char *name() { return #NM; } template <class A> static __VA_ARGS__ make() { return __VA_ARGS__(); } };
PLAIN(euler, ode::euler<STATE_ARGS>) PLAIN(midpoint, ode::modified_midpoint<STATE_ARGS>) PLAIN(rk4, ode::runge_kutta4<STATE_ARGS>) PLAIN(rk4_classic, ode::runge_kutta4_classic<STATE_ARGS>) PLAIN(ck54, ode::runge_kutta_cash_karp54<STATE_ARGS>) PLAIN(ck54_classic, ode::runge_kutta_cash_karp54_classic<STATE_ARGS>)
PLAIN(dopri5, ode::runge_kutta_dopri5<STATE_ARGS>) PLAIN(fehlberg78, ode::runge_kutta_fehlberg78<STATE_ARGS>) PLAIN(ab3, ode::adams_bashforth<3, STATE_ARGS>) PLAIN(abm2, ode::adams_bashforth_moulton<2, STATE_ARGS>) PLAIN(aabm3, ode::adaptive_adams_bashforth_moulton<3, STATE_ARGS>)
struct extra4 { enum { kind = 0 }; static const char *name() { return "extrapolation4"; } template <class A> static ode::extrapolation_stepper<4, STATE_ARGS> make() { return ode::extrapolation_stepper<4, STATE_ARGS>(); } };
#define CTRL(NM, ...) struct NM { enum { kind = 1 }; static const char *name() { return #NM; } template <class A> static auto make() { return ode::make_controlled(1e-5, 1e-6, __VA_ARGS__()); } };
CTRL(c_ck54, ode::runge_kutta_cash_karp54<STATE_ARGS>) CTRL(c_ck54_classic, ode::runge_kutta_cash_karp54_classic<STATE_ARGS>) CTRL(c_dopri5, ode::runge_kutta_dopri5<STATE_ARGS>) CTRL(c_fehlberg78, ode::runge_kutta_fehlberg78<STATE_ARGS>) CTRL(c_abm4, ode::adaptive_adams_bashforth_moulton<4, STATE_ARGS>)
struct bs { enum { kind = 1 }; static const char *name() { return "bulirsch_stoer"; } template <class A> static ode::bulirsch_stoer<STATE_ARGS> make() { return ode::bulirsch_stoer<STATE_ARGS>(1e-6, 1e-6); } };
struct d_bs { enum { kind = 2 }; static const char *name() { return "bulirsch_stoer_dense"; } template <class A> static ode::bulirsch_stoer_dense_out<STATE_ARGS> make() { return ode::bulirsch_stoer_dense_out<STATE_ARGS>(1e-6, 1e-6); } };
struct d_euler { enum { kind = 2 }; static const char *name() { return "dense_euler"; } template <class A> static ode::dense_output_runge_kutta<ode::euler<STATE_ARGS>> make() { return ode::dense_output_runge_kutta<ode::euler<STATE_ARGS>>(); } };
struct d_dopri5 { enum { kind = 2 }; static const char *name() { return "dense_dopri5"; } template <class A> static auto make() { return ode::make_dense_output(1e-5, 1e-6, ode::runge_kutta_dopri5<STATE_ARGS>()); } };
#define SYM(NM, ...) struct NM { enum { kind = 3 }; static const char *name() { return #NM; } template <class A> static __VA_ARGS__ make() { return __VA_ARGS__(); } };
SYM(symplectic_euler, ode::symplectic_euler<typename A::state, typename A::state, typename A::value>) SYM(rkn_sb3a, ode::symplectic_rkn_sb3a_mclachlan<typename A::state, typename A::state, typename A::value>) SYM(rkn_m4, ode::symplectic_rkn_sb3a_m4_mclachlan<typename A::state, typename A::state, typename A::value>)
struct verlet { enum { kind = 4 }; static const char *name() { return "velocity_verlet"; } template <class A> static ode::velocity_verlet<typename A::state, typename A::state, typename A::value> make() { return ode::velocity_verlet<typename A::state, typename A::state, typename A::value>(); } };
// ---- runs ---------------------------------------------------------------------------------------------------------------------------------
struct Seen { vec x; double t; }; typedef std::vector<Seen> Log;
struct Cfg { int fn; double t0, t1, dt; };
static const char *FN[] = {"integrate_const", "integrate_n_steps", "integrate_adaptive", "integrate_times", "time ranges", "steps in place", "steps out of place", "integrate"};
template <class A> struct One { typedef typename A::state state; static void init(state &x) { A::init(x); double v[A::D]; for (int i = 0; i < A::D; i++) v[i] = initial(i); A::put(x, v); } static vec view(const state &x) { vec v(A::D); A::get(x, v.data()); return v; } static void shape(state &x) { A::init(x); } static void fin(state &x) { A::fin(x); } };
template <class A> struct Two { typedef std::pair<typename A::state, typename A::state> state; static void init(state &x) { One<A>::init(x.first); A::init(x.second); double v[A::D]; for (int i = 0; i < A::D; i++) v[i] = initial(i + 3); A::put(x.second, v); } static vec view(const state &x) { vec v = One<A>::view(x.first), w = One<A>::view(x.second); v.insert(v.end(), w.begin(), w.end()); return v; } static void shape(state &x) { A::init(x.first); A::init(x.second); } static void fin(state &x) { A::fin(x.first); A::fin(x.second); } };
template <class A, class V> struct Watch { Log *l; template <class X, class T> void operator()(const X &x, const T &t) const { Seen s = {V::view(x), A::tmd(t)}; l->push_back(s); } };
template <int K> struct K_ : std::integral_constant<int, K> {};
template <class A, class V, class S> struct Run {
    typedef typename A::time T; typedef typename V::state X;
    template <class R> static void walk(R r, Log &l) { Watch<A, V> w = {&l}; for (; r.first != r.second; ++r.first) { auto e = *r.first; w(e.first, e.second); } }
    static std::vector<T> times(const Cfg &c) { std::vector<T> t; double w = c.t1 - c.t0; double f[] = {0, 0.3, 0.3125, 0.9, 1}; for (double q : f) t.push_back(A::tm(c.t0 + q * w)); return t; }
    template <class Sy> static void ranges(Sy sy, const Cfg &c, X &x, Log &l, K_<0>) { T t0 = A::tm(c.t0), t1 = A::tm(c.t1), dt = A::tm(c.dt); std::vector<T> ts = times(c); walk(ode::make_const_step_time_range(S::template make<A>(), sy, x, t0, t1, dt), l); walk(ode::make_n_step_time_range(S::template make<A>(), sy, x, t0, dt, 4), l); walk(ode::make_times_time_range(S::template make<A>(), sy, x, ts.begin(), ts.end(), dt), l); }
    template <class Sy> static void ranges(Sy sy, const Cfg &c, X &x, Log &l, K_<1>) { T t0 = A::tm(c.t0), t1 = A::tm(c.t1), dt = A::tm(c.dt); std::vector<T> ts = times(c); walk(ode::make_adaptive_time_range(S::template make<A>(), sy, x, t0, t1, dt), l); walk(ode::make_times_time_range(S::template make<A>(), sy, x, ts.begin(), ts.end(), dt), l); }
    template <class Sy> static void ranges(Sy sy, const Cfg &c, X &x, Log &l, K_<2>) { ranges(sy, c, x, l, K_<0>()); T t0 = A::tm(c.t0), t1 = A::tm(c.t1), dt = A::tm(c.dt); walk(ode::make_adaptive_time_range(S::template make<A>(), sy, x, t0, t1, dt), l); }
    template <class Sy> static void ranges(Sy sy, const Cfg &c, X &x, Log &l, K_<3>) { ranges(sy, c, x, l, K_<0>()); }
    template <class Sy> static void ranges(Sy sy, const Cfg &c, X &x, Log &l, K_<4>) { ranges(sy, c, x, l, K_<0>()); }
    static void see(const X &x, const T &t, Log &l) { Watch<A, V> w = {&l}; w(x, t); }
    template <class Sy> static void inplace(Sy sy, const Cfg &c, X &x, Log &l, K_<0>) { auto st = S::template make<A>(); T t = A::tm(c.t0), dt = A::tm(c.dt); for (int i = 0; i < 5; i++) { st.do_step(sy, x, t, dt); t += dt; see(x, t, l); } auto cp = st; cp.do_step(sy, x, t, dt); see(x, t, l); }
    template <class Sy> static void inplace(Sy sy, const Cfg &c, X &x, Log &l, K_<1>) { auto st = S::template make<A>(); T t = A::tm(c.t0), dt = A::tm(c.dt); for (int i = 0; i < 8; i++) { Seen s; int r = st.try_step(sy, x, t, dt); see(x, t, l); s.t = A::tmd(dt); s.x = vec(1, double(r)); l.push_back(s); } auto cp = st; cp.try_step(sy, x, t, dt); see(x, t, l); }
    template <class Sy> static void inplace(Sy sy, const Cfg &c, X &x, Log &l, K_<2>) { auto st = S::template make<A>(); T t = A::tm(c.t0), dt = A::tm(c.dt); st.initialize(x, t, dt); X y; V::shape(y); for (int i = 0; i < 5; i++) { auto r = st.do_step(sy); see(st.current_state(), st.current_time(), l); see(st.previous_state(), st.previous_time(), l); T m = r.first + (r.second - r.first) * 0.375; st.calc_state(m, y); see(y, m, l); } auto cp = st; cp.do_step(sy); see(cp.current_state(), cp.current_time(), l); T m = cp.current_time(); cp.calc_state(m, y); see(y, m, l); V::fin(y); }
    template <class Sy> static void inplace(Sy sy, const Cfg &c, X &x, Log &l, K_<3>) { inplace(sy, c, x, l, K_<0>()); }
    template <class Sy> static void inplace(Sy sy, const Cfg &c, X &x, Log &l, K_<4>) { inplace(sy, c, x, l, K_<0>()); }
    template <class Sy, int K> static void outplace(Sy sy, const Cfg &c, X &x, Log &l, K_<K> k) { outplace(sy, c, x, l, k, std::is_arithmetic<X>()); }
    // a scalar state of the time's type: the overloads cannot be told apart (documented)
    template <class Sy, int K> static void outplace(Sy, const Cfg &, X &, Log &, K_<K>, std::true_type) { throw mc::Skip(); }
    template <class Sy> static void outplace(Sy sy, const Cfg &c, X &x, Log &l, K_<0>, std::false_type) { auto st = S::template make<A>(); T t = A::tm(c.t0), dt = A::tm(c.dt); X y; V::shape(y); for (int i = 0; i < 5; i++) { st.do_step(sy, x, t, y, dt); t += dt; see(y, t, l); see(x, t, l); st.do_step(sy, y, t, x, dt); t += dt; see(x, t, l); } V::fin(y); }
    template <class Sy> static void outplace(Sy sy, const Cfg &c, X &x, Log &l, K_<1>, std::false_type) { auto st = S::template make<A>(); T t = A::tm(c.t0), dt = A::tm(c.dt); X y; V::shape(y); for (int i = 0; i < 5; i++) { if (st.try_step(sy, x, t, y, dt) == ode::success) { see(y, t, l); if (st.try_step(sy, y, t, x, dt) == ode::fail) { y = x; } } see(x, t, l); } V::fin(y); }
    template <class Sy, int K> static void outplace(Sy, const Cfg &, X &, Log &, K_<K>, std::false_type) { throw mc::Skip(); }
    template <class Sy> static void go(Sy sy, const Cfg &c, Log &l) {
        X x; V::init(x); g_calls = 0; T t0 = A::tm(c.t0), t1 = A::tm(c.t1), dt = A::tm(c.dt); Watch<A, V> w = {&l}; size_t n = 0; K_<S::kind> k;
        try { switch (c.fn) {
            case 0: n = ode::integrate_const(S::template make<A>(), sy, x, t0, t1, dt, w); break;
            case 1: { T e = ode::integrate_n_steps(S::template make<A>(), sy, x, t0, dt, 5, w); see(x, e, l); break; }
            case 2: n = ode::integrate_adaptive(S::template make<A>(), sy, x, t0, t1, dt, w); break;
            case 3: n = ode::integrate_times(S::template make<A>(), sy, x, times(c), dt, w); break;
            case 4: ranges(sy, c, x, l, k); break;
            case 5: inplace(sy, c, x, l, k); break;
            default: outplace(sy, c, x, l, k); } } catch (ode::odeint_error &) { Seen s = {vec(), -1}; l.push_back(s); }
        Seen s = {V::view(x), double(n)}; l.push_back(s); V::fin(x);
    }
};
template <class A, class S> void run(const Cfg &c, Log &l, std::true_type) { Run<A, One<A>, S>::go(Sys<Fix<A>>(), c, l); }
template <class A, class S> void go2(const Cfg &c, Log &l, K_<3>) { Run<A, Two<A>, S>::go(std::make_pair(Q<A>(), P<A>()), c, l); }
template <class A, class S> void go2(const Cfg &c, Log &l, K_<4>) { Run<A, Two<A>, S>::go(Acc<A>(), c, l); }
template <class A, class S> void run(const Cfg &c, Log &l, std::false_type) { go2<A, S>(c, l, K_<S::kind>()); }
static bool eq(double a, double b, double tol) { return a == b || (a != a && b != b) || std::fabs(a - b) <= tol * (1 + std::fabs(a)); }
static void agree(const std::string &k, const Log &a, const Log &b, double tol) {
    for (size_t i = 0; i < a.size() && i < b.size(); i++) { bool ok = a[i].x.size() == b[i].x.size() && eq(a[i].t, b[i].t, tol); for (size_t j = 0; ok && j < a[i].x.size(); j++) ok = eq(a[i].x[j], b[i].x[j], tol); MC_CHECK(ok, k, "entry ", i, " of the run is ", mc::show(a[i].x), " at ", a[i].t, " with the reference container, ", mc::show(b[i].x), " at ", b[i].t, " with this one"); }
    MC_CHECK(a.size() == b.size(), k, a.size(), " entries with the reference container, ", b.size(), " with this one");
}
// A: the container, R: the reference container
template <class A, class R, class S> void body(const char *nm) {
    Cfg c; c.fn = mc::choose(7); if (c.fn == 6 && (S::kind >= 2 || std::is_arithmetic<typename A::state>::value)) throw mc::Skip(); mc::shard_point(); g_problem = mc::choose(S::kind >= 3 ? 2 : 4); int q = mc::choose(4); static const double T1[] = {1.25, 2.6, 0.3, -0.75}; c.t0 = 0.25; c.t1 = T1[q]; static const double H[] = {0.125, 0.4, 0.03}; c.dt = H[mc::choose(3)]; if (q == 3) c.dt = -c.dt;
    mc::ctx(mc::fmt(S::name(), " ", nm, " ", FN[c.fn], " problem ", g_problem, " from ", c.t0, " to ", c.t1, " dt ", c.dt));
    Log a, b; std::integral_constant<bool, (S::kind < 3)> plain; bool ba = false, bb = false; try { run<R, S>(c, a, plain); } catch (mc::Budget &) { ba = true; } try { run<A, S>(c, b, plain); } catch (mc::Budget &) { bb = true; } mc::transition();
    if (ba || bb) { size_t n = std::min(a.size(), b.size()); a.resize(n); b.resize(n); }
    double tol = A::tol(); agree(mc::fmt("result:", S::name(), "/", nm, "/", FN[c.fn]), a, b, tol); mc::outcome(mc::mix(a.size(), mc::hash_double(a.size() && a.back().x.size() ? a.back().x[0] : 0)));
}
typedef std::vector<std::pair<std::string, mc::Body>> Bodies;
// one body per container: the stepper is the first choice
static void add(Bodies &list, const char *nm, const std::function<void()> &f) { static std::map<std::string, std::shared_ptr<std::vector<std::function<void()>>>> all; auto &v = all[nm]; if (!v) { v = std::make_shared<std::vector<std::function<void()>>>(); auto w = v; list.push_back(std::make_pair(std::string(nm), mc::Body([w]() { (*w)[mc::choose((int)w->size())](); }))); } v->push_back(f); }
#define ADD(S) add(list, nm, [nm]() { body<A, R, S>(nm); });
template <class A, class R> void fixed_steppers(Bodies &list, const char *nm) { ADD(euler) ADD(midpoint) ADD(rk4) ADD(rk4_classic) ADD(ck54) ADD(ck54_classic) ADD(dopri5) ADD(fehlberg78) ADD(ab3) ADD(abm2) }
template <class A, class R> void more_steppers(Bodies &list, const char *nm) { ADD(extra4) ADD(d_euler) ADD(aabm3) }
template <class A, class R> void abm_steppers(Bodies &list, const char *nm) { ADD(c_abm4) }
template <class A, class R> void adaptive_steppers(Bodies &list, const char *nm) { ADD(c_ck54) ADD(c_ck54_classic) ADD(c_dopri5) ADD(c_fehlberg78) ADD(d_dopri5) }
template <class A, class R> void bs_steppers(Bodies &list, const char *nm) { ADD(bs) ADD(d_bs) }
// numbers with units: the steppers that support them
template <class A, class R> void unit_steppers(Bodies &list, const char *nm) { fixed_steppers<A, R>(list, nm); adaptive_steppers<A, R>(list, nm); ADD(extra4) ADD(d_euler) ADD(bs) }
template <class A, class R> void symplectic_steppers(Bodies &list, const char *nm) { ADD(symplectic_euler) ADD(rkn_sb3a) ADD(rkn_m4) ADD(verlet) }
template <class A, class R> void vs_steppers(Bodies &list, const char *nm) { fixed_steppers<A, R>(list, nm); more_steppers<A, R>(list, nm); adaptive_steppers<A, R>(list, nm); bs_steppers<A, R>(list, nm); symplectic_steppers<A, R>(list, nm); }
template <class A, class R> void all_steppers(Bodies &list, const char *nm) { vs_steppers<A, R>(list, nm); abm_steppers<A, R>(list, nm); }
#include "states_list.hpp"
int main(int argc, char **argv) { Bodies l; fill(l); return mc::run_main(argc, argv, l); }
