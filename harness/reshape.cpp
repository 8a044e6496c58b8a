// C19 for containers whose size is more than one number: one stepper used for states of several shapes (matrices of the same
// number of elements but other rows and columns, arrays with other index bases, lists, strided vectors) under the resizing
// policies, next to a stepper that has never seen another shape. POLICY as in zoo.cpp; CONT selects the container.
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <deque>
#include <list>
#include <mc.hpp>
#ifndef POLICY
#define POLICY 0
#endif
namespace ode = boost::numeric::odeint;
typedef std::vector<double> vec;
typedef std::vector<std::pair<std::string, mc::Body>> Bodies;
#if POLICY == 1
typedef ode::always_resizer Rz;
#elif POLICY == 2
typedef ode::never_resizer Rz;
#else
typedef ode::initially_resizer Rz;
#endif
static double rhs1(double x, double y, double t, int i) { return 0.7 * std::cos(y) - 0.3 * x * (1 + 0.1 * i) + 0.1 * t; }

#if CONT == 1 || CONT == 2
#include <boost/numeric/ublas/matrix.hpp>
namespace ub = boost::numeric::ublas;
struct A {
#if CONT == 1
    typedef ub::matrix<double> state; static const char *name() { return "ublas_matrix"; }
#else
    typedef ub::matrix<double, ub::column_major> state; static const char *name() { return "ublas_column_major"; }
#endif
    static void shape(state &x, int k) { static const int r[] = {2, 3, 1, 6, 2}, c[] = {3, 2, 6, 1, 2}; x.resize(r[k], c[k], false); }
    static vec get(const state &x) { vec v; for (size_t i = 0; i < x.size1(); i++) for (size_t j = 0; j < x.size2(); j++) v.push_back(x(i, j)); return v; }
    static void put(state &x, const vec &v) { size_t n = 0; for (size_t i = 0; i < x.size1(); i++) for (size_t j = 0; j < x.size2(); j++) x(i, j) = v[n++]; }
    static std::string dims(const state &x) { return mc::fmt(x.size1(), "x", x.size2()); }
};
#elif CONT == 3
struct A { typedef boost::numeric::ublas::vector<double> state; static const char *name() { return "ublas_vector"; }
    static void shape(state &x, int k) { static const int n[] = {2, 3, 1, 6, 5}; x.resize(n[k], false); }
    static vec get(const state &x) { return vec(x.begin(), x.end()); } static void put(state &x, const vec &v) { std::copy(v.begin(), v.end(), x.begin()); } static std::string dims(const state &x) { return mc::fmt(x.size()); } };
#elif CONT == 4 || CONT == 5 || CONT == 6
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
struct A {
    static const int D = CONT - 3; typedef boost::multi_array<double, D> state; static const char *name() { static const char *n[] = {"multi_array1", "multi_array2", "multi_array3"}; return n[D - 1]; }
    static void shape(state &x, int k) {
        static const int e[5][3] = {{2, 3, 2}, {3, 2, 2}, {2, 2, 3}, {1, 6, 2}, {2, 3, 2}}, b[5][3] = {{0, 0, 0}, {0, 0, 0}, {1, -1, 2}, {-2, 0, 5}, {0, 1, 0}}; boost::array<int, D> a, o; for (int i = 0; i < D; i++) a[i] = e[k][i], o[i] = D == 1 ? b[k][0] + b[k][1] : b[k][i];
        x.resize(a); x.reindex(o); }
    static vec get(const state &x) { return vec(x.data(), x.data() + x.num_elements()); }
    static void put(state &x, const vec &v) { std::copy(v.begin(), v.end(), x.data()); }
    static std::string dims(const state &x) { std::string s; for (int i = 0; i < D; i++) s += mc::fmt(x.shape()[i], "@", x.index_bases()[i], " "); return s; }
};
#elif CONT == 7 || CONT == 8 || CONT == 9
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
struct A {
#if CONT == 7
    typedef Eigen::MatrixXd state; static const char *name() { return "eigen_matrix"; }
#elif CONT == 8
    typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> state; static const char *name() { return "eigen_row_major"; }
#else
    typedef Eigen::ArrayXXd state; static const char *name() { return "eigen_array"; }
#endif
    static void shape(state &x, int k) { static const int r[] = {2, 3, 1, 6, 2}, c[] = {3, 2, 6, 1, 2}; x.resize(r[k], c[k]); }
    static vec get(const state &x) { vec v; for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) v.push_back(x(i, j)); return v; }
    static void put(state &x, const vec &v) { size_t n = 0; for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) x(i, j) = v[n++]; }
    static std::string dims(const state &x) { return mc::fmt(x.rows(), "x", x.cols()); }
};
#elif CONT == 10 || CONT == 11
namespace boost { namespace numeric { namespace odeint {
template <class T> struct is_resizeable<std::deque<T>> { typedef boost::true_type type; static const bool value = type::value; };
template <class T> struct is_resizeable<std::list<T>> { typedef boost::true_type type; static const bool value = type::value; };
template <class T> struct same_size_impl<std::list<T>, std::list<T>> { static bool same_size(const std::list<T> &a, const std::list<T> &b) { return a.size() == b.size(); } };
template <class T> struct resize_impl<std::list<T>, std::list<T>> { static void resize(std::list<T> &a, const std::list<T> &b) { a.resize(b.size()); } };
}}}
struct A {
#if CONT == 10
    typedef std::deque<double> state; static const char *name() { return "deque"; }
#else
    typedef std::list<double> state; static const char *name() { return "list"; }
#endif
    static void shape(state &x, int k) { static const int n[] = {2, 3, 1, 6, 5}; x.resize(n[k]); }
    static vec get(const state &x) { return vec(x.begin(), x.end()); } static void put(state &x, const vec &v) { std::copy(v.begin(), v.end(), x.begin()); } static std::string dims(const state &x) { return mc::fmt(x.size()); } };
#elif CONT == 12
struct A { typedef std::vector<std::complex<double>> state; static const char *name() { return "complex_vector"; }
    static void shape(state &x, int k) { static const int n[] = {2, 3, 1, 6, 5}; x.resize(n[k]); }
    static vec get(const state &x) { vec v; for (auto &c : x) { v.push_back(c.real()); v.push_back(c.imag()); } return v; } static void put(state &x, const vec &v) { for (size_t i = 0; i < x.size(); i++) x[i] = std::complex<double>(v[2 * i], v[2 * i + 1]); } static std::string dims(const state &x) { return mc::fmt(x.size()); } };
#endif
static const int SHAPES = 5;
typedef A::state St;
static St *g_like; static long g_calls;
// the system insists that the derivative has the shape of the state
static void same_dims(const St &x, const St &d, const char *what) { if (A::dims(x) != A::dims(d)) mc::fail(std::string("shape:") + what, "the system is called with a state of shape ", A::dims(x), " and a ", what, " of shape ", A::dims(d)); }
struct Sys { void operator()(const St &x, St &d, double t) const { ++g_calls; same_dims(x, d, "derivative"); vec a = A::get(x), b(a); for (size_t i = 0; i < a.size(); i++) b[i] = rhs1(a[i], a[(i + 1) % a.size()], t, i); A::put(d, b); } };
struct Q { void operator()(const St &p, St &d) const { same_dims(p, d, "coordinate derivative"); A::put(d, A::get(p)); } };
struct P { void operator()(const St &q, St &d) const { same_dims(q, d, "momentum derivative"); vec a = A::get(q), b(a); for (size_t i = 0; i < a.size(); i++) b[i] = rhs1(a[i], a[(i + 1) % a.size()], 0, i); A::put(d, b); } };
struct Acc { void operator()(const St &q, const St &v, St &d, double t) const { same_dims(q, d, "acceleration"); same_dims(q, v, "velocity"); vec a = A::get(q), c = A::get(v), b(a); for (size_t i = 0; i < a.size(); i++) b[i] = rhs1(a[i], a[(i + 1) % a.size()], t, i) - 0.1 * c[i]; A::put(d, b); } };
static void start(St &x, int k, int salt) { A::shape(x, k); vec v = A::get(x); for (size_t i = 0; i < v.size(); i++) v[i] = 0.3 + 0.17 * ((i * 7 + salt * 3) % 11) - 0.5 * (i % 2); A::put(x, v); }
static void obs(vec &o, const St &x) { vec v = A::get(x); o.insert(o.end(), v.begin(), v.end()); o.push_back(v.size()); }
typedef ode::algebra_dispatcher<St>::algebra_type Al; typedef ode::operations_dispatcher<St>::operations_type Op;
#define ARGS St, double, St, double, Al, Op, Rz
struct Common { static const bool has_resize = true; };
// plain: in place, out of place, given derivative
template <class S_> struct Plain : Common { typedef S_ S; static S make() { return S(); } static int ops() { return 3; } template <class X> static void restart(S &, X &, double) {} static void resize(S &s, const St &x) { s.adjust_size(x); }
    static void op(S &s, int k, St &x, double &t, vec &o) { if (k == 0) s.do_step(Sys(), x, t, 0.1); else if (k == 1) { St y(x); s.do_step(Sys(), x, t, y, 0.1); x = y; } else { St d(x); Sys()(x, d, t); s.do_step(Sys(), x, d, t, 0.1); } t += 0.1; obs(o, x); } };
template <class S_> struct Error : Common { typedef S_ S; static S make() { return S(); } static int ops() { return 4; } template <class X> static void restart(S &s, X &, double) { rst(s, 0); } template <class T> static auto rst(T &s, int) -> decltype(s.reset(), void()) { s.reset(); } template <class T> static void rst(T &, long) {} static void resize(S &s, const St &x) { s.adjust_size(x); }
    static void op(S &s, int k, St &x, double &t, vec &o) { St e(x), y(x); if (k == 0) s.do_step(Sys(), x, t, 0.1); else if (k == 1) { s.do_step(Sys(), x, t, y, 0.1, e); x = y; obs(o, e); } else if (k == 2) { s.do_step(Sys(), x, t, 0.1, e); obs(o, e); } else { s.do_step(Sys(), x, t, y, 0.1); x = y; } t += 0.1; obs(o, x); } };
template <class S_, class Mk> struct Ctrl : Common { typedef S_ S; static S make() { return Mk::make(); } static int ops() { return 3; } template <class X> static void restart(S &s, X &, double) { rst(s, 0); } template <class T> static auto rst(T &s, int) -> decltype(s.reset(), void()) { s.reset(); } template <class T> static void rst(T &, long) {} static void resize(S &s, const St &x) { s.adjust_size(x); }
    static void op(S &s, int k, St &x, double &t, vec &o) { double dt = k == 2 ? 4.0 : 0.1; int r; if (k == 1) { St y(x); r = s.try_step(Sys(), x, t, y, dt); if (r == ode::success) x = y; } else r = s.try_step(Sys(), x, t, dt); o.push_back(r); o.push_back(dt); o.push_back(t); obs(o, x); } };
template <class S_, class Mk> struct Dense : Common { typedef S_ S; static S make() { return Mk::make(); } static int ops() { return 2; } template <class X> static void restart(S &s, X &x, double t) { s.initialize(x, t, 0.1); } static void resize(S &s, const St &x) { s.adjust_size(x); }
    static void op(S &s, int k, St &x, double &t, vec &o) { std::pair<double, double> r = s.do_step(Sys()); o.push_back(r.first); o.push_back(r.second); if (k) { St y(x); s.calc_state(0.5 * (r.first + r.second), y); obs(o, y); } obs(o, s.current_state()); obs(o, s.previous_state()); x = s.current_state(); t = s.current_time(); } };
// multistep: restarted at every change
template <class S_> struct Multi : Common { typedef S_ S; static S make() { return S(); } static int ops() { return 2; } template <class X> static void restart(S &s, X &, double) { s.reset(); } static void resize(S &s, const St &x) { s.adjust_size(x); }
    static void op(S &s, int k, St &x, double &t, vec &o) { for (int i = 0; i < 3; i++) { if (k == 0) s.do_step(Sys(), x, t, 0.1); else { St y(x); s.do_step(Sys(), x, t, y, 0.1); x = y; } t += 0.1; obs(o, x); } } };
template <class S_> struct Symp : Common { typedef S_ S; static S make() { return S(); } static int ops() { return 3; } template <class X> static void restart(S &, X &, double) {} static void resize(S &s, const St &x) { s.adjust_size(x); }
    static void op(S &s, int k, St &x, double &t, vec &o) { std::pair<St, St> q(x, x), y(q); if (k == 0) s.do_step(std::make_pair(Q(), P()), q, t, 0.1); else if (k == 1) { s.do_step(std::make_pair(Q(), P()), q, t, y, 0.1); q = y; } else s.do_step(P(), q, t, 0.1); obs(o, q.second); x = q.first; t += 0.1; obs(o, x); } };
struct Verlet : Common { typedef ode::velocity_verlet<St, St, double, St, double, double, Al, Op, Rz> S; static S make() { return S(); } static int ops() { return 2; } template <class X> static void restart(S &s, X &, double) { s.reset(); } static void resize(S &s, const St &x) { s.adjust_size(x); }
    static void op(S &s, int k, St &x, double &t, vec &o) { std::pair<St, St> q(x, x); for (int i = 0; i <= k; i++) { s.do_step(Acc(), q, t, 0.1); t += 0.1; } obs(o, q.second); x = q.first; obs(o, x); } };
template <class B> struct MkC { typedef ode::controlled_runge_kutta<B, ode::default_error_checker<double, Al, Op>, ode::default_step_adjuster<double, double>, Rz> C; static C make() { return C(ode::default_error_checker<double, Al, Op>(1e-4, 1e-4)); } };
template <class B> struct MkD { typedef ode::dense_output_runge_kutta<typename MkC<B>::C> D; static D make() { return D(MkC<B>::make()); } };
template <class B> struct MkE { typedef ode::dense_output_runge_kutta<B> D; static D make() { return D(); } };
struct MkB { typedef ode::bulirsch_stoer<ARGS> C; static C make() { return C(1e-5, 1e-5); } };
struct MkBD { typedef ode::bulirsch_stoer_dense_out<ARGS> C; static C make() { return C(1e-5, 1e-5); } };

template <class Z> void run(const char *nm, bool resets) {
    typename Z::S s = Z::make(); std::string seq; int last = -1, segs = 2 + mc::choose(mc::E().tier == "thorough" ? 2 : 1); (void)resets;
    for (int g = 0; g < segs; g++) {
        int k = mc::choose(SHAPES); if (k == last) return; last = k; if (g == 1) mc::shard_point();
        St x, y; start(x, k, g); start(y, k, g); double t = 0.1 * g, u = t; seq += mc::fmt(" [", A::dims(x), "]"); mc::ctx(std::string(A::name()) + " " + nm + mc::fmt(" policy ", POLICY) + seq);
        typename Z::S f = Z::make();
        if (POLICY == 2) { Z::resize(s, x); Z::resize(f, y); } if (POLICY == 0 && g) Z::resize(s, x);
        Z::restart(s, x, t); Z::restart(f, y, u);
        for (int i = 0; i < (g + 1 < segs ? 1 : 2); i++) {
            int op = mc::choose(Z::ops()); seq += char('0' + op); mc::ctx(std::string(A::name()) + " " + nm + mc::fmt(" policy ", POLICY) + seq);
            vec a, b; Z::op(s, op, x, t, a); Z::op(f, op, y, u, b); a.push_back(t); b.push_back(u); mc::transition();
            bool eq = a.size() == b.size(); for (size_t j = 0; eq && j < a.size(); j++) eq = mc::same_bits_or_nan(a[j], b[j]);
            MC_CHECK(eq, mc::fmt("reshape-differs:", nm), "after the change of shape the stepper gives ", mc::show(a), ", a new one gives ", mc::show(b));
            for (double d : a) mc::outcome(mc::hash_double(d));
        }
    }
}
int main(int argc, char **argv) {
    Bodies B; std::string pre = A::name(); pre += ".";
#define ADD(NM, ...) B.push_back({pre + NM, [] { run<__VA_ARGS__>(NM, false); }});
    ADD("euler", Plain<ode::euler<ARGS>>) ADD("modified_midpoint", Plain<ode::modified_midpoint<ARGS>>) ADD("rk4", Plain<ode::runge_kutta4<ARGS>>) ADD("rk4_classic", Plain<ode::runge_kutta4_classic<ARGS>>)
    ADD("ck54", Error<ode::runge_kutta_cash_karp54<ARGS>>) ADD("ck54_classic", Error<ode::runge_kutta_cash_karp54_classic<ARGS>>) ADD("dopri5", Error<ode::runge_kutta_dopri5<ARGS>>) ADD("fehlberg78", Error<ode::runge_kutta_fehlberg78<ARGS>>)
    ADD("adams_bashforth3", Multi<ode::adams_bashforth<3, ARGS>>) ADD("adams_bashforth_moulton2", Multi<ode::adams_bashforth_moulton<2, ARGS>>)
    ADD("dense_euler", Dense<MkE<ode::euler<ARGS>>::D, MkE<ode::euler<ARGS>>>)
    ADD("symplectic_euler", Symp<ode::symplectic_euler<St, St, double, St, St, double, Al, Op, Rz>>) ADD("rkn_sb3a", Symp<ode::symplectic_rkn_sb3a_mclachlan<St, St, double, St, St, double, Al, Op, Rz>>) ADD("velocity_verlet", Verlet)
#if CONT != 9
    ADD("controlled_ck54", Ctrl<MkC<ode::runge_kutta_cash_karp54<ARGS>>::C, MkC<ode::runge_kutta_cash_karp54<ARGS>>>) ADD("controlled_dopri5", Ctrl<MkC<ode::runge_kutta_dopri5<ARGS>>::C, MkC<ode::runge_kutta_dopri5<ARGS>>>)
    ADD("dense_dopri5", Dense<MkD<ode::runge_kutta_dopri5<ARGS>>::D, MkD<ode::runge_kutta_dopri5<ARGS>>>)
    ADD("bulirsch_stoer", Ctrl<MkB::C, MkB>) ADD("bulirsch_stoer_dense_out", Dense<MkBD::C, MkBD>)
#endif
    return mc::run_main(argc, argv, B);
}
