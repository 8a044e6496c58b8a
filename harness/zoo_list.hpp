// The steppers of the library, in groups that are compiled separately (macro GROUP).
#include "zoo.hpp"
#ifndef RESIZER
#define RESIZER ode::initially_resizer
#endif
namespace zoo {
typedef RESIZER Rz;
// An algebra with state: notices when it is used after its death (a stepper that refers to the
// algebra of another stepper) or without having been constructed.
struct live_algebra {
    unsigned magic; static unsigned alive() { return 0x5eed1234u; }
    live_algebra() : magic(alive()) {} live_algebra(const live_algebra& o) : magic(o.magic) { o.check(); }
    live_algebra& operator=(const live_algebra& o) { o.check(); check(); magic = o.magic; return *this; }
    ~live_algebra() { *const_cast<volatile unsigned*>(&magic) = 0xdeadu; }
    void check() const { if (*const_cast<const volatile unsigned*>(&magic) != alive()) mc::fail("dead-algebra", "the stepper uses an algebra object that is no longer (or was never) alive"); }
#define FE(N) template <class... A> void for_each##N(A&&... a) const { check(); ode::range_algebra::for_each##N(std::forward<A>(a)...); }
    FE(1) FE(2) FE(3) FE(4) FE(5) FE(6) FE(7) FE(8) FE(9) FE(10) FE(11) FE(12) FE(13) FE(14) FE(15)
#undef FE
    template <class S> typename ode::norm_result_type<S>::type norm_inf(const S& s) const { check(); return ode::range_algebra::norm_inf(s); }
};
#ifdef P18
typedef live_algebra Al;
#else
typedef ode::range_algebra Al;
#endif
typedef ode::default_operations Op;
template <template <class, class, class, class, class, class, class, class> class X> struct dummy {};
#define T7 vec, double, vec, double, Al, Op, Rz
typedef ode::explicit_generic_rk<4, 4, T7> gen_base;
struct my_rk4 : gen_base {
    static boost::array<double, 1> a1() { boost::array<double, 1> a = {{0.5}}; return a; }
    static boost::array<double, 2> a2() { boost::array<double, 2> a = {{0.0, 0.5}}; return a; }
    static boost::array<double, 3> a3() { boost::array<double, 3> a = {{0.0, 0.0, 1.0}}; return a; }
    static boost::array<double, 4> b() { boost::array<double, 4> a = {{1.0 / 6, 1.0 / 3, 1.0 / 3, 1.0 / 6}}; return a; }
    static boost::array<double, 4> c() { boost::array<double, 4> a = {{0, 0.5, 0.5, 1.0}}; return a; }
    my_rk4() : gen_base(boost::fusion::make_vector(a1(), a2(), a3()), b(), c()) {}
};
typedef ode::explicit_error_generic_rk<4, 3, 3, 2, T7> egen_base;   // Bogacki-Shampine
struct my_bs23 : egen_base {
    static boost::array<double, 1> a1() { boost::array<double, 1> a = {{0.5}}; return a; }
    static boost::array<double, 2> a2() { boost::array<double, 2> a = {{0.0, 0.75}}; return a; }
    static boost::array<double, 3> a3() { boost::array<double, 3> a = {{2.0 / 9, 1.0 / 3, 4.0 / 9}}; return a; }
    static boost::array<double, 4> b() { boost::array<double, 4> a = {{2.0 / 9, 1.0 / 3, 4.0 / 9, 0}}; return a; }
    static boost::array<double, 4> b2() { boost::array<double, 4> a = {{2.0 / 9 - 7.0 / 24, 1.0 / 3 - 0.25, 4.0 / 9 - 1.0 / 3, -0.125}}; return a; }
    static boost::array<double, 4> c() { boost::array<double, 4> a = {{0, 0.5, 0.75, 1.0}}; return a; }
    my_bs23() : egen_base(boost::fusion::make_vector(a1(), a2(), a3()), b(), b2(), c()) {}
};
template <class S> struct mid_ : explicit_<S> {};
template <class A, int N> struct midN : A { static typename A::stepper make() { return typename A::stepper(N); } };
// controlled steppers get a tolerance that rejects a step of 1 or more and accepts one of 0.1
template <class S> struct tol_ck { typedef ode::default_error_checker<double, Al, Op> C; };
template <class S, class K> struct ctrlT : ctrl_<ode::controlled_runge_kutta<S, ode::default_error_checker<double, Al, Op>, ode::default_step_adjuster<double, double>, Rz>, K> {
    typedef ode::controlled_runge_kutta<S, ode::default_error_checker<double, Al, Op>, ode::default_step_adjuster<double, double>, Rz> CS;
    static CS make() { return CS(ode::default_error_checker<double, Al, Op>(1e-4, 1e-4), ode::default_step_adjuster<double, double>(), S()); }
};
typedef ode::runge_kutta_dopri5<T7> dop;
typedef ode::controlled_runge_kutta<dop, ode::default_error_checker<double, Al, Op>, ode::default_step_adjuster<double, double>, Rz> cdop;
struct dense_dop : dense_<ode::dense_output_runge_kutta<cdop>, vec, false> { static stepper make() { return stepper(cdop(ode::default_error_checker<double, Al, Op>(1e-4, 1e-4))); } };
struct bsA : ctrl_<ode::bulirsch_stoer<T7>, ctrl_kind_bs> { static stepper make() { return stepper(1e-6, 1e-6); } };
struct dense_bs : dense_<ode::bulirsch_stoer_dense_out<T7>, vec, false> { static stepper make() { return stepper(1e-6, 1e-6); } };
struct dense_bs_ctl : dense_<ode::bulirsch_stoer_dense_out<T7>, vec, false> { static stepper make() { return stepper(1e-6, 1e-6, 1.0, 1.0, 0.3, true); } };
typedef ode::rosenbrock4<double, ode::default_rosenbrock_coefficients<double>, Rz> ros;
typedef ode::rosenbrock4_controller<ros> cros;
struct dense_ros : dense_<ode::rosenbrock4_dense_output<cros>, uvec, true> { static stepper make() { return stepper(cros(1e-4, 1e-4)); } };
#define T9S vec, vec, double, vec, vec, double, Al, Op, Rz
typedef ode::adaptive_adams_bashforth_moulton<3, T7> aabm3; typedef ode::adaptive_adams_bashforth_moulton<5, T7> aabm5;
template <class S> struct cabmT : cabm_<S> {};
template <class ES> struct cabm_of { typedef ode::controlled_adams_bashforth_moulton<ES, ode::detail::pid_step_adjuster<vec, double, vec, double, Al, Op, ode::detail::H211PI>, ode::default_order_adjuster<ES::order_value, vec, double, Al>, Rz> type; };
template <class ES> struct cabmA : cabm_<typename cabm_of<ES>::type> {
    typedef typename cabm_of<ES>::type S;
    static S make() { return S(ode::detail::pid_step_adjuster<vec, double, vec, double, Al, Op, ode::detail::H211PI>(1e-4, 1e-4)); }
};
} // namespace zoo
using namespace zoo;
// X(name, adaptor)
#if GROUP == 1
#define STEPPERS(X) X("euler", explicit_<ode::euler<T7>>) X("modified_midpoint", explicit_<ode::modified_midpoint<T7>>) X("modified_midpoint6", midN<explicit_<ode::modified_midpoint<T7>>, 6>) \
    X("runge_kutta4", explicit_<ode::runge_kutta4<T7>>) X("runge_kutta4_classic", explicit_<ode::runge_kutta4_classic<T7>>) X("explicit_generic_rk", explicit_<my_rk4>)
#elif GROUP == 2
#define STEPPERS(X) X("cash_karp54", error_<ode::runge_kutta_cash_karp54<T7>>) X("cash_karp54_classic", error_<ode::runge_kutta_cash_karp54_classic<T7>>) X("explicit_error_generic_rk", error_<my_bs23>)
#elif GROUP == 3
#define STEPPERS(X) X("fehlberg78", error_<ode::runge_kutta_fehlberg78<T7>>) X("dopri5", fsal_<dop>) X("extrapolation4", error_<ode::extrapolation_stepper<4, T7>>) X("extrapolation8", error_<ode::extrapolation_stepper<8, T7>>)
#elif GROUP == 4
#define STEPPERS(X) X("adams_bashforth1", multistep_<ode::adams_bashforth<1, T7>>) X("adams_bashforth2", multistep_<ode::adams_bashforth<2, T7>>) X("adams_bashforth4", multistep_<ode::adams_bashforth<4, T7>>) X("adams_bashforth8", multistep_<ode::adams_bashforth<8, T7>>)
#elif GROUP == 5
#define STEPPERS(X) X("adams_bashforth_moulton1", multistep_<ode::adams_bashforth_moulton<1, T7>>) X("adams_bashforth_moulton3", multistep_<ode::adams_bashforth_moulton<3, T7>>) X("adams_bashforth_moulton5", multistep_<ode::adams_bashforth_moulton<5, T7>>) X("adams_bashforth_moulton8", multistep_<ode::adams_bashforth_moulton<8, T7>>)
#elif GROUP == 6
#define STEPPERS(X) X("symplectic_euler", symplectic_<ode::symplectic_euler<T9S>>) X("mclachlan", symplectic_<ode::symplectic_rkn_sb3a_mclachlan<T9S>>) X("mclachlan_m4", symplectic_<ode::symplectic_rkn_sb3a_m4_mclachlan<T9S>>) \
    X("velocity_verlet", verlet_<ode::velocity_verlet<vec, vec, double, vec, double, double, Al, Op, Rz>>)
#elif GROUP == 7
#define STEPPERS(X) X("rosenbrock4", rosen_<ros>) X("implicit_euler", implicit_<ode::implicit_euler<double, Rz>>) X("rosenbrock4_controller", rosenctrl_<cros>) X("rosenbrock4_dense", dense_ros)
#elif GROUP == 8
#define STEPPERS(X) X("controlled_cash_karp54", ctrlT<ode::runge_kutta_cash_karp54<T7>, ctrl_kind_rk>) X("controlled_fehlberg78", ctrlT<ode::runge_kutta_fehlberg78<T7>, ctrl_kind_rk>) X("controlled_dopri5", ctrlT<dop, ctrl_kind_fsal>)
#elif GROUP == 9
#define STEPPERS(X) X("bulirsch_stoer", bsA) X("bulirsch_stoer_dense", dense_bs) X("bulirsch_stoer_dense_ctl", dense_bs_ctl)
#elif GROUP == 10
#define STEPPERS(X) X("dense_dopri5", dense_dop) X("dense_euler", dense_<ode::dense_output_runge_kutta<ode::euler<T7>>, vec, false>)
#elif GROUP == 11
#define STEPPERS(X) X("adaptive_abm3", aabm_<aabm3>) X("adaptive_abm5", aabm_<aabm5>) X("controlled_abm3", cabmA<aabm3>) X("controlled_abm5", cabmA<aabm5>)
#endif
