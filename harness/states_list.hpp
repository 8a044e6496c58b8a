#if TYPES == 1 || TYPES == 2   // arrays of fixed size
#include <array>
#include <boost/array.hpp>
template <int N> struct StdArr : Seq<std::array<double, N>, double, N> {}; template <int N> struct BoostArr : Seq<boost::array<double, N>, double, N> {};
#if TYPES == 1
static void fill(Bodies &l) { all_steppers<StdArr<3>, Vec<3>>(l, "std_array"); }
#else
static void fill(Bodies &l) { all_steppers<BoostArr<2>, Vec<2>>(l, "boost_array"); }
#endif
#elif TYPES == 3 || TYPES == 4 // sequences a user made resizable, as the documentation shows
namespace boost { namespace numeric { namespace odeint {
template <class T> struct is_resizeable<std::deque<T>> { typedef boost::true_type type; static const bool value = type::value; };
template <class T> struct is_resizeable<std::list<T>> { typedef boost::true_type type; static const bool value = type::value; };
template <class T> struct same_size_impl<std::list<T>, std::list<T>> { static bool same_size(const std::list<T> &a, const std::list<T> &b) { return a.size() == b.size(); } };
template <class T> struct resize_impl<std::list<T>, std::list<T>> { static void resize(std::list<T> &a, const std::list<T> &b) { a.resize(b.size()); } };
}}}
#if TYPES == 3
static void fill(Bodies &l) { all_steppers<DynSeq<std::deque<double>, double, 5>, Vec<5>>(l, "deque"); }
#else
static void fill(Bodies &l) { all_steppers<DynSeq<std::list<double>, double, 4>, Vec<4>>(l, "list"); }
#endif
#elif TYPES == 5 || TYPES == 6 || TYPES == 7 || TYPES == 8 // uBLAS
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
namespace ub = boost::numeric::ublas;
template <class S, int R, int C> struct UMat : Base<S> { enum { D = R * C }; static void init(S &x) { x.resize(R, C, false); } static void fin(S &) {} template <class X> static void put(X &x, const double *v) { for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) x(i, j) = *v++; } template <class X> static void get(const X &x, double *v) { for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) *v++ = x(i, j); } };
#if TYPES == 5
static void fill(Bodies &l) { vs_steppers<DynSeq<ub::vector<double>, double, 3>, Vec<3>>(l, "ublas_vector"); }
#elif TYPES == 6
static void fill(Bodies &l) { vs_steppers<UMat<ub::matrix<double>, 2, 3>, Vec<6>>(l, "ublas_matrix"); }
#elif TYPES == 7
static void fill(Bodies &l) { vs_steppers<UMat<ub::matrix<double, ub::column_major>, 3, 2>, Vec<6>>(l, "ublas_column_major"); }
#else
static void fill(Bodies &l) { vs_steppers<DynSeq<ub::vector<double, ub::bounded_array<double, 4>>, double, 4>, Vec<4>>(l, "ublas_bounded"); }
#endif
#elif TYPES == 9 || TYPES == 10 || TYPES == 11 // multi_array
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
template <class S, int K> struct MArr : Base<S> { enum { D = K }; static void fin(S &) {} template <class X> static void put(X &x, const double *v) { for (int i = 0; i < K; i++) x.data()[i] = v[i]; } template <class X> static void get(const X &x, double *v) { for (int i = 0; i < K; i++) v[i] = x.data()[i]; } };
#if TYPES == 9
struct M1 : MArr<boost::multi_array<double, 1>, 3> { static void init(state &x) { x.resize(boost::extents[3]); } };
static void fill(Bodies &l) { all_steppers<M1, Vec<3>>(l, "multi_array1"); }
#elif TYPES == 10
struct M2 : MArr<boost::multi_array<double, 2>, 6> { static void init(state &x) { typedef state::extent_range r; x.resize(boost::extents[r(-1, 1)][r(2, 5)]); x.reindex(boost::array<int, 2>{{-1, 2}}); } };
static void fill(Bodies &l) { all_steppers<M2, Vec<6>>(l, "multi_array2"); }
#else
struct M3 : MArr<boost::multi_array<double, 3>, 12> { static void init(state &x) { x.resize(boost::extents[2][3][2]); } };
static void fill(Bodies &l) { all_steppers<M3, Vec<12>>(l, "multi_array3"); }
#endif
#elif TYPES == 12 || TYPES == 13 || TYPES == 14 // heterogeneous sequences and units
#include <boost/fusion/container/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#include <boost/units/systems/si.hpp>
namespace fu = boost::fusion; namespace si = boost::units::si;
typedef boost::units::quantity<si::length> Len; typedef boost::units::quantity<si::velocity> Vel; typedef boost::units::quantity<si::acceleration> Accel; typedef boost::units::quantity<si::time> Tim;
template <class Q> static void setq(Q &q, double v) { ode::set_unit_value(q, v); }
template <int I, int N> struct Fu { template <class X> static void put(X &x, const double *v) { setq(fu::at_c<I>(x), v[I]); Fu<I + 1, N>::put(x, v); } template <class X> static void get(const X &x, double *v) { v[I] = double(ode::get_unit_value(fu::at_c<I>(x))); Fu<I + 1, N>::get(x, v); } };
template <int N> struct Fu<N, N> { template <class X> static void put(X &, const double *) {} template <class X> static void get(const X &, double *) {} };
template <class S, int N, class T = double, class Dv = S> struct Fus : Base<S, double, T, Dv> { enum { D = N }; static void init(S &) {} static void fin(S &) {} template <class X> static void put(X &x, const double *v) { Fu<0, N>::put(x, v); } template <class X> static void get(const X &x, double *v) { Fu<0, N>::get(x, v); } };
struct TimeUnits { static Tim tm(double t) { return t * si::second; } static double tmd(const Tim &t) { return t.value(); } };
#if TYPES == 12
static void fill(Bodies &l) { typedef Fus<fu::vector<double, double, double>, 3> A; typedef Vec<3> R; const char *nm = "fusion_vector"; Bodies &list = l; vs_steppers<A, R>(list, nm); }
#elif TYPES == 13
struct FUnits : Fus<fu::vector<Len, Vel>, 2, Tim, fu::vector<Vel, Accel>> { static Tim tm(double t) { return TimeUnits::tm(t); } static double tmd(const Tim &t) { return t.value(); } };
static void fill(Bodies &list) { typedef FUnits A; typedef Vec<2> R; const char *nm = "fusion_units"; unit_steppers<A, R>(list, nm); }
#else
template <class S, class Dv, int N> struct UnitSeq : Base<S, double, Tim, Dv> { enum { D = N }; static Tim tm(double t) { return TimeUnits::tm(t); } static double tmd(const Tim &t) { return t.value(); } static void fin(S &) {} template <class X> static void put(X &x, const double *v) { for (auto it = x.begin(); it != x.end(); ++it) setq(*it, *v++); } template <class X> static void get(const X &x, double *v) { for (auto it = x.begin(); it != x.end(); ++it) *v++ = ode::get_unit_value(*it); } };
struct VU : UnitSeq<std::vector<Len>, std::vector<Vel>, 3> { static void init(state &x) { x.resize(3); } };
static void fill(Bodies &list) { typedef VU A; typedef Vec<3> R; const char *nm = "vector_units"; fixed_steppers<A, R>(list, nm); ADD(extra4) ADD(d_euler) }
#endif
#elif TYPES == 15 // a vector-space type as in the documentation
#include <boost/operators.hpp>
struct Point : boost::additive1<Point, boost::additive2<Point, double, boost::multiplicative2<Point, double>>> { double v[3]; Point() { v[0] = v[1] = v[2] = 0; } Point(double a) { v[0] = v[1] = v[2] = a; }
    Point &operator+=(const Point &p) { for (int i = 0; i < 3; i++) v[i] += p.v[i]; return *this; } Point &operator-=(const Point &p) { for (int i = 0; i < 3; i++) v[i] -= p.v[i]; return *this; } Point &operator+=(double p) { for (int i = 0; i < 3; i++) v[i] += p; return *this; } Point &operator-=(double p) { for (int i = 0; i < 3; i++) v[i] -= p; return *this; } Point &operator*=(double p) { for (int i = 0; i < 3; i++) v[i] *= p; return *this; } Point &operator/=(double p) { for (int i = 0; i < 3; i++) v[i] /= p; return *this; } };
inline Point operator/(const Point &a, const Point &b) { Point c; for (int i = 0; i < 3; i++) c.v[i] = a.v[i] / b.v[i]; return c; }
inline Point abs(const Point &a) { Point c; for (int i = 0; i < 3; i++) c.v[i] = std::fabs(a.v[i]); return c; }
namespace boost { namespace numeric { namespace odeint { template <> struct vector_space_norm_inf<Point> { typedef double result_type; double operator()(const Point &p) const { double m = 0; for (int i = 0; i < 3; i++) m = std::max(m, std::fabs(p.v[i])); return m; } };
template <> struct algebra_dispatcher<Point> { typedef vector_space_algebra algebra_type; }; }}}
struct Pt : Base<Point> { enum { D = 3 }; static void init(Point &) {} static void fin(Point &) {} static void put(Point &x, const double *v) { for (int i = 0; i < 3; i++) x.v[i] = v[i]; } static void get(const Point &x, double *v) { for (int i = 0; i < 3; i++) v[i] = x.v[i]; } };
static void fill(Bodies &l) { vs_steppers<Pt, Vec<3>>(l, "point"); }
#elif TYPES == 16 || TYPES == 24 // bare scalars
template <class V> struct Scalar : Base<V, V> { enum { D = 1 }; static void init(V &) {} static void fin(V &) {} static void put(V &x, const double *v) { x = V(v[0]); } static void get(const V &x, double *v) { v[0] = double(x); } };
#if TYPES == 16
static void fill(Bodies &l) { vs_steppers<Scalar<double>, Vec<1>>(l, "double"); }
#else
template <int N> struct VecL : DynSeq<std::vector<long double>, long double, N> {};
static void fill(Bodies &l) { vs_steppers<Scalar<float>, VecF<1>>(l, "float"); vs_steppers<Scalar<long double>, VecL<1>>(l, "long_double"); }
#endif
#elif TYPES == 17 || TYPES == 18 || TYPES == 25 // complex numbers
#include <boost/array.hpp>
typedef std::complex<double> Cx;
struct C1 : Base<Cx, double> { enum { D = 2 }; static void init(Cx &) {} static void fin(Cx &) {} static void put(Cx &x, const double *v) { x = Cx(v[0], v[1]); } static void get(const Cx &x, double *v) { v[0] = x.real(); v[1] = x.imag(); } };
struct CA : CSeq<boost::array<Cx, 2>, Cx, 2> { typedef double value; };
#if TYPES == 17
static void fill(Bodies &list) { const char *nm = "complex"; vs_steppers<C1, VecC<1>>(list, nm); }
#elif TYPES == 18
static void fill(Bodies &list) { vs_steppers<CA, VecC<2>>(list, "array_complex"); }
#else
static void fill(Bodies &list) { fixed_steppers<VecC<2>, Vec<4>>(list, "vector_complex_as_reals"); more_steppers<VecC<2>, Vec<4>>(list, "vector_complex_as_reals"); }
#endif
#elif TYPES >= 19 && TYPES <= 22 // Eigen
#include <Eigen/Dense>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
template <class S, int R, int C> struct Eig : Base<S> { enum { D = R * C }; static void init(S &x) { x.resize(R, C); } static void fin(S &) {} template <class X> static void put(X &x, const double *v) { for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) x(i, j) = *v++; } template <class X> static void get(const X &x, double *v) { for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) *v++ = x(i, j); } };
#if TYPES == 19
static void fill(Bodies &l) { vs_steppers<Eig<Eigen::VectorXd, 3, 1>, Vec<3>>(l, "eigen_vector"); }
#elif TYPES == 20
static void fill(Bodies &l) { vs_steppers<Eig<Eigen::Matrix<double, 2, 3>, 2, 3>, Vec<6>>(l, "eigen_fixed_matrix"); }
#elif TYPES == 21
static void fill(Bodies &l) { vs_steppers<Eig<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>, 2, 2>, Vec<4>>(l, "eigen_row_major"); }
#else
static void fill(Bodies &l) { typedef Eig<Eigen::ArrayXd, 3, 1> A; typedef Vec<3> R; const char *nm = "eigen_array"; Bodies &list = l; fixed_steppers<A, R>(list, nm); more_steppers<A, R>(list, nm); symplectic_steppers<A, R>(list, nm); }
#endif
#elif TYPES == 26 // gsl vectors
#include <gsl/gsl_vector.h>
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
struct Gsl : Base<gsl_vector *> { enum { D = 3 }; static void init(state &x) { x = gsl_vector_alloc(3); } static void fin(state &x) { gsl_vector_free(x); } static void put(gsl_vector *x, const double *v) { for (int i = 0; i < 3; i++) gsl_vector_set(x, i, v[i]); } static void get(const gsl_vector *x, double *v) { for (int i = 0; i < 3; i++) v[i] = gsl_vector_get(x, i); } };
struct GslStrided : Gsl { static void init(state &x) { double *p = (double *)calloc(5 * 3, sizeof(double)); for (int i = 0; i < 15; i++) p[i] = -77; x = (gsl_vector *)calloc(1, sizeof(gsl_vector)); x->size = 3; x->stride = 4; x->data = p + 1; } static void fin(state &x) { double *p = x->data - 1; int bad = 0; for (int i = 0; i < 15; i++) bad += (i % 4 != 1 || i > 9) && p[i] != -77; free(p); free(x); MC_CHECK(!bad, "gsl-gaps", "elements between those of a strided vector were written"); } };
template <class A> static void gsl_steppers(Bodies &list, const char *nm) { typedef Vec<3> R; ADD(euler) ADD(midpoint) ADD(rk4) ADD(rk4_classic) ADD(ck54) ADD(ck54_classic) ADD(dopri5) ADD(fehlberg78) ADD(ab3) ADD(abm2) ADD(extra4) ADD(d_euler) ADD(verlet) ADD(symplectic_euler) ADD(rkn_sb3a) ADD(rkn_m4) }
static void fill(Bodies &list) { gsl_steppers<Gsl>(list, "gsl_vector"); gsl_steppers<GslStrided>(list, "gsl_strided"); }
#elif TYPES == 27 // a multiprecision number with the precision of double, rounded like double
#include <boost/multiprecision/cpp_bin_float.hpp>
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<53, boost::multiprecision::digit_base_2, void, std::int16_t, -1022, 1023>, boost::multiprecision::et_off> Mp;
struct VMpExact : DynSeq<std::vector<Mp>, Mp, 2> { typedef Mp time; static Mp tm(double t) { return Mp(t); } static double tmd(const Mp &t) { return double(t); } }; struct VMp : VMpExact { static double tol() { return 1e-9; } };
static void fill(Bodies &list) { typedef Vec<2> R; const char *nm = "multiprecision"; { typedef VMpExact A; ADD(euler) ADD(rk4) ADD(ck54) ADD(dopri5) ADD(fehlberg78) ADD(ab3) ADD(abm2) } { typedef VMp A; ADD(c_ck54) ADD(c_dopri5) ADD(d_dopri5) } }
#endif
