// C20: algebras and operations. Every algebra x arity x size x container kind x aliasing pattern within the
// bounds runs on the real loops with an operation that records which elements it is given; operations are
// evaluated on all basis vectors; norms on all vectors over a small value set.
#define FUSION_MAX_VECTOR_SIZE 20
#define BOOST_FUSION_INVOKE_MAX_ARITY 15
#define BOOST_FUSION_INVOKE_PROCEDURE_MAX_ARITY 15
#define BOOST_FUSION_INVOKE_FUNCTION_OBJECT_MAX_ARITY 15
#define BOOST_FUSION_UNFUSED_MAX_ARITY 15
#define BOOST_RESULT_OF_NUM_ARGS 15
#include "mc.hpp"
#include <array>
#include <deque>
#include <list>
#include <complex>
#include <memory>
#include <map>
#include <set>
#include <limits>
#include <boost/array.hpp>
#include <boost/multi_array.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/fusion/container/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
namespace ode = boost::numeric::odeint;
static bool thorough() { return mc::E().tier == "thorough"; }

// ---- loops -------------------------------------------------------------------------------------------
typedef std::vector<const void*> Tuple;
static std::vector<Tuple>* g_log;
struct Rec {   // records the addresses of its arguments and marks the first one
    typedef void result_type;
    template <class... T> void operator()(T&... t) const { Tuple v = {static_cast<const void*>(&t)...}; g_log->push_back(v); mark(t...); }
    template <class F, class... R> void mark(F& f, R&...) const { mark1(f); }
    template <class F> void mark1(F& f) const { f = F(f + F(1000)); }
};
// for_eachK for K chosen at compile time over an array of container pointers
template <int K> struct FE;
#define A1(f) f(0)
#define AN(n, ...) template <> struct FE<n> { template <class A, class P, class O> static void run(P& c, O op) { A::for_each##n(__VA_ARGS__, op); } };
#define C(i) (*c[i])
AN(1, C(0)) AN(2, C(0), C(1)) AN(3, C(0), C(1), C(2)) AN(4, C(0), C(1), C(2), C(3)) AN(5, C(0), C(1), C(2), C(3), C(4)) AN(6, C(0), C(1), C(2), C(3), C(4), C(5)) AN(7, C(0), C(1), C(2), C(3), C(4), C(5), C(6))
AN(8, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7)) AN(9, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8)) AN(10, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9)) AN(11, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10))
AN(12, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11)) AN(13, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11), C(12)) AN(14, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11), C(12), C(13))
AN(15, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11), C(12), C(13), C(14))
#undef C
// alias pattern: which object each position refers to. Small arities: all patterns; larger: distinct, all the same,
// every single pair, and position 0 repeated everywhere but once
static std::vector<int> aliasing(int k) {
    std::vector<int> p(k); for (int i = 0; i < k; i++) p[i] = i;
    if (k <= 4) { int top = 0; for (int i = 1; i < k; i++) { p[i] = mc::choose(top + 2); top = std::max(top, p[i]); } return p; }
    int m = mc::choose(3); if (m == 1) for (int i = 0; i < k; i++) p[i] = 0;
    if (m == 2) { int i = mc::choose(k), j = mc::choose(k); if (i < j) p[j] = i; }
    return p;
}
// kinds: how to make a container of n elements and list the addresses of its elements in index order
template <class X> struct Dyn { static bool fixed() { return false; } static std::shared_ptr<X> make(size_t n) { return std::make_shared<X>(n); } static std::vector<const void*> addr(X& x) { std::vector<const void*> a; for (auto it = boost::begin(x); it != boost::end(x); ++it) a.push_back(&*it); return a; } };
template <class X> struct Fix { static bool fixed() { return true; } static std::shared_ptr<X> make(size_t) { return std::make_shared<X>(); } static std::vector<const void*> addr(X& x) { std::vector<const void*> a; for (auto it = boost::begin(x); it != boost::end(x); ++it) a.push_back(&*it); return a; } };
template <class X> struct Num { static bool fixed() { return true; } static std::shared_ptr<X> make(size_t) { return std::make_shared<X>(); } static std::vector<const void*> addr(X& x) { return {&x}; } };
struct Guarded {   // a sub-range of a larger buffer; the elements around it must stay untouched
    std::vector<double> buf; boost::iterator_range<double*> r; explicit Guarded(size_t n) : buf(n + 6, -7), r(buf.data() + 3, buf.data() + 3 + n) {}
    bool intact() const { for (int i = 0; i < 3; i++) if (buf[i] != -7 || buf[buf.size() - 1 - i] != -7) return false; return true; }
};
typedef boost::multi_array<double, 1> MA1; typedef boost::multi_array<double, 2> MA2; typedef boost::multi_array<double, 3> MA3;
template <class X, int D> struct Mul { static bool fixed() { return false; }
    static std::shared_ptr<X> make(size_t n) { boost::array<size_t, D> e; for (int i = 0; i < D; i++) e[i] = i == 0 ? n : (i == 1 ? 3 : 2); std::shared_ptr<X> p(new X(e)); boost::array<typename X::index, D> b; for (int i = 0; i < D; i++) b[i] = (n % 2) ? 2 - 3 * i : 0; p->reindex(b); return p; }
    static std::vector<const void*> addr(X& x) { std::vector<const void*> a; for (size_t i = 0; i < x.num_elements(); i++) a.push_back(x.data() + i); return a; } };
template <class X> struct Mul1 : Mul<X, 1> {}; template <class X> struct Mul2 : Mul<X, 2> {}; template <class X> struct Mul3 : Mul<X, 3> {};
namespace bf = boost::fusion;
typedef bf::vector<double> F1; typedef bf::vector<double, float> F2; typedef bf::vector<float, double, long double> F3; typedef bf::vector<double, int, double, float, long double> F5;
struct Adr { typedef void result_type; std::vector<const void*>* a; template <class T> void operator()(T& t) const { a->push_back(&t); } };
struct Zero { typedef void result_type; template <class T> void operator()(T& t) const { t = T(); } };
template <class X> struct Fus { static bool fixed() { return true; } static std::shared_ptr<X> make(size_t) { std::shared_ptr<X> p(new X()); bf::for_each(*p, Zero()); return p; } static std::vector<const void*> addr(X& x) { std::vector<const void*> a; Adr f = {&a}; bf::for_each(x, f); return a; } };

template <class A, class X, class M, int K> void loop1(const char* nm, size_t n) {
    std::vector<int> al = aliasing(K); std::vector<std::shared_ptr<X>> own(K); std::vector<X*> c(K); std::vector<std::vector<const void*>> ad(K);
    for (int i = 0; i < K; i++) { if (al[i] == i || !own[al[i]]) own[al[i]] = M::make(n); }
    for (int i = 0; i < K; i++) { c[i] = own[al[i]].get(); ad[i] = M::addr(*c[i]); }
    std::string cx = mc::fmt(nm, " for_each", K, " size ", n, " aliasing"); for (int i : al) cx += mc::fmt(" ", i); mc::ctx(cx);
    size_t len = ad[0].size(); std::vector<Tuple> log; g_log = &log; FE<K>::template run<A>(c, Rec()); mc::transition();
    std::string kk = mc::fmt(":", nm, ":for_each", K);
    MC_CHECK(log.size() == len, "calls" + kk, "the operation was called ", log.size(), " times for ", len, " elements");
    std::map<const void*, size_t> pos; for (size_t i = 0; i < len; i++) pos[ad[0][i]] = i; std::vector<int> seen(len, 0);
    for (auto& t : log) { auto it = pos.find(t[0]); MC_CHECK(it != pos.end(), "foreign-element" + kk, "called with an object that is no element of the first container"); size_t i = it->second; seen[i]++;
        for (int j = 0; j < K; j++) MC_CHECK(t[j] == ad[j][i], "tuple" + kk, "argument ", j + 1, " of the call for element ", i, " is not element ", i, " of container ", j + 1); }
    for (size_t i = 0; i < len; i++) MC_CHECK(seen[i] == 1, "once" + kk, "element ", i, " was visited ", seen[i], " times");
    mc::state(std::hash<std::string>()(cx)); mc::outcome(mc::mix(len, K));
}
template <class A, class X, class M, int K> struct Loops { static void run(int k, const char* nm, size_t n) { if (k == K) loop1<A, X, M, K>(nm, n); else Loops<A, X, M, K - 1>::run(k, nm, n); } };
template <class A, class X, class M> struct Loops<A, X, M, 0> { static void run(int, const char*, size_t) {} };
template <class A, class X, class M> void loops(const char* nm) {
    int k = 1 + mc::choose(15); size_t n = 0; if (!M::fixed()) { int top = thorough() ? 34 : 18; n = mc::choose(top); } mc::shard_point(); Loops<A, X, M, 15>::run(k, nm, n);
}
// neighbours of a sub-range, mixed container kinds, constant arguments
template <class A> void mixed(const char* nm) {
    int k = 1 + mc::choose(4); size_t n = mc::choose(18); mc::shard_point(); mc::ctx(mc::fmt(nm, " mixed for_each", k, " size ", n)); std::string kk = mc::fmt(":", nm, ":mixed", k);
    Guarded g(n), g2(n); std::deque<float> d(n); const std::vector<double> v(n, 2.5); std::list<int> l(n); boost::numeric::ublas::vector<double> u(n);
    std::vector<Tuple> log; g_log = &log;
    switch (k) { case 1: A::for_each1(g.r, Rec()); break; case 2: A::for_each2(d, v, Rec()); break; case 3: A::for_each3(g.r, u, v, Rec()); break; case 4: A::for_each4(u, g.r, d, g2.r, Rec()); break; }
    std::vector<std::vector<const void*>> ad; auto put = [&](auto& x) { std::vector<const void*> a; for (auto it = boost::begin(x); it != boost::end(x); ++it) a.push_back(&*it); ad.push_back(a); };
    switch (k) { case 1: put(g.r); break; case 2: put(d); put(v); break; case 3: put(g.r); put(u); put(v); break; case 4: put(u); put(g.r); put(d); put(g2.r); break; }
    MC_CHECK(log.size() == n, "calls" + kk, log.size(), " calls for ", n, " elements"); std::set<size_t> seen;
    for (auto& t : log) { size_t i = std::find(ad[0].begin(), ad[0].end(), t[0]) - ad[0].begin(); MC_CHECK(i < n && seen.insert(i).second, "once" + kk, "element ", i); for (int j = 0; j < k; j++) MC_CHECK(t[j] == ad[j][i], "tuple" + kk, "argument ", j + 1, " of element ", i); }
    MC_CHECK(g.intact() && g2.intact(), "neighbours" + kk, "elements outside the range were changed"); mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx)); mc::outcome(k * 100 + n);
}
// the overload of array_algebra with a second writable argument
template <class X> void array_swap(const char* nm) {
    int al = mc::choose(3); mc::ctx(mc::fmt(nm, " writable second argument, aliasing ", al)); X a, b, c; for (size_t i = 0; i < a.size(); i++) { a[i] = 10 + i; b[i] = 100 + i; c[i] = 1000 + i; }
    ode::default_operations::scale_sum_swap2<double> op(2, 3); X a0 = a, b0 = b, c0 = c; 
    if (al == 0) ode::array_algebra::for_each3(a, b, c, op); else if (al == 1) ode::array_algebra::for_each3(a, b, b, op); else ode::array_algebra::for_each3(a, b, const_cast<const X&>(a), op);
    for (size_t i = 0; i < a.size(); i++) { double t3 = al == 0 ? c0[i] : al == 1 ? b0[i] : a0[i]; MC_CHECK(a[i] == 2 * b0[i] + 3 * t3 && b[i] == a0[i] && (al != 0 || c[i] == c0[i]), mc::fmt("swap:", nm), "element ", i, ": ", a[i], " ", b[i]); }
    mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx)); mc::outcome(al);
}
// nested OpenMP algebra: one inner call per part
template <class In> void nested(const char* nm) {
    int k = 1 + mc::choose(15); size_t parts = mc::choose(5), n = mc::choose(4); mc::shard_point(); (void)k; mc::ctx(mc::fmt(nm, " parts ", parts, " sizes from ", n));
    typedef std::vector<std::vector<double>> X; auto mk = [&](double b) { X x(parts); for (size_t p = 0; p < parts; p++) x[p].assign((n + p) % 4, b); return x; };
    std::vector<X> own; for (int i = 0; i < 15; i++) own.push_back(mk(i)); std::vector<X*> c; for (auto& x : own) c.push_back(&x); std::vector<Tuple> log; g_log = &log;
    auto go = [&](auto K) { FE<decltype(K)::value>::template run<ode::openmp_nested_algebra<In>>(c, Rec()); };
    switch (k) {
#define G(i) case i: go(std::integral_constant<int, i>()); break;
    G(1) G(2) G(3) G(4) G(5) G(6) G(7) G(8) G(9) G(10) G(11) G(12) G(13) G(14) G(15) }
    std::map<const void*, std::pair<size_t, size_t>> pos; size_t tot = 0; for (size_t p = 0; p < parts; p++) for (size_t i = 0; i < own[0][p].size(); i++) { pos[&own[0][p][i]] = {p, i}; tot++; }
    MC_CHECK(log.size() == tot, mc::fmt("calls:", nm, k), log.size(), " calls for ", tot, " elements"); std::set<const void*> seen;
    for (auto& t : log) { MC_CHECK(pos.count(t[0]) && seen.insert(t[0]).second, mc::fmt("once:", nm, k), "element visited twice or foreign"); auto q = pos[t[0]]; for (int j = 0; j < k; j++) MC_CHECK(t[j] == &own[j][q.first][q.second], mc::fmt("tuple:", nm, k), "argument ", j + 1); }
    mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx)); mc::outcome(mc::mix(k, tot));
}

static void mixed_omp() { size_t n = mc::choose(18); mc::ctx(mc::fmt("openmp_range sub-range of size ", n)); Guarded a(n), b(n), c(n); std::vector<Tuple> log; g_log = &log; ode::openmp_range_algebra::for_each3(a.r, b.r, c.r, Rec()); MC_CHECK(log.size() == n && a.intact() && b.intact() && c.intact(), "neighbours:openmp_range", log.size()); std::set<const void*> s; for (auto& t : log) { s.insert(t[0]); size_t i = (double*)t[0] - a.r.begin(); MC_CHECK(i < n && t[1] == b.r.begin() + i && t[2] == c.r.begin() + i, "tuple:openmp_range", i); } MC_CHECK(s.size() == n, "once:openmp_range", s.size()); mc::transition(); mc::state(n); mc::outcome(n); }

// ---- operations ----------------------------------------------------------------------------------------
typedef ode::default_operations O;
// scale_sumK with factor j of type long double (needing its precision), the others double
template <int K, int J> struct Fac { template <int I> using t = typename std::conditional<I == J, long double, double>::type; };
template <int K> struct Ops;
#define T(i) typename Fac<K_, J>::template t<i>
#define OPS(n, TYPES, FARGS, CARGS) template <> struct Ops<n> { static const int K_ = n; template <int J> using type = O::scale_sum##n<TYPES>; \
    template <int J, class V, class F> static void call(V* a, const F* f) { type<J> op FARGS; op CARGS; } \
    template <class V, class F> static void same(V* a, const F* f) { O::scale_sum##n<F> op FARGS; op CARGS; } };
#define L1(m) m(1)
#define L2(m) L1(m), m(2)
#define L3(m) L2(m), m(3)
#define L4(m) L3(m), m(4)
#define L5(m) L4(m), m(5)
#define L6(m) L5(m), m(6)
#define L7(m) L6(m), m(7)
#define L8(m) L7(m), m(8)
#define L9(m) L8(m), m(9)
#define L10(m) L9(m), m(10)
#define L11(m) L10(m), m(11)
#define L12(m) L11(m), m(12)
#define L13(m) L12(m), m(13)
#define L14(m) L13(m), m(14)
#define FF(i) f[i]
#define AA(i) a[i]
#undef T
#define TT(i) typename Fac<K_, J>::template t<i>
#define OPSN(n) OPS(n, L##n(TT), (L##n(FF)), (a[0], L##n(AA)))
OPSN(1) OPSN(2) OPSN(3) OPSN(4) OPSN(5) OPSN(6) OPSN(7) OPSN(8) OPSN(9) OPSN(10) OPSN(11) OPSN(12) OPSN(13) OPSN(14)
template <class V> struct poison { static V v() { return std::numeric_limits<V>::quiet_NaN(); } };
template <class R> struct poison<std::complex<R>> { static std::complex<R> v() { R q = std::numeric_limits<R>::quiet_NaN(); return {q, q}; } };
template <> struct poison<int> { static int v() { return 987654; } };
static const int PR[] = {0, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43};
template <class V, class F> void check_sum(V* a, const F* f, int K, void (*call)(V*, const F*), const char* nm) {
    V in[16]; for (int i = 0; i <= K; i++) in[i] = a[i]; a[0] = poison<V>::v(); in[0] = a[0]; call(a, f); mc::transition();
    V want = V(0); for (int i = 1; i <= K; i++) want = V(want + V(f[i] * in[i])); MC_CHECK(a[0] == want, mc::fmt("sum:scale_sum", K, ":", nm), "wrong sum");
    for (int i = 1; i <= K; i++) MC_CHECK(a[i] == in[i], mc::fmt("argument-changed:scale_sum", K, ":", nm), "argument ", i);
}
template <int K> void sums_k() {
    // all subsets of arguments of size <= 2 non-zero, values of both signs, and one with all of them
    int s1 = mc::choose(K + 2), s2 = s1 >= 1 && s1 <= K ? mc::choose(K + 1) : 0, ty = mc::choose(5), sg = mc::choose(3); mc::ctx(mc::fmt("scale_sum", K, " arguments ", s1, ",", s2, " type ", ty, " signs ", sg));
    auto val = [&](int i) -> int { bool on = s1 == K + 1 || i == s1 || i == s2; return on ? (sg == 1 ? -1 : 1) * (1 + (s1 * i) % 5) : 0; }; auto fac = [&](int i) -> int { return sg == 2 && i % 2 ? -PR[i] : PR[i]; };
    if (ty == 0) { double a[16], f[16]; for (int i = 1; i <= K; i++) { a[i] = val(i); f[i] = fac(i); } check_sum<double, double>(a, f, K, &Ops<K>::template same<double, double>, "double"); }
    if (ty == 1) { float a[16], f[16]; for (int i = 1; i <= K; i++) { a[i] = val(i); f[i] = fac(i); } check_sum<float, float>(a, f, K, &Ops<K>::template same<float, float>, "float"); }
    if (ty == 2) { typedef std::complex<double> Z; Z a[16]; double f[16]; for (int i = 1; i <= K; i++) { a[i] = Z(val(i), -2 * val(i) + i * (val(i) != 0)); f[i] = fac(i); } check_sum<Z, double>(a, f, K, &Ops<K>::template same<Z, double>, "complex"); }
    if (ty == 3) { int a[16], f[16]; for (int i = 1; i <= K; i++) { a[i] = val(i); f[i] = fac(i); } check_sum<int, int>(a, f, K, &Ops<K>::template same<int, int>, "int"); }
    if (ty == 4) { typedef std::complex<double> Z; Z a[16], f[16]; for (int i = 1; i <= K; i++) { a[i] = Z(val(i), 3 * val(i)); f[i] = Z(fac(i), i); } check_sum<Z, Z>(a, f, K, &Ops<K>::template same<Z, Z>, "complex factors"); }
    mc::state(std::hash<std::string>()(mc::E().ctx)); mc::outcome(mc::mix(K, s1 * 100 + s2));
}
// factor J has its own type: nothing may pass through a narrower one
template <int K, int J> struct Wide { static void run() {
    mc::ctx(mc::fmt("scale_sum", K, " with a long double factor ", J)); long double a[16] = {}, f[16] = {}; const long double big = (1ull << 62) + 1.0L; 
    for (int i = 1; i <= K; i++) { a[i] = i == J ? 1 : 0; f[i] = i == J ? big : 3; } a[0] = 5; Ops<K>::template call<J>(a, f); MC_CHECK(a[0] == big, mc::fmt("narrowed:scale_sum", K), "factor ", J, " lost precision");
    mc::transition(); mc::state(K * 100 + J); mc::outcome(K * 100 + J); Wide<K, J - 1>::run(); } };
template <int K> struct Wide<K, 0> { static void run() {} };
template <int K> struct AllSums { static void run(int k) { if (k == K) { sums_k<K>(); Wide<K, K>::run(); } else AllSums<K - 1>::run(k); } };
template <> struct AllSums<0> { static void run(int) {} };
static void sums() { int k = 1 + mc::choose(14); mc::shard_point(); AllSums<14>::run(k); }

static const double VAL[] = {0, 1, -1, 0.5, -3, 8, -0.125, 2.75};
template <class V> V vl(int i) { return V(VAL[i]); }
template <class V> void others(const char* nm) {
    int nv = thorough() ? 8 : 6; V x = vl<V>(mc::choose(nv)), y = vl<V>(mc::choose(nv)), e = vl<V>(mc::choose(nv)); mc::shard_point(); static const double EP[] = {1, 0.25, 1e-3}; double ea = EP[mc::choose(3)], er = EP[mc::choose(3)]; double ax = mc::choose(2) ? 1 : 0.5, ad = mc::choose(3) * 0.75;
    mc::ctx(mc::fmt(nm, " x ", mc::fmt(x), " y ", mc::fmt(y), " err ", mc::fmt(e), " eps_abs ", ea, " eps_rel ", er, " a_x ", ax, " a_dxdt ", ad)); typedef decltype(std::abs(V())) R; auto ab = [](V v) { return (double)std::abs(v); }; double tl = std::is_same<R, float>::value ? 1e-5 : 1e-13;
    auto same = [&](double a, double b, const char* w) { MC_CHECK(std::fabs(a - b) <= tl * (std::fabs(b)) , mc::fmt("value:", w, ":", nm), "gives ", a, " expected ", b); mc::transition(); mc::outcome(mc::hash_double(a)); };
    V xx = x, yy = y;
    { V t = e; O::rel_error<R>(R(ea), R(er), R(ax), R(ad))(t, xx, yy); same(std::real(std::complex<double>(t)), ab(e) / (ea + er * (ax * ab(x) + ad * ab(y))), "rel_error"); MC_CHECK(t == V(std::abs(t)), mc::fmt("value:rel_error:", nm), "not a non-negative real"); }
    { V t = e; O::default_rel_error<R>(R(ea), R(er))(t, xx, yy); same(std::real(std::complex<double>(t)), ab(e) / (ea + er * std::max(ab(x), ab(y))), "default_rel_error"); }
    { same(O::maximum<R>()(x, y), std::max(ab(x), ab(y)), "maximum"); same(ode::detail::fusion_maximum<R>()(x, y), std::max(ab(x), ab(y)), "fusion_maximum"); }
    for (double r : {0.0, 0.5, 4.0, 1e4}) {
        same(O::rel_error_max<R>(R(ea), R(er))(R(r), xx, yy, e), std::max(r, ab(e) / (ea + er * std::max(ab(x), ab(y)))), "rel_error_max");
        same(O::rel_error_l2<R>(R(ea), R(er))(R(r), xx, yy, e), r + std::pow(ab(e) / (ea + er * std::max(ab(x), ab(y))), 2), "rel_error_l2");
        for (int w = 0; w < 2; w++) { V other = vl<V>(w ? 5 : 0);
            same(O::rel_error_max2<R>(R(ea), R(er), R(ax), R(ad))(R(r), xx, other, yy, e), std::max(r, ab(e) / (ea + er * (ax * ab(x) + ad * ab(y)))), "rel_error_max2");
            same(O::rel_error_l2_2<R>(R(ea), R(er), R(ax), R(ad))(R(r), xx, other, yy, e), r + std::pow(ab(e) / (ea + er * (ax * ab(x) + ad * ab(y))), 2), "rel_error_l2_2"); }
    }
    { V t = x; O::scale<V> op(y); op(t); MC_CHECK(t == V(x * y), mc::fmt("value:scale:", nm), mc::fmt(t)); }
    { V a = x, b = y, c = e; O::scale_sum_swap2<R>(R(2), R(-4))(a, b, c); MC_CHECK(a == V(R(2) * y + R(-4) * e) && b == x && c == e, mc::fmt("value:scale_sum_swap2:", nm), mc::fmt(a), " ", mc::fmt(b)); V z = x; O::scale_sum_swap2<R>(R(2), R(-4))(z, b, b); MC_CHECK(b == x, mc::fmt("value:scale_sum_swap2:", nm), "aliased"); }
    MC_CHECK(xx == x && yy == y, mc::fmt("argument-changed:", nm), "an argument changed"); mc::state(std::hash<std::string>()(mc::E().ctx));
}
// operations on quantities with units: error weights ignore the unit, sums keep it
static void units() {
    namespace si = boost::units::si; typedef boost::units::quantity<si::length, double> L; typedef boost::units::quantity<si::velocity, double> Vq; typedef boost::units::quantity<si::time, double> Tq;
    double x = VAL[mc::choose(8)], v = VAL[mc::choose(8)], e = VAL[mc::choose(8)], h = VAL[mc::choose(8)]; mc::shard_point(); mc::ctx(mc::fmt("units x ", x, " v ", v, " err ", e, " dt ", h));
    L lx = x * si::meter, l0 = 99.0 * si::meter, le = e * si::meter; Vq lv = v * si::meter_per_second; Tq t = h * si::second;
    O::scale_sum2<double, Tq>(1.0, t)(l0, lx, lv); MC_CHECK(l0.value() == x + h * v, "units:scale_sum2", l0.value());
    O::scale_sum1<Tq> s1(t); s1(l0, lv); MC_CHECK(l0.value() == h * v, "units:scale_sum1", l0.value());
    L er = le; O::rel_error<double>(0.5, 2, 1, 3)(er, lx, lv); MC_CHECK(mc::close(er.value(), std::fabs(e) / (0.5 + 2 * (std::fabs(x) + 3 * std::fabs(v))), 1e-14), "units:rel_error", er.value());
    er = le; O::default_rel_error<double>(0.5, 2)(er, lx, l0); MC_CHECK(mc::close(er.value(), std::fabs(e) / (0.5 + 2 * std::max(std::fabs(x), std::fabs(h * v))), 1e-14), "units:default_rel_error", er.value());
    typedef bf::vector<L, Vq> S; S s(lx, lv); MC_CHECK(ode::fusion_algebra::norm_inf(s) == std::max(std::fabs(x), std::fabs(v)), "units:fusion-norm", ode::fusion_algebra::norm_inf(s));
    MC_CHECK(O::maximum<double>()(lx, lv) == std::max(std::fabs(x), std::fabs(v)), "units:maximum", 0);
    mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx)); mc::outcome(mc::hash_double(er.value()));
}

static void others_complex() {   // error weights of complex states: moduli
    static const std::complex<double> z[] = {{0, 0}, {3, 4}, {-5, 12}, {0, -2}}; typedef std::complex<double> Z; Z x = z[mc::choose(4)], y = z[mc::choose(4)], e = z[mc::choose(4)]; mc::shard_point(); std::ostringstream os; os << "complex " << x << y << e; mc::ctx(os.str());
    Z t = e; O::rel_error<double>(0.5, 2, 1, 3)(t, x, y); MC_CHECK(mc::close(t.real(), std::abs(e) / (0.5 + 2 * (std::abs(x) + 3 * std::abs(y))), 1e-14) && t.imag() == 0, "value:rel_error:complex", t.real());
    t = e; O::default_rel_error<double>(0.5, 2)(t, x, y); MC_CHECK(mc::close(t.real(), std::abs(e) / (0.5 + 2 * std::max(std::abs(x), std::abs(y))), 1e-14) && t.imag() == 0, "value:default_rel_error:complex", t.real());
    MC_CHECK(O::maximum<double>()(x, y) == std::max(std::abs(x), std::abs(y)), "value:maximum:complex", 0); mc::transition(); mc::state(std::hash<std::string>()(os.str())); mc::outcome(mc::hash_double(t.real()));
}
// ---- norms ---------------------------------------------------------------------------------------------
template <class V> V nv(int i) { return V(VAL[i]); }
template <> std::complex<double> nv<std::complex<double>>(int i) { static const std::complex<double> z[] = {{0, 0}, {3, 4}, {-5, 12}, {0, -2}, {-1, 0}, {0.5, -0.5}, {0, 7}, {1, 1}}; return z[i]; }
template <> std::complex<float> nv<std::complex<float>>(int i) { return std::complex<float>(nv<std::complex<double>>(i)); }
template <class A, class X, class V> void norm(const char* nm, size_t lo, size_t hi, X (*mk)(const std::vector<V>&)) {
    size_t n = lo + mc::choose(int(hi - lo + 1)); std::vector<V> v(n); double want = 0; int vals = thorough() ? 8 : 6; for (size_t i = 0; i < n; i++) { v[i] = nv<V>(mc::choose(n > 4 && !thorough() ? 3 : vals)); if (i == 0) mc::shard_point(); want = std::max(want, double(std::abs(v[i]))); }
    const X x = mk(v); std::string cx = mc::fmt(nm, " norm_inf of"); for (V q : v) { std::ostringstream os; os << q; cx += " " + os.str(); } mc::ctx(cx); double got = (double)A::norm_inf(x); mc::transition();
    MC_CHECK(got == want, mc::fmt("norm:", nm), "gives ", got, " expected ", want); mc::state(std::hash<std::string>()(cx)); mc::outcome(mc::hash_double(got));
}
// a long vector with one large element at every position (parallel reduction included)
template <class A, class X, class V> void norm_pos(const char* nm, X (*mk)(const std::vector<V>&)) {
    size_t n = 1 + mc::choose(thorough() ? 40 : 20), p = mc::choose((int)n); int sg = mc::choose(2); mc::shard_point(); std::vector<V> v(n); for (size_t i = 0; i < n; i++) v[i] = V(0.5 - 0.01 * i); v[p] = V(sg ? -9 : 9); mc::ctx(mc::fmt(nm, " norm_inf size ", n, " largest at ", p));
    const X x = mk(v); MC_CHECK((double)A::norm_inf(x) == 9, mc::fmt("norm:", nm), "largest element at ", p, " of ", n, " missed: ", (double)A::norm_inf(x)); mc::transition(); mc::state(n * 100 + p); mc::outcome(n * 100 + p);
}
template <class X, class V> X seq(const std::vector<V>& v) { return X(v.begin(), v.end()); }
template <class X, class V> X fix(const std::vector<V>& v) { X x; for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; return x; }
template <class X, class V> X siz(const std::vector<V>& v) { X x(v.size()); for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; return x; }
template <class V> V one(const std::vector<V>& v) { return v[0]; }
static boost::multi_array<double, 2> ma2(const std::vector<double>& v) { boost::multi_array<double, 2> m(boost::extents[v.size()][2]); for (size_t i = 0; i < v.size(); i++) { m[i][0] = v[i] / 2; m[i][1] = v[i]; } return m; }
static boost::multi_array<double, 1> ma1(const std::vector<double>& v) { boost::multi_array<double, 1> m(boost::extents[v.size()]); for (size_t i = 0; i < v.size(); i++) m[i] = v[i]; return m; }
static F2 fu2(const std::vector<double>& v) { return F2(v[0], float(v[1])); }
static bf::vector<double, double, double, double> fu4(const std::vector<double>& v) { return bf::vector<double, double, double, double>(v[0], v[1], v[2], v[3]); }
static std::vector<std::vector<double>> nest(const std::vector<double>& v) { std::vector<std::vector<double>> r(3); for (size_t i = 0; i < v.size(); i++) r[(i + v.size()) % 3].push_back(v[i]); return r; }

int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B; typedef std::vector<double> vd; namespace ub = boost::numeric::ublas;
#define LOOP(nm, A, M, ...) B.push_back({"loop." nm, [] { typedef __VA_ARGS__ XX; loops<ode::A, XX, M<XX>>(nm); }});
#define NORM(nm, A, V, lo, hi, mk, ...) B.push_back({"norm." nm, [] { typedef __VA_ARGS__ XX; norm<ode::A, XX, V>(nm, lo, hi, mk); }});
#define NPOS(nm, A, V, mk, ...) B.push_back({"normpos." nm, [] { typedef __VA_ARGS__ XX; norm_pos<ode::A, XX, V>(nm, mk); }});
#if GROUP == 1
    LOOP("range.vector", range_algebra, Dyn, vd) LOOP("range.list", range_algebra, Dyn, std::list<float>) LOOP("range.deque", range_algebra, Dyn, std::deque<int>) LOOP("range.ublas", range_algebra, Dyn, ub::vector<double>)
    B.push_back({"mixed.range", [] { mixed<ode::range_algebra>("range"); }}); B.push_back({"mixed.openmp", [] { mixed_omp(); }});
#elif GROUP == 2
    LOOP("array.std1", array_algebra, Fix, std::array<double, 1>) LOOP("array.std3", array_algebra, Fix, std::array<float, 3>) LOOP("array.std0", array_algebra, Fix, std::array<double, 0>) LOOP("array.boost7", array_algebra, Fix, boost::array<double, 7>) LOOP("range.array", range_algebra, Fix, std::array<double, 4>)
    B.push_back({"swap.std", [] { array_swap<std::array<double, 5>>("std::array"); }}); B.push_back({"swap.boost", [] { array_swap<boost::array<double, 3>>("boost::array"); }});
#elif GROUP == 3
    LOOP("fusion.1", fusion_algebra, Fus, F1) LOOP("fusion.2", fusion_algebra, Fus, F2)
#elif GROUP == 4
    LOOP("fusion.3", fusion_algebra, Fus, F3) LOOP("fusion.5", fusion_algebra, Fus, F5)
#elif GROUP == 5
    LOOP("multi1", multi_array_algebra, Mul1, MA1) LOOP("multi2", multi_array_algebra, Mul2, MA2) LOOP("multi3", multi_array_algebra, Mul3, MA3) LOOP("space.double", vector_space_algebra, Num, double) LOOP("space.complex", vector_space_algebra, Num, std::complex<double>)
    LOOP("openmp.vector", openmp_range_algebra, Dyn, vd) LOOP("openmp.deque", openmp_range_algebra, Dyn, std::deque<double>)
    B.push_back({"nested.openmp", [] { nested<ode::range_algebra>("openmp_nested"); }});
#elif GROUP == 6
    B.push_back({"sums", sums}); B.push_back({"ops.double", [] { others<double>("double"); }}); B.push_back({"ops.float", [] { others<float>("float"); }}); B.push_back({"ops.complex", [] { others_complex(); }}); B.push_back({"units", units});
#elif GROUP == 7
    typedef std::complex<double> Z; typedef std::complex<float> Zf; typedef long double LD;
    NORM("range.vector", range_algebra, double, 0, 5, seq, vd) NORM("range.list-float", range_algebra, float, 0, 4, seq, std::list<float>) NORM("range.long-double", range_algebra, LD, 0, 3, seq, std::deque<LD>)
    NORM("array.std4", array_algebra, double, 4, 4, fix, std::array<double, 4>) NORM("array.boost3-float", array_algebra, float, 3, 3, fix, boost::array<float, 3>) NORM("array.1", array_algebra, double, 1, 1, fix, std::array<double, 1>) NORM("array.long-double", array_algebra, LD, 2, 2, fix, std::array<LD, 2>) NORM("range.ublas", range_algebra, double, 0, 4, siz, ub::vector<double>)
    NORM("space.double", vector_space_algebra, double, 1, 1, one<double>, double) NORM("space.float", vector_space_algebra, float, 1, 1, one<float>, float) NORM("space.complex", vector_space_algebra, Z, 1, 1, one<Z>, Z) NORM("space.complex-float", vector_space_algebra, Zf, 1, 1, one<Zf>, Zf)
    NORM("multi1", multi_array_algebra, double, 0, 4, ma1, MA1) NORM("multi2", multi_array_algebra, double, 0, 4, ma2, MA2) NORM("fusion2", fusion_algebra, double, 2, 2, fu2, F2) NORM("fusion4", fusion_algebra, double, 4, 4, fu4, bf::vector<double, double, double, double>)
    NORM("openmp", openmp_range_algebra, double, 0, 4, seq, vd) NORM("openmp-nested", openmp_nested_algebra<ode::range_algebra>, double, 0, 5, nest, std::vector<vd>)
    NORM("range.complex", range_algebra, Z, 0, 4, seq, std::vector<Z>) NORM("array.complex", array_algebra, Z, 3, 3, fix, std::array<Z, 3>)
    NPOS("range", range_algebra, double, seq, vd) NPOS("openmp", openmp_range_algebra, double, seq, vd) NPOS("openmp-nested", openmp_nested_algebra<ode::range_algebra>, double, nest, std::vector<vd>) NPOS("multi", multi_array_algebra, double, ma2, MA2)
#endif
    return mc::run_main(argc, argv, B);
}
