// C10: order conditions of the explicit one-step methods;  C11: their error estimates;
// P10G: the generic Runge-Kutta machinery against a plain reference for arbitrary tableaux.
#include "trees.hpp"
#include <complex>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#ifdef MP
#include <boost/multiprecision/cpp_bin_float.hpp>
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<50>, boost::multiprecision::et_off> mp50;
#endif
namespace ode = boost::numeric::odeint;
static bool thorough() { return mc::E().tier == "thorough"; }
template <class V> double err_of(const V& a, const V& b) { using std::abs; return static_cast<double>(abs(a - b)); }
template <class R> double eps_of() { return static_cast<double>(std::numeric_limits<R>::epsilon()); }

// E element type (maybe complex), R real type
template <class E_, class R> struct Prob {
    typedef std::vector<E_> state; trees::Tree T; state off; R t0;
    struct Sys { const Prob* p; void operator()(const state& x, state& d, R t) const { mc::tick(); p->T.rhs(x, d, E_(t - p->t0), p->off); } };
    Prob(const trees::Tree& t, int o, R t0_) : T(t), off(t.n()), t0(t0_) { for (size_t i = 0; i < off.size(); i++) off[i] = o == 0 ? E_(0) : E_(R(1.5) - R(0.25) * R(double(i))); }
    E_ exact(R h, int i) const { E_ e = E_(1); for (int k = 0; k < int(T.size[i]); k++) e *= E_(h); return e / E_(T.gamma(i)); }
};
template <class E_, class R, class S> void step(S& s, int variant, typename Prob<E_, R>::Sys f, std::vector<E_>& x, R t, R h, std::vector<E_>* err, std::true_type) {
    std::vector<E_> out(x.size(), E_(7)), dummy(x.size(), E_(3)); std::vector<E_>& e = err ? *err : dummy;
    switch (variant) {
        case 0: s.do_step(f, x, t, h); break;
        case 1: s.do_step(f, x, t, out, h); x = out; break;
        case 2: s.do_step(f, x, t, h, e); break;
        case 3: s.do_step(f, x, t, out, h, e); x = out; break;
    }
}
template <class E_, class R, class S> void step(S& s, int variant, typename Prob<E_, R>::Sys f, std::vector<E_>& x, R t, R h, std::vector<E_>*, std::false_type) {
    std::vector<E_> out(x.size(), E_(7));
    if (variant == 0) s.do_step(f, x, t, h); else { s.do_step(f, x, t, out, h); x = out; }
}
template <class R> R step_size(int k) { static const double H[] = {1.0, -1.0, 0.5, -2.0}; return R(H[k]); }
static const double T0S[] = {0.0, 0.25, -3.0};

struct Info { const char* name; int order, error_order; };   // what the documentation advertises; error_order 0: no estimate
template <class E_, class R, class S, bool Err> void order(Info I, S (*make)()) {
    typedef Prob<E_, R> P; S s = make();
    int nmax = I.order; int hk = mc::choose(4), tk = mc::choose(3), o = mc::choose(2), variant = mc::choose(Err ? 4 : 2); mc::shard_point();
    if (!thorough() && I.order > 6 && (tk == 1 || hk == 2)) return;
    MC_CHECK(int(s.order()) == I.order, mc::fmt("advertised-order:", I.name), "order() is ", s.order(), ", documented ", I.order);
    trees::Tree T = trees::choose(1, nmax, true); R h = step_size<R>(hk); P p(T, o, R(T0S[tk])); typename P::Sys f = {&p};
    mc::ctx(mc::fmt(I.name, " ", T.name(), " h ", double(h), " t0 ", T0S[tk], " offset ", o, " variant ", variant));
    std::vector<E_> x(p.off);
    step<E_, R>(s, variant, f, x, p.t0, h, nullptr, std::integral_constant<bool, Err>());
    double tol = 400 * eps_of<R>() * (2 + std::pow(std::fabs(double(h)), double(T.n())));
    for (size_t i = 0; i < T.n(); i++) { if (T.time[i]) continue; E_ ex = p.off[i] + p.exact(h, i);
        MC_CHECK(err_of(x[i], ex) <= tol, mc::fmt("order:", I.name), "component ", i, " is off by ", err_of(x[i], ex), ": got ", x[i], ", exact ", ex); mc::outcome(mc::hash_double(static_cast<double>(std::abs(double(err_of(x[i], E_(0))))))); }
    mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx));
}
// the advertised order is the true one: some tree one node larger is not integrated exactly
template <class E_, class R, class S> void sharp(Info I, S (*make)()) {
    typedef Prob<E_, R> P; mc::ctx(mc::fmt(I.name, " order not higher than advertised")); if (I.order + 1 > 9) { mc::count("sharpness skipped"); }
    double worst = 0;
    for (auto& q : trees::of(I.order + 1)) { trees::Tree T(q); P p(T, 0, R(0.25)); typename P::Sys f = {&p}; std::vector<E_> x(p.off); S s = make(); s.do_step(f, x, p.t0, R(1)); worst = std::max(worst, err_of(x[0], p.off[0] + p.exact(R(1), 0))); mc::transition(); }
    MC_CHECK(worst > 1e-7, mc::fmt("order-table:", I.name), "all order conditions of order ", I.order + 1, " hold");
}

// C11 -----------------------------------------------------------------------------------------------
// textbook pairs: a, b, c and the difference of the two weight vectors
struct Tab { std::vector<std::vector<long double>> a; std::vector<long double> b, c, d; };
template <class E_, class R> std::vector<E_> ref_diff(const Tab& t, const Prob<E_, R>& p, R h, std::vector<E_>* step_out = nullptr) {
    size_t s = t.c.size(), n = p.off.size(); std::vector<std::vector<E_>> k(s, std::vector<E_>(n)); typename Prob<E_, R>::Sys f = {&p};
    for (size_t i = 0; i < s; i++) { std::vector<E_> y(p.off); for (size_t j = 0; j < t.a[i].size(); j++) for (size_t m = 0; m < n; m++) y[m] += E_(h * R(t.a[i][j])) * k[j][m]; f(y, k[i], p.t0 + h * R(t.c[i])); }
    std::vector<E_> e(n, E_(0)); for (size_t i = 0; i < s; i++) for (size_t m = 0; m < n; m++) e[m] += E_(h * R(t.d[i])) * k[i][m];
    if (step_out) { *step_out = p.off; for (size_t i = 0; i < s; i++) for (size_t m = 0; m < n; m++) (*step_out)[m] += E_(h * R(t.b[i])) * k[i][m]; }
    return e;
}
typedef long double ld;
static Tab tab_ck54() { Tab t; t.c = {0, ld(1) / 5, ld(3) / 10, ld(3) / 5, 1, ld(7) / 8};
    t.a = {{}, {ld(1) / 5}, {ld(3) / 40, ld(9) / 40}, {ld(3) / 10, ld(-9) / 10, ld(6) / 5}, {ld(-11) / 54, ld(5) / 2, ld(-70) / 27, ld(35) / 27}, {ld(1631) / 55296, ld(175) / 512, ld(575) / 13824, ld(44275) / 110592, ld(253) / 4096}};
    t.b = {ld(37) / 378, 0, ld(250) / 621, ld(125) / 594, 0, ld(512) / 1771}; std::vector<ld> bs = {ld(2825) / 27648, 0, ld(18575) / 48384, ld(13525) / 55296, ld(277) / 14336, ld(1) / 4};
    for (int i = 0; i < 6; i++) t.d.push_back(t.b[i] - bs[i]); return t; }
static Tab tab_dopri5() { Tab t; t.c = {0, ld(1) / 5, ld(3) / 10, ld(4) / 5, ld(8) / 9, 1, 1};
    t.a = {{}, {ld(1) / 5}, {ld(3) / 40, ld(9) / 40}, {ld(44) / 45, ld(-56) / 15, ld(32) / 9}, {ld(19372) / 6561, ld(-25360) / 2187, ld(64448) / 6561, ld(-212) / 729}, {ld(9017) / 3168, ld(-355) / 33, ld(46732) / 5247, ld(49) / 176, ld(-5103) / 18656}, {ld(35) / 384, 0, ld(500) / 1113, ld(125) / 192, ld(-2187) / 6784, ld(11) / 84}};
    t.b = {ld(35) / 384, 0, ld(500) / 1113, ld(125) / 192, ld(-2187) / 6784, ld(11) / 84, 0}; std::vector<ld> bs = {ld(5179) / 57600, 0, ld(7571) / 16695, ld(393) / 640, ld(-92097) / 339200, ld(187) / 2100, ld(1) / 40};
    for (int i = 0; i < 7; i++) t.d.push_back(t.b[i] - bs[i]); return t; }
static Tab tab_rkf78() { Tab t; t.c = {0, ld(2) / 27, ld(1) / 9, ld(1) / 6, ld(5) / 12, ld(1) / 2, ld(5) / 6, ld(1) / 6, ld(2) / 3, ld(1) / 3, 1, 0, 1};
    t.a = {{}, {ld(2) / 27}, {ld(1) / 36, ld(1) / 12}, {ld(1) / 24, 0, ld(1) / 8}, {ld(5) / 12, 0, ld(-25) / 16, ld(25) / 16}, {ld(1) / 20, 0, 0, ld(1) / 4, ld(1) / 5}, {ld(-25) / 108, 0, 0, ld(125) / 108, ld(-65) / 27, ld(125) / 54}, {ld(31) / 300, 0, 0, 0, ld(61) / 225, ld(-2) / 9, ld(13) / 900}, {2, 0, 0, ld(-53) / 6, ld(704) / 45, ld(-107) / 9, ld(67) / 90, 3},
        {ld(-91) / 108, 0, 0, ld(23) / 108, ld(-976) / 135, ld(311) / 54, ld(-19) / 60, ld(17) / 6, ld(-1) / 12}, {ld(2383) / 4100, 0, 0, ld(-341) / 164, ld(4496) / 1025, ld(-301) / 82, ld(2133) / 4100, ld(45) / 82, ld(45) / 164, ld(18) / 41}, {ld(3) / 205, 0, 0, 0, 0, ld(-6) / 41, ld(-3) / 205, ld(-3) / 41, ld(3) / 41, ld(6) / 41, 0}, {ld(-1777) / 4100, 0, 0, ld(-341) / 164, ld(4496) / 1025, ld(-289) / 82, ld(2193) / 4100, ld(51) / 82, ld(33) / 164, ld(12) / 41, 0, 1}};
    t.b = {0, 0, 0, 0, 0, ld(34) / 105, ld(9) / 35, ld(9) / 35, ld(9) / 280, ld(9) / 280, 0, ld(41) / 840, ld(41) / 840};
    t.d = {ld(-41) / 840, 0, 0, 0, 0, 0, 0, 0, 0, 0, ld(-41) / 840, ld(41) / 840, ld(41) / 840}; return t; }

template <class E_, class R, class S> void errest(Info I, S (*make)(), const Tab* tab) {
    typedef Prob<E_, R> P; S s = make(); int hk = mc::choose(4), tk = mc::choose(3), o = mc::choose(2), variant = 2 + mc::choose(2); mc::shard_point();
    if (!thorough() && I.order > 6 && (tk == 1 || hk == 2)) return;
    MC_CHECK(int(s.error_order()) == I.error_order && int(s.stepper_order()) == I.order, mc::fmt("advertised-order:", I.name), "stepper_order() ", s.stepper_order(), " error_order() ", s.error_order(), ", documented ", I.order, " and ", I.error_order);
    trees::Tree T = trees::choose(1, std::min(I.error_order + 1, 9), true); R h = step_size<R>(hk); P p(T, o, R(T0S[tk])); typename P::Sys f = {&p};
    mc::ctx(mc::fmt(I.name, " ", T.name(), " h ", double(h), " t0 ", T0S[tk], " offset ", o, " variant ", variant));
    std::vector<E_> x(p.off), y(p.off), e(p.off.size(), E_(5));
    step<E_, R>(s, variant, f, x, p.t0, h, &e, std::true_type());
    S s2 = make(); step<E_, R>(s2, variant - 2, f, y, p.t0, h, nullptr, std::true_type());
    double scale = 2 + std::pow(std::fabs(double(h)), double(T.n())), tol = 400 * eps_of<R>() * scale;
    for (size_t i = 0; i < T.n(); i++) {
        MC_CHECK(err_of(x[i], y[i]) <= tol, mc::fmt("estimate-changes-step:", I.name), "with estimate ", x[i], ", without ", y[i]);
        if (int(T.size[i]) <= I.error_order && !T.time[i]) MC_CHECK(err_of(e[i], E_(0)) <= tol, mc::fmt("error-order:", I.name), "estimate of component ", i, " is ", e[i], " for a solution of degree ", T.size[i]);
        mc::outcome(mc::hash_double(err_of(e[i], E_(0))));
    }
    if (tab && sizeof(R) <= sizeof(long double)) { std::vector<E_> r = ref_diff<E_, R>(*tab, p, h); for (size_t i = 0; i < T.n(); i++) MC_CHECK(err_of(e[i], r[i]) <= 8 * tol, mc::fmt("embedded-pair:", I.name), "estimate ", e[i], ", difference of the published pair ", r[i]); }
    mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx));
}
template <class E_, class R, class S> void errsharp(Info I, S (*make)()) {
    typedef Prob<E_, R> P; mc::ctx(mc::fmt(I.name, " estimate does not vanish at the next order")); double worst = 0;
    for (auto& q : trees::of(I.error_order + 1)) { trees::Tree T(q); P p(T, 0, R(0.25)); typename P::Sys f = {&p}; std::vector<E_> x(p.off), e(p.off.size()); S s = make(); s.do_step(f, x, p.t0, R(1), e); worst = std::max(worst, err_of(e[0], E_(0))); mc::transition(); }
    MC_CHECK(worst > 1e-7, mc::fmt("estimate-vanishes:", I.name), "the estimate vanishes for every tree with ", I.error_order + 1, " nodes");
}

// generic machinery -----------------------------------------------------------------------------------
template <size_t N> struct Arrs { typedef boost::array<double, N> type; };
template <size_t S> struct Coefs { typedef typename ode::explicit_generic_rk<S, 1, std::vector<double>>::rk_algorithm_type alg; };
struct Filler { const Tab& t; mutable size_t i; template <class A> void operator()(const A& ca) const { A& a = const_cast<A&>(ca); for (size_t j = 0; j < a.size(); j++) a[j] = t.a[a.size()][j]; } };
template <size_t S> Tab make_tab(int kind) {
    Tab t; for (size_t i = 0; i < S; i++) { t.a.push_back({}); for (size_t j = 0; j < i; j++) { ld v = 0.05L * ((i * 7 + j * 3) % 11) - 0.2L + 0.01L * j; if (kind == 1) v = (i + j) % 3 == 0 ? v : 0; if (kind == 2) v = j + 1 == i ? 0.3L + 0.02L * i : 0; if (kind == 3) v = j == 0 ? 0.4L - 0.03L * i : 0; t.a[i].push_back(v); } }
    for (size_t i = 0; i < S; i++) { t.b.push_back((kind == 2 ? (i + 1 == S ? 1.0L : 0.0L) : 0.11L * ((i * 5) % 7) - 0.13L)); t.c.push_back(i == 0 ? 0.0L : 0.07L * ((i * 5) % 13) - 0.1L); t.d.push_back(0.09L * ((i * 3) % 5) - 0.2L); }
    if (kind == 3) t.c[0] = 0; return t;
}
typedef Prob<double, double> PD;
// a fixed nonlinear system in place of a tree
struct NL { typedef std::vector<double> state; void operator()(const state& x, state& d, double t) const { mc::tick(); size_t n = x.size(); for (size_t i = 0; i < n; i++) d[i] = std::cos(1.3 * t + i) - x[i] * (0.5 + 0.25 * x[(i + 1) % n]); } };
inline void ref_step(const Tab& t, std::vector<double>& x, double t0, double h, std::vector<double>& e) {
    size_t s = t.c.size(), n = x.size(); std::vector<std::vector<double>> k(s, std::vector<double>(n)); NL f;
    for (size_t i = 0; i < s; i++) { std::vector<double> y(x); for (size_t j = 0; j < t.a[i].size(); j++) for (size_t m = 0; m < n; m++) y[m] += h * double(t.a[i][j]) * k[j][m]; f(y, k[i], t0 + h * double(t.c[i])); }
    e.assign(n, 0); for (size_t i = 0; i < s; i++) for (size_t m = 0; m < n; m++) { x[m] += h * double(t.b[i]) * k[i][m]; e[m] += h * double(t.d[i]) * k[i][m]; }
}
// the error machinery exists for 1..6 and 13 stages only
template <size_t S> struct GE { typedef ode::explicit_error_generic_rk<S, 1, 1, 1, std::vector<double>> type; static const bool exists = S <= 6 || S == 13; };
template <size_t S, class A, class B_, class C_> void ge_step(std::true_type, const A& a, const B_& b, const B_& b2, const C_& c, int variant, int reps, std::vector<double>& y, const std::vector<double>& y0, double t0, double h, std::vector<double>& err) {
    typename GE<S>::type g(a, b, b2, c);
    for (int k = 0; k < reps; k++) { y = y0; if (variant == 0) g.do_step(NL(), y, t0, h, err); else { std::vector<double> o(y.size(), 9); g.do_step(NL(), y, t0, o, h, err); y = o; } }
}
template <size_t S, class A, class B_, class C_> void ge_step(std::false_type, const A&, const B_&, const B_&, const C_&, int, int, std::vector<double>&, const std::vector<double>&, double, double, std::vector<double>&) {}
template <size_t S> void generic_body() {
    int kind = mc::choose(4), hk = mc::choose(4), tk = mc::choose(3), n = 1 + mc::choose(3), variant = mc::choose(2), reps = 1 + mc::choose(2); Tab t = make_tab<S>(kind); double h = 0.3 * step_size<double>(hk), t0 = T0S[tk];
    mc::ctx(mc::fmt("generic Runge-Kutta with ", S, " stages, tableau ", kind, " n ", n, " h ", h, " t0 ", t0, " variant ", variant, " use ", reps));
    typedef ode::explicit_generic_rk<S, 1, std::vector<double>> G;
    typename G::coef_a_type a; boost::fusion::for_each(a, Filler{t, 0}); typename G::coef_b_type b, b2; typename G::coef_c_type c; for (size_t i = 0; i < S; i++) { b[i] = t.b[i]; b2[i] = t.d[i]; c[i] = t.c[i]; }
    G g(a, b, c);
    std::vector<double> x0(n), r, e, x, y, err(n, 3.0); for (int i = 0; i < n; i++) x0[i] = 0.7 - 0.4 * i; r = x0; ref_step(t, r, t0, h, e);
    for (int k = 0; k < reps; k++) { x = x0; if (variant == 0) g.do_step(NL(), x, t0, h); else { std::vector<double> o(n, 9); g.do_step(NL(), x, t0, o, h); x = o; } }
    ge_step<S>(std::integral_constant<bool, GE<S>::exists>(), a, b, b2, c, variant, reps, y, x0, t0, h, err);
    for (int i = 0; i < n; i++) {
        MC_CHECK(mc::close(x[i], r[i], 1e-13), mc::fmt("generic-rk:", S), "explicit_generic_rk gives ", x[i], ", tableau by hand ", r[i]);
        if (!GE<S>::exists) continue;
        MC_CHECK(mc::close(y[i], r[i], 1e-13), mc::fmt("generic-error-rk:", S), "explicit_error_generic_rk gives ", y[i], ", tableau by hand ", r[i]);
        MC_CHECK(mc::close(err[i], e[i], 1e-13), mc::fmt("generic-error-rk-estimate:", S), "explicit_error_generic_rk estimates ", err[i], ", tableau by hand ", e[i]);
    }
    mc::outcome(mc::hash_double(x[0])); mc::transition(); mc::state(std::hash<std::string>()(mc::E().ctx));
}

template <class S> S mk() { return S(); }
template <class S, int N> S mkn() { return S(N); }
#define ST std::vector<E_>, R, std::vector<E_>, R
template <class E_, class R> void add(std::vector<std::pair<std::string, mc::Body>>& B, const std::string& tag) {
#if defined(P10)
#define EX(nm, ord, mkf, ...) { typedef __VA_ARGS__ SS; B.push_back({tag + "." + nm, [] { order<E_, R, SS, false>(Info{nm, ord, 0}, mkf); }}); B.push_back({tag + "." + nm + ".sharp", [] { sharp<E_, R, SS>(Info{nm, ord, 0}, mkf); }}); }
#define EE(nm, ord, eo, tab, ...) { typedef __VA_ARGS__ SS; B.push_back({tag + "." + nm, [] { order<E_, R, SS, true>(Info{nm, ord, eo}, &mk<SS>); }}); if (ord <= 8) B.push_back({tag + "." + nm + ".sharp", [] { sharp<E_, R, SS>(Info{nm, ord, eo}, &mk<SS>); }}); }
#else
#define EX(...)
#define EE(nm, ord, eo, tab, ...) { typedef __VA_ARGS__ SS; B.push_back({tag + "." + nm, [] { errest<E_, R, SS>(Info{nm, ord, eo}, &mk<SS>, tab); }}); B.push_back({tag + "." + nm + ".sharp", [] { errsharp<E_, R, SS>(Info{nm, ord, eo}, &mk<SS>); }}); }
#endif
    static Tab ck = tab_ck54(), dp = tab_dopri5(), rf = tab_rkf78(); const Tab* no = nullptr; (void)no; (void)ck; (void)dp; (void)rf;
#if GROUP == 1
    EX("euler", 1, (&mk<ode::euler<ST>>), ode::euler<ST>)
    EX("modified_midpoint", 2, (&mk<ode::modified_midpoint<ST>>), ode::modified_midpoint<ST>)
    EX("modified_midpoint6", 2, (&mkn<ode::modified_midpoint<ST>, 6>), ode::modified_midpoint<ST>)
    EX("runge_kutta4", 4, (&mk<ode::runge_kutta4<ST>>), ode::runge_kutta4<ST>)
    EX("runge_kutta4_classic", 4, (&mk<ode::runge_kutta4_classic<ST>>), ode::runge_kutta4_classic<ST>)
#endif
#if GROUP == 2
    EE("runge_kutta_cash_karp54", 5, 4, &ck, ode::runge_kutta_cash_karp54<ST>)
    EE("runge_kutta_cash_karp54_classic", 5, 4, &ck, ode::runge_kutta_cash_karp54_classic<ST>)
    EE("runge_kutta_dopri5", 5, 4, &dp, ode::runge_kutta_dopri5<ST>)
#endif
#if GROUP == 3
    EE("runge_kutta_fehlberg78", 8, 7, &rf, ode::runge_kutta_fehlberg78<ST>)
#endif
#if GROUP == 4
    EE("extrapolation_stepper4", 4, 2, nullptr, ode::extrapolation_stepper<4, ST>)
    EE("extrapolation_stepper6", 6, 4, nullptr, ode::extrapolation_stepper<6, ST>)
    EE("extrapolation_stepper8", 8, 6, nullptr, ode::extrapolation_stepper<8, ST>)
#endif
}
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B;
#if defined(P10G)
#define GB(n) B.push_back({mc::fmt("generic_rk", n), [] { generic_body<n>(); }});
    GB(1) GB(2) GB(3) GB(4) GB(5) GB(6) GB(7) GB(8) GB(9) GB(10) GB(11) GB(12) GB(13)
#elif defined(MP)
    add<mp50, mp50>(B, "mp50");
#else
    add<double, double>(B, "double"); add<float, float>(B, "float"); add<long double, long double>(B, "long_double"); add<std::complex<double>, double>(B, "complex");
#endif
    return mc::run_main(argc, argv, B);
}
