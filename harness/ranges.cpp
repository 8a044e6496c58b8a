// C29: a stepper or integration function that is given a part of a container (a range) advances exactly this part, as if it were a
// container of its own, and touches nothing else. Real steppers next to a run on a separate container, bit for bit.
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/range/adaptor/strided.hpp>
#include <boost/range/adaptor/reversed.hpp>
#include <boost/range/sub_range.hpp>
#include <deque>
#include <mc.hpp>
namespace ode = boost::numeric::odeint;
typedef std::vector<double> vec; typedef std::vector<std::pair<std::string, mc::Body>> Bodies;
static int g_problem; static long g_calls; static size_t g_n;
struct Sys { template <class X, class D> void operator()(const X &x_, D &&d_, double t) const {
    if (++g_calls > 20000) throw mc::Budget(); auto x = boost::begin(x_); auto d = boost::begin(d_); size_t n = std::distance(boost::begin(x_), boost::end(x_));
    MC_CHECK(n == g_n, "system-size:state", "the system is called with a state of ", n, " elements, the range has ", g_n); MC_CHECK((size_t)std::distance(boost::begin(d_), boost::end(d_)) == n, "system-size:derivative", "the system is asked to fill ", std::distance(boost::begin(d_), boost::end(d_)), " elements for a state of ", n);
    vec a, b(n); for (size_t i = 0; i < n; i++, ++x) a.push_back(*x);
    for (size_t i = 0; i < n; i++) { double y = a[(i + 1) % n]; switch (g_problem) { case 0: b[i] = 0.7 * y - 0.3 * a[i] + 0.1 * t; break; case 1: b[i] = std::cos(a[i]) * (1 - 0.5 * std::sin(y)) + 0.1 * i; break; default: b[i] = -(2.0 + 9 * i) * a[i] + std::cos(3 * t) + 0.1 * y; } }
    for (size_t i = 0; i < n; i++, ++d) *d = b[i]; } };
struct QF { template <class X, class D> void operator()(const X &p, D &&d) const { auto o = boost::begin(d); for (auto i = boost::begin(p); i != boost::end(p); ++i, ++o) *o = *i; } };
struct PF { template <class X, class D> void operator()(const X &q, D &&d) const { MC_CHECK((size_t)std::distance(boost::begin(q), boost::end(q)) == g_n, "system-size:state", "called with another number of elements"); auto o = boost::begin(d); for (auto i = boost::begin(q); i != boost::end(q); ++i, ++o) *o = -*i * (1 + 0.1 * *i); } };
struct Acc { template <class X, class V, class D> void operator()(const X &q, const V &v, D &&d, double t) const { MC_CHECK((size_t)std::distance(boost::begin(q), boost::end(q)) == g_n, "system-size:state", "called with another number of elements"); auto o = boost::begin(d); auto w = boost::begin(v); for (auto i = boost::begin(q); i != boost::end(q); ++i, ++o, ++w) *o = -*i - 0.1 * *w + 0.05 * t; } };
// ---- storage: a big container of which a part is used ------------------------------------------------------------------------------
static double fillv(size_t i) { return 0.4 + 0.23 * ((i * 5) % 7) - 0.6 * (i % 2); }
static const double GUARD = -7777.25;
struct Obs { std::vector<vec> *l; template <class X> void operator()(const X &x, double t) const { vec v; for (auto i = boost::begin(x); i != boost::end(x); ++i) v.push_back(*i); v.push_back(t); l->push_back(v); } };
typedef std::vector<vec> Log;
template <class R> static vec values(const R &r) { vec v; for (auto i = boost::begin(r); i != boost::end(r); ++i) v.push_back(*i); return v; }
template <class R> static void setv(R &&r, const vec &v) { size_t n = 0; for (auto i = boost::begin(r); i != boost::end(r); ++i) *i = v[n++]; }
struct Cfg { int way, kind, n, off; double dt; };
// calls f(range) with a range of kind k over part of a guarded container; checks the guards afterwards
template <class F> static void with_part(const Cfg &c, Log &l, const F &f) {
    size_t n = c.n, total = 3 * n + 9; vec v0(n); for (size_t i = 0; i < n; i++) v0[i] = fillv(i);
    auto guards = [&](const vec &big, size_t first, size_t step) { std::vector<char> mine(big.size(), 0); for (size_t i = 0; i < n; i++) mine[first + i * step] = 1; for (size_t i = 0; i < big.size(); i++) if (!mine[i] && big[i] != GUARD) mc::fail("outside", "element ", i, " outside the range was changed to ", big[i]); };
    if (c.kind == 0) { vec own(v0); f(own); l.push_back(own); return; }
    if (c.kind == 5) { std::deque<double> big(total, GUARD); auto r = std::make_pair(big.begin() + c.off, big.begin() + c.off + n); setv(r, v0); f(r); l.push_back(values(r)); guards(vec(big.begin(), big.end()), c.off, 1); return; }
    vec big(total, GUARD); size_t step = 1;
    if (c.kind == 1) { auto r = std::make_pair(big.begin() + c.off, big.begin() + c.off + n); setv(r, v0); f(r); l.push_back(values(r)); }
    else if (c.kind == 2) { auto r = boost::make_iterator_range(big.begin() + c.off, big.begin() + c.off + n); setv(r, v0); f(r); l.push_back(values(r)); }
    else if (c.kind == 3) { boost::sub_range<vec> r(big.begin() + c.off, big.begin() + c.off + n); setv(r, v0); f(r); l.push_back(values(r)); }
    else if (c.kind == 6) { step = 2; auto r = boost::make_iterator_range(big.begin() + c.off, big.begin() + c.off + 2 * n) | boost::adaptors::strided(2); setv(r, v0); f(r); l.push_back(values(r)); }
    else if (c.kind == 7) { auto r = boost::make_iterator_range(big.begin() + c.off, big.begin() + c.off + n) | boost::adaptors::reversed; setv(r, v0); f(r); l.push_back(values(r)); }
    else if (c.kind == 4) { auto r = boost::make_iterator_range(big.data() + c.off, big.data() + c.off + n); setv(r, v0); f(r); l.push_back(values(r)); }
    guards(big, c.off, step);
}
// the second version of the calls takes ranges by reference to const; a const sub_range has constant elements
template <class R> struct Shallow { typedef const R type; }; template <> struct Shallow<boost::sub_range<vec>> { typedef boost::sub_range<vec> type; };
// ---- ways -------------------------------------------------------------------------------------------------------------------------------
// the second version of every call takes the range by reference to const
template <class S> struct PlainConst { static int ways() { return 7; } template <class M> static void go(const Cfg &c, Log &l, const M &mk) { with_part(c, l, [&](auto &x) { go2(c, l, mk, x, std::is_same<typename std::decay<decltype(x)>::type, vec>()); }); }
    template <class M> static void go2(const Cfg &c, Log &l, const M &mk, vec &x, std::true_type) { go3(c, l, mk, x, x); }
    template <class M, class R> static void go2(const Cfg &c, Log &l, const M &mk, R &x, std::false_type) { typename Shallow<R>::type &cx = x; go3(c, l, mk, cx, x); }
    template <class M, class C, class R> static void go3(const Cfg &c, Log &l, const M &mk, C &cx, R &x) { Obs ob = {&l}; double t = 0.2; vec other(c.n, GUARD), d(c.n);
        switch (c.way) {
            case 0: { auto st = mk(); for (int i = 0; i < 4; i++, t += c.dt) { st.do_step(Sys(), cx, t, c.dt); ob(x, t); } break; }
            case 1: { auto st = mk(); for (int i = 0; i < 4; i++, t += c.dt) { Sys()(x, d, t); dstep(st, cx, d, t, c.dt, 0); ob(x, t); } break; }
            case 2: { auto st = mk(); for (int i = 0; i < 3; i++) { st.do_step(Sys(), x, t, other, c.dt); t += c.dt; ob(other, t); ob(x, t); st.do_step(Sys(), other, t, cx, c.dt); t += c.dt; ob(x, t); } break; }
            case 3: ode::integrate_const(mk(), Sys(), cx, 0.2, 0.2 + 4.3 * c.dt, c.dt, ob); break;
            case 4: ode::integrate_n_steps(mk(), Sys(), cx, 0.2, c.dt, 4, ob); break;
            case 5: ode::integrate_adaptive(mk(), Sys(), cx, 0.2, 0.2 + 4.3 * c.dt, c.dt, ob); break;
            default: { vec ts = {0.2, 0.2 + 0.5 * c.dt, 0.2 + 2.25 * c.dt, 0.2 + 3 * c.dt}; ode::integrate_times(mk(), Sys(), cx, ts.begin(), ts.end(), c.dt, ob); } } }
    template <class S2, class C> static auto dstep(S2 &st, C &x, vec &d, double t, double dt, int) -> decltype(st.do_step(Sys(), x, d, t, dt), void()) { st.do_step(Sys(), x, d, t, dt); }
    template <class S2, class C> static void dstep(S2 &, C &, vec &, double, double, long) { throw mc::Skip(); } };
// error estimates into and from ranges
template <class S> struct Err { static int ways() { return 3; } template <class M> static void go(const Cfg &c, Log &l, const M &mk) { with_part(c, l, [&](auto &x) { Obs ob = {&l}; auto st = mk(); double t = 0.2; vec other(c.n, GUARD); Log inner; Cfg ce = c;
    with_part(ce, inner, [&](auto &e) { for (int i = 0; i < 3; i++, t += c.dt) switch (c.way) {
        case 0: st.do_step(Sys(), x, t, c.dt, e); ob(x, t); ob(e, t); break;
        case 1: st.do_step(Sys(), x, t, other, c.dt, e); ob(other, t); ob(e, t); setv(x, other); break;
        default: st.do_step(Sys(), other = values(x), t, x, c.dt, e); ob(x, t); ob(e, t); } }); }); } };
template <class S> struct Ctrl { static int ways() { return 7; } template <class M> static void go(const Cfg &c, Log &l, const M &mk) { with_part(c, l, [&](auto &x) { go2(c, l, mk, x, std::is_same<typename std::decay<decltype(x)>::type, vec>()); }); }
    template <class M> static void go2(const Cfg &c, Log &l, const M &mk, vec &x, std::true_type) { go3(c, l, mk, x, x); }
    template <class M, class R> static void go2(const Cfg &c, Log &l, const M &mk, R &x, std::false_type) { typename Shallow<R>::type &cx = x; go3(c, l, mk, cx, x); }
    template <class M, class C, class R> static void go3(const Cfg &c, Log &l, const M &mk, C &cx, R &x) { Obs ob = {&l}; double t = 0.2, dt = c.dt; vec other(c.n, GUARD);
        switch (c.way) {
            case 0: { auto st = mk(); for (int i = 0; i < 6; i++) { int r = st.try_step(Sys(), x, t, dt); l.push_back(vec{double(r), dt}); ob(x, t); } break; }
            case 1: { auto st = mk(); for (int i = 0; i < 6; i++) { int r = st.try_step(Sys(), cx, t, dt); l.push_back(vec{double(r), dt}); ob(x, t); } break; }
            case 2: { auto st = mk(); for (int i = 0; i < 6; i++) { int r = st.try_step(Sys(), x, t, other, dt); l.push_back(vec{double(r), dt}); if (r == ode::success) { ob(other, t); setv(x, other); } ob(x, t); } break; }
            case 3: ode::integrate_const(mk(), Sys(), cx, 0.2, 0.2 + 4.3 * c.dt, c.dt, ob); break;
            case 4: ode::integrate_n_steps(mk(), Sys(), cx, 0.2, c.dt, 4, ob); break;
            case 5: ode::integrate_adaptive(mk(), Sys(), cx, 0.2, 0.2 + 4.3 * c.dt, c.dt, ob); break;
            default: { vec ts = {0.2, 0.2 + 0.5 * c.dt, 0.2 + 2.25 * c.dt, 0.2 + 3 * c.dt}; ode::integrate_times(mk(), Sys(), cx, ts.begin(), ts.end(), c.dt, ob); } } } };
template <class S> struct Dense { static int ways() { return 5; } template <class M> static void go(const Cfg &c, Log &l, const M &mk) { with_part(c, l, [&](auto &x) { go2(c, l, mk, x, std::is_same<typename std::decay<decltype(x)>::type, vec>()); }); }
    template <class M> static void go2(const Cfg &c, Log &l, const M &mk, vec &x, std::true_type) { go3(c, l, mk, x, x); }
    template <class M, class R> static void go2(const Cfg &c, Log &l, const M &mk, R &x, std::false_type) { typename Shallow<R>::type &cx = x; go3(c, l, mk, cx, x); }
    template <class M, class C, class R> static void go3(const Cfg &c, Log &l, const M &mk, C &cx, R &x) { Obs ob = {&l};
        switch (c.way) {
            case 0: { auto st = mk(); st.initialize(x, 0.2, c.dt); for (int i = 0; i < 4; i++) { auto r = st.do_step(Sys()); st.calc_state(0.5 * (r.first + r.second), cx); ob(x, r.second); ob(st.current_state(), st.current_time()); } break; }
            case 1: ode::integrate_const(mk(), Sys(), cx, 0.2, 0.2 + 4.3 * c.dt, c.dt, ob); break;
            case 2: ode::integrate_n_steps(mk(), Sys(), cx, 0.2, c.dt, 4, ob); break;
            case 3: ode::integrate_adaptive(mk(), Sys(), cx, 0.2, 0.2 + 4.3 * c.dt, c.dt, ob); break;
            default: { vec ts = {0.2, 0.2 + 0.5 * c.dt, 0.2 + 2.25 * c.dt, 0.2 + 3 * c.dt}; ode::integrate_times(mk(), Sys(), cx, ts.begin(), ts.end(), c.dt, ob); } } } };
// coordinates and momenta as two parts of one container
template <class S> struct Symp { static int ways() { return 3; } template <class M> static void go(const Cfg &c, Log &l, const M &mk) { with_part(c, l, [&](auto &q) { Log inner; Cfg cp = c; cp.off = c.off + 1; with_part(cp, inner, [&](auto &p) { Obs ob = {&l}; auto st = mk(); double t = 0.2;
    for (int i = 0; i < 3; i++, t += c.dt) { switch (c.way) { case 0: st.do_step(std::make_pair(QF(), PF()), std::make_pair(boost::ref(q), boost::ref(p)), t, c.dt); break; case 1: st.do_step(PF(), std::make_pair(boost::ref(q), boost::ref(p)), t, c.dt); break; default: st.do_step(std::make_pair(QF(), PF()), q, p, t, c.dt); } ob(q, t); ob(p, t); } }); }); } };
template <class S> struct Verlet { static int ways() { return 1; } template <class M> static void go(const Cfg &c, Log &l, const M &mk) { with_part(c, l, [&](auto &q) { Log inner; with_part(c, inner, [&](auto &p) { Obs ob = {&l}; auto st = mk(); double t = 0.2; for (int i = 0; i < 4; i++, t += c.dt) { st.do_step(Acc(), std::make_pair(boost::ref(q), boost::ref(p)), t, c.dt); ob(q, t); ob(p, t); } }); }); } };

static const char *KIND[] = {"container", "iterator pair", "iterator_range", "sub_range", "pointer range", "deque iterators", "strided range", "reversed range"};
template <class W, class M> static void run(const char *nm, const M &mk) {
    Cfg c; c.way = mc::choose(W::ways()); c.kind = 1 + mc::choose(7); mc::shard_point(); c.n = mc::choose_from(std::vector<int>{3, 1, 2, 5}); c.off = mc::choose_from(std::vector<int>{4, 0, 1}); g_problem = mc::choose(3); c.dt = mc::choose_from(std::vector<double>{0.1, 0.5, -0.2});
    g_n = c.n; mc::ctx(mc::fmt(nm, " way ", c.way, " ", KIND[c.kind], " n=", c.n, " offset ", c.off, " problem ", g_problem, " dt=", c.dt));
    Log a, b; Cfg d = c; d.kind = 0; g_calls = 0; W::go(d, a, mk); long ca = g_calls; g_calls = 0; W::go(c, b, mk); mc::transition();
    std::string key = mc::fmt("range-differs:", nm, "/way", c.way);
    MC_CHECK(a.size() == b.size(), key, "a container of its own gives ", a.size(), " observations, a ", KIND[c.kind], " ", b.size());
    for (size_t i = 0; i < a.size(); i++) { bool eq = a[i].size() == b[i].size(); for (size_t j = 0; eq && j < a[i].size(); j++) eq = mc::same_bits_or_nan(a[i][j], b[i][j]); MC_CHECK(eq, key, "observation ", i, " of a container of its own is ", mc::show(a[i]), ", with a ", KIND[c.kind], " it is ", mc::show(b[i])); for (double v : a[i]) mc::outcome(mc::hash_double(v)); }
    MC_CHECK(ca == g_calls, mc::fmt("evaluations:", nm, "/way", c.way), ca, " evaluations of the system with a container of its own, ", g_calls, " with a ", KIND[c.kind]);
}
// one stepper used for several parts of one container in turn; LEN: parts of different lengths (needs the always resizing policy)
template <class S> static auto anew(S &s, int) -> decltype(s.reset(), void()) { s.reset(); }
template <class S> static void anew(S &, long) {}
template <class S, class X> static auto advance(S &s, X &&x, double t, double &dt, int) -> decltype(s.try_step(Sys(), x, t, dt), void()) { for (int k = 0; k < 40; k++) if (s.try_step(Sys(), x, t, dt) == ode::success) return; }
template <class S, class X> static void advance(S &s, X &&x, double t, double &dt, long) { s.do_step(Sys(), x, t, dt); }
template <class S, class M> static void turns(const char *nm, const M &mk, bool varied) {
    static const int F[2][3] = {{1, 5, 10}, {1, 5, 8}}, N[2][3] = {{3, 3, 3}, {3, 2, 5}}; g_calls = 0; g_problem = mc::choose(2); mc::shard_point(); int kind = mc::choose(3), depth = mc::E().tier == "thorough" ? 6 : 5; double dt = mc::choose_from(std::vector<double>{0.1, -0.3});
    vec big(15, GUARD), ref; for (int p = 0; p < 3; p++) for (int i = 0; i < N[varied][p]; i++) big[F[varied][p] + i] = fillv(3 * p + i); ref = big; S st = mk(); std::string seq;
    for (int k = 0; k < depth; k++) { int p = mc::choose(3), f = F[varied][p], n = N[varied][p]; seq += char('0' + p); double t = 0.2 + 0.1 * k, da = dt, db = dt; mc::ctx(mc::fmt(nm, " one stepper for the parts in turn ", seq, " kind ", kind, " problem ", g_problem, " dt=", dt)); mc::transition();
        g_n = n; vec own(ref.begin() + f, ref.begin() + f + n); { S fresh = mk(); advance(fresh, own, t, db, 0); std::copy(own.begin(), own.end(), ref.begin() + f); }
        anew(st, 0); if (kind == 0) advance(st, std::make_pair(big.begin() + f, big.begin() + f + n), t, da, 0); else if (kind == 1) { auto r = boost::make_iterator_range(big.data() + f, big.data() + f + n); advance(st, r, t, da, 0); } else { boost::sub_range<vec> r(big.begin() + f, big.begin() + f + n); advance(st, r, t, da, 0); }
        for (size_t i = 0; i < big.size(); i++) if (!mc::same_bits_or_nan(big[i], ref[i])) { bool in = (int)i >= f && (int)i < f + n; mc::fail(mc::fmt(in ? "turn:value:" : "turn:outside:", nm), "after step ", k, " element ", i, in ? " of the part" : " outside the part", " is ", big[i], " expected ", ref[i]); }
        MC_CHECK(mc::same_bits_or_nan(da, db), mc::fmt("turn:dt:", nm), "proposed step ", da, " and ", db); }
    mc::outcome(mc::hash_double(big[1]) ^ mc::hash_double(big[5]) ^ mc::hash_double(big[10]));
}
#define BT(NM, S_, ...) B.push_back({std::string("turn.") + NM, [] { typedef S_ S; turns<S>(NM, [] { return __VA_ARGS__; }, false); }});
#define BV(NM, S_, ...) B.push_back({std::string("varied.") + NM, [] { typedef S_ S; turns<S>(NM, [] { return __VA_ARGS__; }, true); }});
#define AR vec, double, vec, double, ode::range_algebra, ode::default_operations, ode::always_resizer
#define B_(NM, WAY, ...) B.push_back({NM, [] { typedef __VA_ARGS__ S; run<WAY<S>>(NM, [] { return S(); }); }});
#define BM(NM, WAY, S_, ...) B.push_back({NM, [] { typedef S_ S; run<WAY<S>>(NM, [] { return __VA_ARGS__; }); }});
typedef ode::runge_kutta_cash_karp54<vec> CK; typedef ode::runge_kutta_dopri5<vec> DP; typedef ode::runge_kutta_fehlberg78<vec> F78; typedef ode::runge_kutta_cash_karp54_classic<vec> CKC;
int main(int argc, char **argv) {
    Bodies B;
#if GROUP == 1
    B_("euler", PlainConst, ode::euler<vec>) B_("rk4", PlainConst, ode::runge_kutta4<vec>) B_("rk4_classic", PlainConst, ode::runge_kutta4_classic<vec>) B_("cash_karp54", PlainConst, CK) B_("cash_karp54_classic", PlainConst, CKC) B_("dopri5", PlainConst, DP)
#elif GROUP == 2
    B_("fehlberg78", PlainConst, F78) B_("modified_midpoint", PlainConst, ode::modified_midpoint<vec>) B_("adams_bashforth3", PlainConst, ode::adams_bashforth<3, vec>) B_("adams_bashforth_moulton3", PlainConst, ode::adams_bashforth_moulton<3, vec>) B_("extrapolation4", PlainConst, ode::extrapolation_stepper<4, vec>)
#elif GROUP == 3
    B_("error.cash_karp54", Err, CK) B_("error.cash_karp54_classic", Err, CKC) B_("error.dopri5", Err, DP) B_("error.fehlberg78", Err, F78)
    B_("symplectic_euler", Symp, ode::symplectic_euler<vec>) B_("rkn_sb3a_mclachlan", Symp, ode::symplectic_rkn_sb3a_mclachlan<vec>) B_("rkn_sb3a_m4_mclachlan", Symp, ode::symplectic_rkn_sb3a_m4_mclachlan<vec>) B_("velocity_verlet", Verlet, ode::velocity_verlet<vec>)
#elif GROUP == 4
    BM("controlled.cash_karp54", Ctrl, decltype(ode::make_controlled(1e-5, 1e-5, CK())), ode::make_controlled(1e-5, 1e-5, CK())) BM("controlled.dopri5", Ctrl, decltype(ode::make_controlled(1e-5, 1e-5, DP())), ode::make_controlled(1e-5, 1e-5, DP())) BM("controlled.fehlberg78", Ctrl, decltype(ode::make_controlled(1e-5, 1e-5, F78())), ode::make_controlled(1e-5, 1e-5, F78()))
    BM("bulirsch_stoer", Ctrl, ode::bulirsch_stoer<vec>, ode::bulirsch_stoer<vec>(1e-5, 1e-5))
#elif GROUP == 6
#define P_(NM, T) BT(NM, ode::T<vec>, ode::T<vec>()) BV(NM, ode::T<AR>, ode::T<AR>())
    P_("euler", euler) P_("rk4", runge_kutta4) P_("rk4_classic", runge_kutta4_classic) P_("cash_karp54", runge_kutta_cash_karp54) P_("cash_karp54_classic", runge_kutta_cash_karp54_classic) P_("dopri5", runge_kutta_dopri5) P_("fehlberg78", runge_kutta_fehlberg78) P_("modified_midpoint", modified_midpoint)
    typedef ode::adams_bashforth<3, vec> A1; typedef ode::adams_bashforth<3, AR> A2; typedef ode::adams_bashforth_moulton<3, vec> M1; typedef ode::adams_bashforth_moulton<3, AR> M2; typedef ode::extrapolation_stepper<4, vec> E1; typedef ode::extrapolation_stepper<4, AR> E2;
    BT("adams_bashforth3", A1, A1()) BV("adams_bashforth3", A2, A2()) BT("adams_bashforth_moulton3", M1, M1()) BV("adams_bashforth_moulton3", M2, M2()) BT("extrapolation4", E1, E1()) BV("extrapolation4", E2, E2())
    typedef decltype(ode::make_controlled(1e-4, 1e-4, CK())) c1; typedef decltype(ode::make_controlled(1e-4, 1e-4, DP())) c2; typedef ode::bulirsch_stoer<vec> b1; typedef ode::runge_kutta_cash_karp54<AR> CKV; typedef ode::runge_kutta_dopri5<AR> DPV;
    typedef ode::controlled_runge_kutta<CKV, ode::default_error_checker<double, ode::range_algebra, ode::default_operations>, ode::default_step_adjuster<double, double>, ode::always_resizer> v1; typedef ode::controlled_runge_kutta<DPV, ode::default_error_checker<double, ode::range_algebra, ode::default_operations>, ode::default_step_adjuster<double, double>, ode::always_resizer> v2; typedef ode::bulirsch_stoer<AR> b2;
    BT("controlled.cash_karp54", c1, ode::make_controlled(1e-4, 1e-4, CK())) BT("controlled.dopri5", c2, ode::make_controlled(1e-4, 1e-4, DP())) BT("bulirsch_stoer", b1, b1(1e-4, 1e-4)) BV("controlled.cash_karp54", v1, v1()) BV("controlled.dopri5", v2, v2()) BV("bulirsch_stoer", b2, b2(1e-4, 1e-4))
#else
    BM("dense.dopri5", Dense, decltype(ode::make_dense_output(1e-5, 1e-5, DP())), ode::make_dense_output(1e-5, 1e-5, DP())) B_("dense.euler", Dense, ode::dense_output_runge_kutta<ode::euler<vec>>) BM("dense.bulirsch_stoer", Dense, ode::bulirsch_stoer_dense_out<vec>, ode::bulirsch_stoer_dense_out<vec>(1e-5, 1e-5))
#endif
    return mc::run_main(argc, argv, B);
}
