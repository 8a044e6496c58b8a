// C22: shared-memory parallel algebras and states, run on the controlled OpenMP runtime of gomp.hpp: every order of
// the team's synchronisation operations within the bounds, and a race check on every memory access.
#include "gomp.hpp"
#include <array>
#include <deque>
#include <complex>
#include <limits>
#include <boost/array.hpp>
#include "parruns.hpp"
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
static bool thorough() { return mc::E().tier == "thorough"; }
static void out(const std::string &s) { mc::outcome(std::hash<std::string>()(s)); }

// ---- team configuration --------------------------------------------------------------------------------
static void team(int maxT, bool exhaustive) {
    gomp::Config &c = gomp::cfg(); c = gomp::Config();
    c.threads = 1 + mc::choose(maxT);
    int k = mc::choose(5); c.kind = k < 2 ? gomp::DYNAMIC : k < 4 ? gomp::STATIC : gomp::GUIDED; c.chunk = k == 1 ? 2 : k == 2 ? 0 : k == 3 ? 1 : 1;
    c.exhaustive = exhaustive; c.policy = exhaustive ? 0 : mc::choose(3);
    mc::ctx("threads " + std::to_string(c.threads) + " schedule " + std::to_string(k) + " policy " + std::to_string(c.policy));
}
static void done(const char *) { gomp::settle(); mc::count("regions", gomp::rt().regions); mc::count("accesses", gomp::rt().accesses); gomp::rt().regions = gomp::rt().accesses = 0; }
// how far every order can be enumerated: with n chunks and T threads the orders number about T^(n + 2T)
static bool small(size_t n, int T) { return T <= 1 || (T == 2 && n <= (thorough() ? 4u : 3u)) || (T == 3 && n <= (thorough() ? 2u : 1u)); }

// ---- loops ---------------------------------------------------------------------------------------------
// an element operation whose result depends on every argument, its position and the element's previous value
struct Mix {
    typedef void result_type;
    template <class F, class... R> void operator()(F &f, R &...r) const { unsigned k = 1; f = F(double(f) * 3 + sum(k, r...)); }
    double sum(unsigned) const { return 0.5; }
    template <class F, class... R> double sum(unsigned k, F &f, R &...r) const { return double(f) * (k + 1) * 1.25 + sum(k + 1, r...); }
};
template <int K> struct FE;
#define AN(n, ...) template <> struct FE<n> { template <class A, class P, class O> static void run(P &c, O op) { A::for_each##n(__VA_ARGS__, op); } };
#define C(i) (*c[i])
AN(1, C(0)) AN(2, C(0), C(1)) AN(3, C(0), C(1), C(2)) AN(4, C(0), C(1), C(2), C(3)) AN(5, C(0), C(1), C(2), C(3), C(4)) AN(6, C(0), C(1), C(2), C(3), C(4), C(5))
AN(7, C(0), C(1), C(2), C(3), C(4), C(5), C(6))
AN(8, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7)) AN(9, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8)) AN(10, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9))
AN(11, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10))
AN(12, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11)) AN(13, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11), C(12))
AN(14, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11), C(12), C(13))
AN(15, C(0), C(1), C(2), C(3), C(4), C(5), C(6), C(7), C(8), C(9), C(10), C(11), C(12), C(13), C(14))
#undef C
template <class A, class P, class O, int... I> void dispatch(int k, P &c, O op, std::integer_sequence<int, I...>) { int d[] = {(k == I + 1 ? (FE<I + 1>::template run<A>(c, op), 0) : 0)...}; (void)d; }
template <class A, class P, class O> void for_each(int k, P &c, O op) { dispatch<A>(k, c, op, std::make_integer_sequence<int, 15>()); }

static void range_loop(int T, size_t maxn, bool ex) {
    int k = 1 + mc::choose(15); size_t n = mc::choose(maxn + 1);
    team(T, ex); if (ex && !small(n, gomp::cfg().threads)) throw mc::Skip();
    std::vector<std::vector<double>> s(k), r(k); std::vector<std::vector<double> *> ps, pr;
    for (int j = 0; j < k; j++) { for (size_t i = 0; i < n; i++) s[j].push_back(1 + j * 16 + i * 0.125); r[j] = s[j]; }
    for (int j = 0; j < k; j++) { ps.push_back(&s[j]); pr.push_back(&r[j]); }
    for_each<ode::openmp_range_algebra>(k, ps, Mix()); done("range");
    for_each<ode::range_algebra>(k, pr, Mix());
    for (int j = 0; j < k; j++) MC_CHECK(s[j] == r[j], "for-each-result", "for_each", k, " over ", n, " elements: state ", j, " is ", mc::show(s[j]), " and sequentially ", mc::show(r[j]));
    out("range " + std::to_string(k) + " " + std::to_string(n));
}
static void nested_loop(int T, size_t maxn, bool ex) {
    int k = 1 + mc::choose(15); size_t n = mc::choose(maxn + 1); int shape = mc::choose(3);
    team(T, ex); if (ex && !small(n, gomp::cfg().threads)) throw mc::Skip();
    typedef ode::openmp_state<double> S; std::vector<S> s(k), r(k); std::vector<S *> ps, pr;
    for (int j = 0; j < k; j++) { s[j].resize(n); for (size_t i = 0; i < n; i++) { size_t m = shape == 0 ? 1 : shape == 1 ? i % 3 : 2 - i % 2; for (size_t e = 0; e < m; e++) s[j][i].push_back(1 + j * 16 + i * 2 + e * 0.125); } r[j] = s[j]; }
    for (int j = 0; j < k; j++) { ps.push_back(&s[j]); pr.push_back(&r[j]); }
    for_each<ode::openmp_algebra>(k, ps, Mix()); done("nested");
    for (size_t i = 0; i < n; i++) { std::vector<std::vector<double> *> q; for (int j = 0; j < k; j++) q.push_back(&r[j][i]); for_each<ode::range_algebra>(k, q, Mix()); }
    for (int j = 0; j < k; j++) for (size_t i = 0; i < n; i++) MC_CHECK(s[j][i] == r[j][i], "for-each-result", "nested for_each", k, " over ", n, " parts: state ", j, " part ", i, " is ", mc::show(s[j][i]), " and sequentially ", mc::show(r[j][i]));
    out("nested " + std::to_string(k) + " " + std::to_string(n) + " " + std::to_string(shape));
}
// ---- norms: every vector over a small value set ------------------------------------------------------------
template <class V> static void range_norm(int T, size_t maxn, bool ex) {
    const V val[] = {V(0), V(-2), V(1.5), V(-0.25)};
    size_t n = mc::choose(maxn + 1); std::vector<V> x(n); for (auto &e : x) e = val[mc::choose(n <= 2 ? 4 : 3)];
    team(T, ex); if (ex && !small(n, gomp::cfg().threads)) throw mc::Skip();
    V m = 0; for (auto e : x) m = std::max(m, V(std::abs(e)));
    V got = ode::openmp_range_algebra::norm_inf(x); done("norm");
    MC_CHECK(got == m, "norm", "norm of ", mc::show(x), " is ", double(got), " and should be ", double(m));
    out("norm " + std::to_string(n) + " " + mc::fmt(double(m)));
}
template <class V> static void nested_norm(int T, size_t maxn, bool ex) {
    const V val[] = {V(0), V(-2), V(1.5)};
    size_t n = mc::choose(maxn + 1); ode::openmp_state<V> x; x.resize(n); V m = 0;
    for (size_t i = 0; i < n; i++) { size_t l = mc::choose(3); for (size_t e = 0; e < l; e++) { V v = val[mc::choose(3)]; x[i].push_back(v); m = std::max(m, V(std::abs(v))); } }
    team(T, ex); if (ex && !small(n, gomp::cfg().threads)) throw mc::Skip();
    V got = ode::openmp_algebra::norm_inf(x); done("norm");
    MC_CHECK(got == m, "norm", "norm of a parallel state of ", n, " parts is ", double(got), " and should be ", double(m));
    out("norm " + std::to_string(n) + " " + mc::fmt(double(m)));
}
// a longer vector, the extreme value at every position
template <class V> static void long_norm(int T) {
    size_t n = 4 + mc::choose(5), at = mc::choose(n); bool neg = mc::choose(2); std::vector<V> x(n, V(0.5)); x[at] = neg ? -3 : 3; team(T, false);
    V a = ode::openmp_range_algebra::norm_inf(x); ode::openmp_state<V> s; size_t parts = 1 + mc::choose(4); s.resize(parts); for (size_t i = 0; i < n; i++) s[i * parts / n].push_back(x[i]);
    V b = ode::openmp_algebra::norm_inf(s); done("norm");
    MC_CHECK(a == 3 && b == 3, "norm", "norm of ", n, " elements with the extreme at ", at, " is ", double(a), " and, in ", parts, " parts, ", double(b));
    out("long " + std::to_string(n) + " " + std::to_string(parts));
}

// ---- split, join, copy, resize, size comparison ----------------------------------------------------------------
template <class Src> struct Make { static Src of(size_t n) { Src s; for (size_t i = 0; i < n; i++) s.push_back(typename Src::value_type(1 + i)); return s; } };
template <class V, size_t N> struct Make<boost::array<V, N>> { static boost::array<V, N> of(size_t) { boost::array<V, N> s; for (size_t i = 0; i < N; i++) s[i] = V(1 + i); return s; } };
template <class Src> static void split_join(int T, size_t maxn, size_t maxp, bool ex, bool fixed) {
    typedef typename Src::value_type V;
    size_t n = mc::choose(fixed ? 1 : maxn + 1), p = mc::choose(maxp + 1); int pre = mc::choose(2);
    team(T, ex); size_t parts = p ? p : gomp::cfg().threads; if (ex && !small(parts, gomp::cfg().threads)) throw mc::Skip();
    const Src src = Make<Src>::of(n); n = src.size();
    ode::openmp_state<V> st; st.resize(p); if (pre) for (auto &q : st) q.assign(3, V(-1));
    mc::ctx("size " + std::to_string(n) + " parts " + std::to_string(p));
    ode::split(src, st); done("split");
    MC_CHECK(st.size() == parts, "split-parts", "splitting into ", p, " parts (0: one per thread) gives ", st.size(), " parts");
    size_t at = 0; for (size_t i = 0; i < st.size(); i++) for (auto v : st[i]) { MC_CHECK(at < n && v == src[at], "split-content", "splitting ", n, " elements into ", parts, " parts: element ", at, " of the joined parts is ", double(v)); ++at; }
    MC_CHECK(at == n, "split-content", "splitting ", n, " elements into ", parts, " parts distributes ", at);
    std::vector<V> back(mc::choose(3) * 2, V(-7)); ode::unsplit(st, back); done("unsplit");
    MC_CHECK(back.size() == n, "join-size", "joining ", parts, " parts of ", n, " elements gives ", back.size());
    for (size_t i = 0; i < n; i++) MC_CHECK(back[i] == src[i], "join-content", "element ", i, " of ", n, " after splitting into ", parts, " parts and joining is ", double(back[i]));
    out("split " + std::to_string(n) + " " + std::to_string(parts));
}
static ode::openmp_state<double> shape_state(int base) {
    ode::openmp_state<double> s; size_t p = mc::choose(4); s.resize(p); for (size_t i = 0; i < p; i++) { size_t l = mc::choose(3); for (size_t e = 0; e < l; e++) s[i].push_back(base + i * 4 + e); } return s;
}
static bool same(const ode::openmp_state<double> &a, const ode::openmp_state<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].size() != b[i].size()) return false; return true; }
static std::string shp(const ode::openmp_state<double> &a) { std::string s; for (auto &q : a) s += std::to_string(q.size()) + " "; return "[" + s + "]"; }
static void reshape(int T, bool ex) {
    const ode::openmp_state<double> a = shape_state(100); ode::openmp_state<double> b = shape_state(200);
    team(T, ex); if (ex && !small(std::max(a.size(), b.size()), gomp::cfg().threads)) throw mc::Skip();
    MC_CHECK(ode::same_size(a, b) == same(a, b), "same-size", "parallel states of shapes ", shp(a), " and ", shp(b), " compare ", ode::same_size(a, b)); done("same");
    const ode::openmp_state<double> b0 = b;
    ode::resize(b, a); done("resize");
    MC_CHECK(same(a, b), "resize", "resizing ", shp(b0), " to the shape ", shp(a), " gives ", shp(b));
    MC_CHECK(ode::same_size(a, b), "same-size", "states of equal shape ", shp(a), " compare different"); done("same");
    out(shp(a) + shp(b0));
}
static void copying(int T, bool ex) {
    const ode::openmp_state<double> a = shape_state(100); team(T, ex); if (ex && !small(a.size(), gomp::cfg().threads)) throw mc::Skip();
    ode::openmp_state<double> b = a; for (auto &q : b) for (auto &v : q) v = -1;
    ode::copy(a, b); done("copy");
    MC_CHECK(same(a, b), "copy", "copying changes the shape ", shp(a), " to ", shp(b));
    for (size_t i = 0; i < a.size(); i++) for (size_t e = 0; e < a[i].size(); e++) MC_CHECK(b[i][e] == a[i][e], "copy", "copying a parallel state of shape ", shp(a), ": element ", e, " of part ", i, " is ", b[i][e], " instead of ", a[i][e]);
    out(shp(a));
}

// ---- steppers ------------------------------------------------------------------------------------------------
// a coupled system on a flat view of any state
template <class S> struct Flat { static double &at(S &s, size_t i) { return s[i]; } static double at(const S &s, size_t i) { return s[i]; } static size_t size(const S &s) { return s.size(); } };
template <> struct Flat<ode::openmp_state<double>> {
    typedef ode::openmp_state<double> S;
    static double &at(S &s, size_t i) { for (auto &q : s) { if (i < q.size()) return q[i]; i -= q.size(); } return s[0][0]; }
    static double at(const S &s, size_t i) { for (auto &q : s) { if (i < q.size()) return q[i]; i -= q.size(); } return 0; }
    static size_t size(const S &s) { size_t n = 0; for (auto &q : s) n += q.size(); return n; }
};
struct Sys {
    template <class S> void operator()(const S &x, S &d, double t) const {
        size_t n = Flat<S>::size(x);
        for (size_t i = 0; i < n; i++) Flat<S>::at(d, i) = -0.5 * Flat<S>::at(x, i) + 0.25 * Flat<S>::at(x, (i + 1) % n) * (1 + t) - 0.125 * Flat<S>::at(x, i) * Flat<S>::at(x, i);
    }
};
struct Force { template <class S> void operator()(const S &x, S &d) const { size_t n = Flat<S>::size(x); for (size_t i = 0; i < n; i++) Flat<S>::at(d, i) = -Flat<S>::at(x, i) + 0.25 * Flat<S>::at(x, (i + 1) % n); } };
struct Accel { template <class S> void operator()(const S &x, const S &v, S &a, double t) const { size_t n = Flat<S>::size(x); for (size_t i = 0; i < n; i++) Flat<S>::at(a, i) = -Flat<S>::at(x, i) + 0.25 * Flat<S>::at(x, (i + 1) % n) - t * 0.125; } };
typedef ode::openmp_state<double> Omp;
template <class S> struct Conv { static S from(const Vec &v, size_t) { return v; } static Vec to(const S &s) { return s; } };
template <> struct Conv<Omp> { static Omp from(const Vec &v, size_t p) { Omp s; s.resize(p); ode::split(v, s); return s; } static Vec to(const Omp &s) { Vec v; ode::unsplit(s, v); return v; } };
template <class S> struct ObsOf { Trace *t; void operator()(const S &s, double tm) const { gomp::Busy b; Vec v = Conv<S>::to(s); v.push_back(tm); t->push_back(v); } };
template <class S> struct Prob { typedef ::Sys Sys; typedef ::Force Force; typedef ::Accel Accel; typedef ObsOf<S> Obs; static Vec view(const S &s) { return Conv<S>::to(s); } };
template <class S, class A> static void stepper(const std::string &which, int T) {
    size_t n = 1 + mc::choose(4); size_t parts = std::is_same<S, Omp>::value ? 1 + mc::choose(3) : 0;
    team(T, false);
    Trace (*seq)(Vec) = nullptr; Trace (*par)(S) = nullptr;
    for (auto &r : Runs<Vec, ode::range_algebra, Prob<Vec>>::all()) if (r.first == which) seq = r.second;
    for (auto &r : Runs<S, A, Prob<S>>::all()) if (r.first == which) par = r.second;
    S x; { gomp::rt().track = false; x = Conv<S>::from(start(n), parts); gomp::rt().track = true; }
    Trace a = par(x); done("stepper"); Trace b = seq(start(n));
    MC_CHECK(a.size() == b.size(), "stepper-length", which, " over ", n, " elements makes ", a.size(), " observations and sequentially ", b.size());
    for (size_t i = 0; i < a.size(); i++) MC_CHECK(a[i] == b[i], "stepper-result", which, " over ", n, " elements in ", parts, " parts with ", gomp::cfg().threads, " threads: observation ", i, " is ", mc::show(a[i]), " and sequentially ", mc::show(b[i]));
    out(which + " " + std::to_string(n) + " " + std::to_string(parts));
}
// the runtime itself: a known race and a known lost update must be found, a correct reduction must not
static void selftest() {
    gomp::cfg() = gomp::Config(); gomp::cfg().threads = 2; int mode = mc::choose(4); long s = 0; bool raced = false; double m = 0; 
    if (mode == 0) {
#pragma omp parallel for schedule(runtime)
        for (int i = 0; i < 3; i++) s += i;
    } else if (mode == 1) {
#pragma omp parallel for schedule(runtime) reduction(+ : s)
        for (int i = 0; i < 3; i++) s += i;
    } else if (mode == 2) {
#pragma omp parallel for schedule(dynamic)
        for (int i = 0; i < 3; i++) {
#pragma omp critical
            s += i;
        }
    } else {
#pragma omp parallel
        {
#pragma omp single
            s = 1;
#pragma omp for
            for (int i = 0; i < 3; i++)
#pragma omp atomic
                s += i;
#pragma omp barrier
            if (s != 4) m = 1;
        }
        s -= 1;
    }
    raced = !gomp::rt().race.empty(); if (raced) gomp::rt().race.clear();
    if (mode == 0) { if (!raced) out("serial order without overlap"); else out("race found"); return; }
    done("self");
    MC_CHECK(!raced && s == 3 && m == 0, "selftest", "mode ", mode, " race ", raced, " sum ", s);
    out("clean " + std::to_string(mode));
}
int main(int argc, char **argv) {
    std::vector<std::pair<std::string, mc::Body>> b;
    b.push_back({"selftest", selftest});
    b.push_back({"loop.range", [] { range_loop(3, 3, true); }}); b.push_back({"loop.nested", [] { nested_loop(3, 3, true); }});
    b.push_back({"loop.range.long", [] { range_loop(4, 7, false); }}); b.push_back({"loop.nested.long", [] { nested_loop(4, 5, false); }});
    b.push_back({"norm.range", [] { range_norm<double>(3, 3, true); }}); b.push_back({"norm.nested", [] { nested_norm<double>(3, 2, true); }});
    b.push_back({"norm.range.float", [] { range_norm<float>(2, 3, true); }}); b.push_back({"norm.range.long_double", [] { range_norm<long double>(2, 3, true); }});
    b.push_back({"norm.nested.float", [] { nested_norm<float>(2, 2, true); }}); b.push_back({"norm.long", [] { long_norm<double>(4); }});
    b.push_back({"split.exhaustive", [] { split_join<std::vector<double>>(3, 4, 3, true, false); }}); b.push_back({"split.vector", [] { split_join<std::vector<double>>(4, 17, 7, false, false); }});
    b.push_back({"split.float", [] { split_join<std::vector<float>>(2, 9, 4, false, false); }}); b.push_back({"split.int", [] { split_join<std::vector<int>>(2, 9, 4, false, false); }}); b.push_back({"split.deque", [] { split_join<std::deque<double>>(2, 9, 4, false, false); }});
    b.push_back({"split.array", [] { split_join<boost::array<double, 7>>(3, 7, 8, false, true); }}); b.push_back({"split.array1", [] { split_join<boost::array<double, 1>>(3, 7, 3, false, true); }});
    b.push_back({"reshape", [] { reshape(2, true); }}); b.push_back({"reshape.team", [] { reshape(3, false); }}); b.push_back({"copy", [] { copying(2, true); }}); b.push_back({"copy.team", [] { copying(4, false); }});
    for (auto &r : Runs<Vec, ode::range_algebra, Prob<Vec>>::all()) {
        std::string w = r.first;
        b.push_back({"range." + w, [w] { stepper<Vec, ode::openmp_range_algebra>(w, 3); }});
        b.push_back({"state." + w, [w] { stepper<Omp, ode::openmp_algebra>(w, 3); }});
    }
    return mc::run_main(argc, argv, b);
}
