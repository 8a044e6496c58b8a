// C23: distributed states on a controlled message-passing world (lib/mpishim): ranks are coroutines, every MPI
// operation is a scheduling point, collectives are matched and deadlocks reported.
#include "mc.hpp"
#include <array>
#include <deque>
#include <list>
#include <boost/array.hpp>
#include "parruns.hpp"
#include <boost/numeric/odeint/external/mpi/mpi.hpp>
#include <boost/numeric/odeint/util/split_adaptor.hpp>
static bool thorough() { return mc::E().tier == "thorough"; }
static void out(const std::string &s) { mc::outcome(std::hash<std::string>()(s)); }
typedef ode::mpi_state<Vec> Mpi;

static void with(int R, bool exhaustive, std::function<void(int)> body) {
    mcmpi::World w; w.exhaustive = exhaustive; w.policy = exhaustive ? 0 : mc::choose(3); w.sync = mc::choose(2);
    mc::ctx("ranks " + std::to_string(R) + (w.sync ? " synchronising" : " buffered") + " policy " + std::to_string(w.policy));
    mcmpi::run(w, R, body); mc::count("mpi_operations", w.ops);
}
// the documented distribution: in order, sizes differ by at most one, larger parts first
static std::pair<size_t, size_t> part(size_t n, size_t i, size_t p) { size_t b = 0; for (size_t k = 0; k < i; k++) b += n / p + (k < n % p); return {b, b + n / p + (i < n % p)}; }

// ---- offsets and split ranges ----------------------------------------------------------------------------------
static void offsets() {
    size_t n = mc::choose(thorough() ? 200 : 60), p = 1 + mc::choose(thorough() ? 40 : 17); size_t at = 0, lo = n, hi = 0;
    for (size_t i = 0; i < p; i++) {
        auto o = ode::detail::split_offsets(n, i, p);
        MC_CHECK(o.first == at && o.second >= o.first, "offsets", "part ", i, " of ", p, " of ", n, " elements covers [", o.first, ",", o.second, ") after a part ending at ", at);
        at = o.second; lo = std::min(lo, o.second - o.first); hi = std::max(hi, o.second - o.first);
    }
    MC_CHECK(at == n, "offsets", "the ", p, " parts of ", n, " elements end at ", at); MC_CHECK(hi - lo <= 1, "balance", "the ", p, " parts of ", n, " elements have sizes between ", lo, " and ", hi);
    mc::outcome(n * 100 + p);
}
template <class C> static C filled(size_t n) { C c; for (size_t i = 0; i < n; i++) c.push_back(typename C::value_type(1 + i)); return c; }
template <class C> static void ranges(size_t maxn, C (*make)(size_t)) {
    size_t n = mc::choose(maxn + 1), p = 1 + mc::choose(7); C c = make(n); const C &cc = c; n = c.size(); size_t at = 0;
    for (size_t i = 0; i < p; i++) {
        auto a = ode::detail::make_split_range(c, i, p); auto b = ode::detail::make_split_range(cc, i, p); auto d = c | ode::detail::split(i, p); auto e = cc | ode::detail::split(i, p);
        MC_CHECK(a.size() == b.size() && a.size() == d.size() && a.size() == e.size(), "split-range", "the ways to split a range disagree");
        size_t k = 0; for (auto it = a.begin(); it != a.end(); ++it, ++k) { MC_CHECK(at + k < n && &*it == &c[at + k] && &b[k] == &cc[at + k] && &d[k] == &*it && &e[k] == &*it, "split-range", "part ", i, " of ", p, " of ", n, " elements: element ", k, " is not element ", at + k, " of the range"); }
        at += k;
    }
    MC_CHECK(at == n, "split-range", "the parts cover ", at, " of ", n, " elements"); mc::outcome(n * 10 + p);
}
static boost::array<double, 7> array7(size_t) { boost::array<double, 7> a; for (int i = 0; i < 7; i++) a[i] = i; return a; }

// ---- distribute and collect --------------------------------------------------------------------------------------
template <class Src, class Inner> static void split_join(int maxR, size_t maxn, bool exhaustive) {
    int R = 1 + mc::choose(maxR); bool fixed = exhaustive && R > 2 && !thorough(); size_t n = fixed ? 4 : mc::choose(maxn + 1); int pre = fixed ? 0 : mc::choose(2), extra = fixed ? 0 : mc::choose(2);
    const Src src = filled<Src>(n); typedef typename Inner::value_type V; mc::ctx("size " + std::to_string(n));
    std::vector<Inner> got(R); std::vector<V> back;
    with(R, exhaustive, [&](int r) {
        ode::mpi_state<Inner> st; if (pre) st() = Inner(3, V(-1));
        const Src empty; ode::split(r == 0 ? src : empty, st); got[r] = st();
        std::vector<V> b(r == 0 ? n + extra : 0, V(-7)); ode::unsplit(st, b); if (r == 0) back = b; else MC_CHECK(b.empty(), "join-other", "joining writes on a rank other than the root");
        MC_CHECK(st() == got[r], "join-source", "joining changes the parts");
    });
    for (int i = 0; i < R; i++) { auto p = part(n, i, R); MC_CHECK(got[i].size() == p.second - p.first, "split-size", "rank ", i, " of ", R, " gets ", got[i].size(), " of ", n, " elements"); for (size_t k = 0; k < got[i].size(); k++) MC_CHECK(got[i][k] == src[p.first + k], "split-content", "rank ", i, " of ", R, ", element ", k, " of ", n); }
    for (size_t i = 0; i < n; i++) MC_CHECK(back[i] == src[i], "join-content", "element ", i, " of ", n, " after distributing over ", R, " ranks and joining is ", double(back[i]));
    for (size_t i = n; i < back.size(); i++) MC_CHECK(back[i] == V(-7), "join-excess", "joining writes behind the elements");
    out("split" + std::to_string(R) + " " + std::to_string(n));
}
// ---- norms, size comparison, resize, copy --------------------------------------------------------------------------
static void norms(int maxR, bool exhaustive) {
    int R = 1 + mc::choose(maxR); std::vector<Vec> x(R); double m = 0; const double val[] = {0, -3, 2};
    for (auto &v : x) { size_t l = mc::choose(R > 2 ? 2 : 3); for (size_t i = 0; i < l; i++) { v.push_back(val[mc::choose(3)]); m = std::max(m, std::abs(v.back())); } }
    std::vector<double> got(R);
    with(R, exhaustive, [&](int r) { Mpi s; s() = x[r]; got[r] = ode::algebra_dispatcher<Mpi>::algebra_type::norm_inf(s); });
    for (int i = 0; i < R; i++) MC_CHECK(got[i] == m, "norm", "the norm on rank ", i, " of ", R, " is ", got[i], " and should be ", m, "; local parts have ", x[0].size(), ".. elements");
    out("norm" + std::to_string(R) + " " + std::to_string(m));
}
static void sizes(int maxR, bool exhaustive) {
    int R = 1 + mc::choose(maxR); std::vector<Vec> x(R), y(R); bool eq = true; for (int i = 0; i < R; i++) { x[i].resize(mc::choose(R > 2 ? 2 : 3), 1); y[i].resize(mc::choose(R > 2 ? 2 : 3), 2); eq = eq && x[i].size() == y[i].size(); }
    std::vector<int> got(R), after(R); std::vector<Vec> z(R), c(R); 
    with(R, exhaustive, [&](int r) { Mpi a, b; a() = x[r]; b() = y[r]; got[r] = ode::same_size(a, b); if (!got[r]) ode::resize(b, a); z[r] = b(); after[r] = ode::same_size(a, b); ode::copy(a, b); c[r] = b(); });
    for (int i = 0; i < R; i++) {
        MC_CHECK(got[i] == eq, "same-size", "rank ", i, " of ", R, " finds the sizes ", got[i] ? "equal" : "different"); MC_CHECK(after[i] == 1, "same-size", "sizes differ after resizing, on rank ", i);
        MC_CHECK(z[i].size() == x[i].size(), "resize", "rank ", i, " of ", R, " resizes from ", y[i].size(), " to ", z[i].size(), " instead of ", x[i].size()); MC_CHECK(c[i] == x[i], "copy", "copying leaves rank ", i, " with ", mc::show(c[i]));
    }
    out("sizes" + std::to_string(R) + std::to_string(eq));
}

// ---- steppers ------------------------------------------------------------------------------------------------
static bool g_coupled; static size_t g_n, g_base;   // g_base: first global index of the running group (sub-communicators)
static double f_(double x, double y, double t, size_t i) { return -0.5 * x + 0.25 * y * (1 + t) - 0.125 * x * x * (1 + i * 2); }
struct SeqSys { void operator()(const Vec &x, Vec &d, double t) const { size_t n = x.size(); for (size_t i = 0; i < n; i++) d[i] = f_(x[i], g_coupled ? x[(i + 1) % n] : x[i], t, i); } };
struct SeqForce { void operator()(const Vec &x, Vec &d) const { SeqSys()(x, d, 0); } };
struct SeqAccel { void operator()(const Vec &x, const Vec &v, Vec &a, double t) const { SeqSys()(x, a, t); } };
// the right neighbour's first element, over messages of the state's own communicator
static double right(const Mpi &x) {
    int R = x.world.size(), r = x.world.rank(); double v = 0; boost::mpi::request q = x.world.irecv((r + 1) % R, 0, v); x.world.isend((r + R - 1) % R, 0, x().front()); q.wait(); return v;
}
struct DisSys { void operator()(const Mpi &x, Mpi &d, double t) const {
    size_t n = x().size(); auto p = part(g_n, x.world.rank(), x.world.size()); MC_CHECK(p.second - p.first == n && d().size() == n, "local-size", "the system is called with ", n, " local elements and room for ", d().size());
    double nb = g_coupled ? right(x) : 0; for (size_t i = 0; i < n; i++) d()[i] = f_(x()[i], g_coupled ? (i + 1 < n ? x()[i + 1] : nb) : x()[i], t, p.first + i); } };
struct DisForce { void operator()(const Mpi &x, Mpi &d) const { DisSys()(x, d, 0); } };
struct DisAccel { void operator()(const Mpi &x, const Mpi &v, Mpi &a, double t) const { DisSys()(x, a, t); } };
template <class S> struct View { static Vec of(const S &s) { return s; } }; template <> struct View<Mpi> { static Vec of(const Mpi &s) { return s(); } };
template <class S> struct ObsOf { Trace *t; void operator()(const S &s, double tm) const { Vec v = View<S>::of(s); v.push_back(tm); t->push_back(v); } };
struct SeqProb { typedef SeqSys Sys; typedef SeqForce Force; typedef SeqAccel Accel; typedef ObsOf<Vec> Obs; static Vec view(const Vec &s) { return s; } };
struct DisProb { typedef DisSys Sys; typedef DisForce Force; typedef DisAccel Accel; typedef ObsOf<Mpi> Obs; static Vec view(const Mpi &s) { return s(); } };
typedef ode::algebra_dispatcher<Mpi>::algebra_type MpiAlgebra;
typedef Runs<Vec, ode::range_algebra, SeqProb> SeqRuns; typedef Runs<Mpi, MpiAlgebra, DisProb> DisRuns;
static void compare(const std::string &which, const std::vector<Trace> &got, const Trace &seq, size_t n, const char *how) {
    int R = got.size();
    for (int r = 0; r < R; r++) {
        MC_CHECK(got[r].size() == seq.size(), "stepper-length", which, " over ", n, " elements on rank ", r, " of ", R, how, " makes ", got[r].size(), " observations and sequentially ", seq.size());
        auto p = part(n, r, R);
        for (size_t i = 0; i < seq.size(); i++) {
            Vec want(seq[i].begin() + p.first, seq[i].begin() + p.second); if (seq[i].size() > n) want.push_back(seq[i].back());   // the time
            MC_CHECK(got[r][i] == want, "stepper-result", which, " over ", n, " elements, observation ", i, " on rank ", r, " of ", R, how, " is ", mc::show(got[r][i]), " and sequentially ", mc::show(want));
        }
    }
}
static void stepper(const std::string &which, int maxR) {
    int R = 1 + mc::choose(maxR); size_t n = 1 + mc::choose(4); g_coupled = n >= (size_t)R && mc::choose(2); g_n = n; bool viasplit = mc::choose(2);
    Trace (*seq)(Vec) = nullptr; Trace (*par)(Mpi) = nullptr;
    for (auto &r : SeqRuns::all()) if (r.first == which) seq = r.second;
    for (auto &r : DisRuns::all()) if (r.first == which) par = r.second;
    std::vector<Trace> got(R); Vec x0 = start(n);
    with(R, false, [&](int r) {
        boost::mpi::communicator w; Mpi s(w);
        if (viasplit) ode::split(r == 0 ? x0 : Vec(), s); else { auto p = part(n, r, R); s() = Vec(x0.begin() + p.first, x0.begin() + p.second); }
        got[r] = par(s);
    });
    compare(which, got, seq(x0), n, ""); out(which + std::to_string(R) + " " + std::to_string(n));
}
// two groups of ranks, each with its own communicator and problem
static void groups(const std::string &which) {
    int A = 1 + mc::choose(2), B = 1 + mc::choose(2), R = A + B; size_t n = 2 + mc::choose(2); g_coupled = mc::choose(2); g_n = n;
    Trace (*seq)(Vec) = nullptr; Trace (*par)(Mpi) = nullptr;
    for (auto &r : SeqRuns::all()) if (r.first == which) seq = r.second;
    for (auto &r : DisRuns::all()) if (r.first == which) par = r.second;
    std::vector<Trace> ga(A), gb(B); Vec xa = start(n), xb = start(n); for (auto &v : xb) v = 2 - v;
    with(R, false, [&](int r) {
        boost::mpi::communicator w, g = w.split(r < A ? 0 : 1); Mpi s(g); const Vec &x0 = r < A ? xa : xb; auto p = part(n, g.rank(), g.size()); s() = Vec(x0.begin() + p.first, x0.begin() + p.second);
        (r < A ? ga[r] : gb[r - A]) = par(s);
    });
    compare(which, ga, seq(xa), n, " of the first group"); compare(which, gb, seq(xb), n, " of the second group"); out(which + std::to_string(A) + std::to_string(B) + std::to_string(n));
}
int main(int argc, char **argv) {
    std::vector<std::pair<std::string, mc::Body>> b;
    b.push_back({"offsets", offsets}); b.push_back({"ranges.vector", [] { ranges<Vec>(12, filled<Vec>); }}); b.push_back({"ranges.deque", [] { ranges<std::deque<int>>(12, filled<std::deque<int>>); }}); b.push_back({"ranges.array", [] { ranges<boost::array<double, 7>>(0, array7); }});
    b.push_back({"split.exhaustive", [] { split_join<Vec, Vec>(3, 4, true); }}); b.push_back({"split.long", [] { split_join<Vec, Vec>(5, 12, false); }});
    b.push_back({"split.deque", [] { split_join<std::deque<double>, Vec>(3, 5, false); }}); b.push_back({"split.float", [] { split_join<std::vector<float>, std::vector<float>>(3, 5, false); }}); b.push_back({"split.inner_deque", [] { split_join<Vec, std::deque<double>>(3, 5, false); }});
    b.push_back({"norm", [] { norms(3, true); }}); b.push_back({"norm.team", [] { norms(4, false); }}); b.push_back({"sizes", [] { sizes(2, true); }}); b.push_back({"sizes.team", [] { sizes(3, false); }});
    for (auto &r : SeqRuns::all()) { std::string w = r.first; b.push_back({"stepper." + w, [w] { stepper(w, 4); }}); b.push_back({"groups." + w, [w] { groups(w); }}); }
    return mc::run_main(argc, argv, b);
}
