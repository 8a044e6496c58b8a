// C27: the variable-step, variable-order Adams-Bashforth-Moulton stepper against an independent evaluation of
// the method from its definition: predictor and corrector integrate the polynomials interpolating the stored
// derivatives on the actual time grid (Lagrange form, long double).
#include "mc.hpp"
#include <memory>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
namespace ode = boost::numeric::odeint;
typedef std::vector<double> vec; typedef long double LD; typedef std::vector<LD> lvec;
static bool thorough() { return mc::E().tier == "thorough"; }

// right hand sides: 0..8: x' = polynomials of degree p (and a lower one); 20: coupled, nonlinear, time dependent;
// 30+p: solutions p(t) made attractive/repulsive by a term in x
struct Rhs { int p; const int* calls;
    template <class X> void operator()(const X& x, X& d, double t) const { typedef typename std::decay<decltype(d[0])>::type V; mc::tick(); f<V>(x, d, t); }
    template <class V, class X> void f(const X& x, X& d, V t) const {
        if (p < 20) { V s = 1; for (int i = 0; i < p; i++) s *= (t - V(0.3)); d[0] = s; V r = 2; for (int i = 0; i + 1 < p; i++) r = r * t + V(1 - i % 3); d[1] = r; }
        else if (p == 20) { using std::sin; d[0] = sin(t) + V(0.3) * x[0] - V(0.2) * x[0] * x[1]; d[1] = x[0] - V(0.5) * x[1] + t; }
        else { int q = p - 30; V u = 0, du = 0; for (int i = 0; i <= q + 1; i++) { V m = 1; for (int j = 0; j < i; j++) m *= t; u += V(1 + i % 2) * m; if (i) { V k = V(i); for (int j = 0; j + 1 < i; j++) k *= t; du += V(1 + i % 2) * k; } }
            d[0] = du - (x[0] - u); d[1] = du + (x[1] - u) * (x[0] - u + V(0.5)); } }
};
static LD exact_poly(int q, LD t) { LD u = 0, m = 1; for (int i = 0; i <= q + 1; i++) { u += (1 + i % 2) * m; m *= t; } return u; }
// integral over [a,b] of the polynomial through the points (ts[i], fs[i]), i<n: weights by Lagrange + Gauss-Legendre
static LD integral(const std::vector<LD>& ts, const std::vector<LD>& fs, int n, LD a, LD b, LD* size) {
    static LD gx[8], gw[8]; static bool init = false;
    if (!init) { init = true; const int m = 8; for (int i = 0; i < m; i++) { LD z = std::cos(3.14159265358979323846L * (i + 0.75L) / (m + 0.5L)), pp; for (int it = 0; it < 100; it++) { LD p1 = 1, p2 = 0; for (int j = 0; j < m; j++) { LD p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); } pp = m * (z * p1 - p2) / (z * z - 1); LD dz = p1 / pp; z -= dz; if (std::fabs(dz) < 1e-20L) break; } gx[i] = z; gw[i] = 2 / ((1 - z * z) * pp * pp); } }
    LD s = 0, sz = 0; for (int k = 0; k < 8; k++) { LD t = (a + b) / 2 + (b - a) / 2 * gx[k]; for (int i = 0; i < n; i++) { LD l = fs[i]; for (int j = 0; j < n; j++) if (j != i) l *= (t - ts[j]) / (ts[i] - ts[j]); s += gw[k] * l * (b - a) / 2; sz += std::fabs(gw[k] * l * (b - a) / 2); } }
    if (size) *size = std::max(*size, sz); return s;
}
struct Ref {   // the method by definition
    int N, eo = 1; std::vector<LD> ts; std::vector<lvec> fs;   // newest first
    explicit Ref(int n) : N(n) {}
    void reset() { eo = 1; ts.clear(); fs.clear(); }
    lvec deriv(const Rhs& r, const lvec& x, LD t) const { lvec d(2); r.f<LD>(x, d, t); return d; }
    void push(LD t, const lvec& f) { ts.insert(ts.begin(), t); fs.insert(fs.begin(), f); if ((int)ts.size() > N + 1) { ts.pop_back(); fs.pop_back(); } }
    // trial from x at t by h: corrected value, error estimate, derivative at the predicted value
    void trial(const Rhs& r, const vec& x, double t, double h, lvec& out, lvec& err, lvec& fp, LD& size) {
        if (ts.size() <= 1) { ts.clear(); fs.clear(); lvec x0(x.begin(), x.end()); push(t, deriv(r, x0, t)); }
        MC_CHECK((int)ts.size() >= eo, "harness:history", "order ", eo, " with ", ts.size(), " values"); size = 0; lvec pred(2); out.resize(2); err.resize(2); LD tn = (LD)t + h;
        std::vector<LD> T(ts.begin(), ts.begin() + eo), F(eo); for (int c = 0; c < 2; c++) { for (int i = 0; i < eo; i++) F[i] = fs[i][c]; pred[c] = x[c] + integral(T, F, eo, t, tn, &size); }
        fp = deriv(r, pred, tn); T.insert(T.begin(), tn); F.resize(eo + 1);
        for (int c = 0; c < 2; c++) { F[0] = fp[c]; for (int i = 0; i < eo; i++) F[i + 1] = fs[i][c]; out[c] = x[c] + integral(T, F, eo + 1, t, tn, &size); err[c] = out[c] - pred[c]; }
    }
    void accept(const Rhs& r, const lvec& out, LD tn) { push(tn, deriv(r, out, tn)); }
};
struct ExactStepper { int q; typedef vec state_type; template <class Sys> void do_step_dxdt_impl(Sys, vec& x, const vec&, double t, double h) { mc::transition(); for (int c = 0; c < 2; c++) x[c] = exact_poly(q, (LD)t + h); } };
template <class X, class Y> static void same(const char* what, const std::string& kk, const X& got, const Y& want, LD size, double scale) {
    for (int c = 0; c < 2; c++) MC_CHECK(std::fabs((LD)got[c] - want[c]) <= 2e-11L * (size + scale), what + kk, "component ", c, " is ", (double)got[c], " expected ", (double)want[c], " (difference ", (double)((LD)got[c] - want[c]), ")");
}
static const double FACTOR[] = {1, 0.5, 2, 1.5, 0.3, -1};

// ---- the error stepper itself ------------------------------------------------------------------------
template <int N> void steps() {
    typedef ode::adaptive_adams_bashforth_moulton<N, vec> S; std::string kk = mc::fmt(":adaptive_adams_bashforth_moulton<", N, ">");
    static const std::vector<int> probs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 20}; int pr = mc::choose(N + 2); int p = pr == N + 1 ? 20 : pr; double sg = mc::choose(2) ? -1 : 1; double t = mc::choose(2) ? -1.75 : 0; double h0 = sg * 0.25, h = h0; mc::shard_point();
    std::string cx = mc::fmt("order ", N, " problem ", p, " t0 ", t, " dt ", h0, " operations"); std::unique_ptr<S> s(new S()); Ref R(N); Rhs r{p, 0}; vec x = {1.0, -0.5}; int depth = 2 * N + 2 < 7 ? 7 : std::min(2 * N + 2, thorough() ? 14 : 10);
    for (int k = 0; k < depth; k++) {
        int op = mc::deviate(11);
        if (op <= 5 && FACTOR[op] > 0) h *= FACTOR[op]; else if (op == 5) h = h0;
        if (op == 6) { cx += " reset"; s->reset(); R.reset(); continue; }
        if (op == 7) { cx += " copy"; S* c = new S(*s); vec y = x; s->do_step(r, y, t, h * 3); s.reset(c); continue; }
        if (op == 8) { cx += " assign"; S c(*s); vec y = x; s->do_step(r, y, t, h * 0.7); *s = c; continue; }
        if (op == 9) { cx += mc::fmt(" initialize ", h); mc::ctx(cx); s->initialize(r, x, t, h); R.reset(); lvec o, e, f; LD sz; vec y = x; (void)y; // N steps of h/N
            // replayed by the reference from where the state was before: not observable, so only the history counts
            return; }
        int var = op == 10 ? 3 : k % 4; cx += mc::fmt(" step(", h, ",", var, ")"); mc::ctx(cx); vec in = x, out = {9, 9}, e = {9, 9}; bool he = false;
        switch (var) { case 0: out = in; s->do_step(r, out, t, h); break; case 1: s->do_step(r, in, t, out, h); break; case 2: out = in; s->do_step(r, out, t, h, e); he = true; break; case 3: s->do_step(r, in, t, out, h, e); he = true; break; }
        MC_CHECK(var == 0 || var == 2 || in == x, "input-changed" + kk, "");
        lvec want, err, fp; LD size; R.trial(r, x, t, h, want, err, fp, size); mc::transition();
        same("step", kk, out, want, size, 1 + std::fabs(x[0]) + std::fabs(x[1])); if (he) same("error-estimate", kk, e, err, size, 1);
        if (p < 20 && p <= R.eo) { LD ex = (std::pow((LD)t + h - 0.3L, p + 1) - std::pow((LD)t - 0.3L, p + 1)) / (p + 1); MC_CHECK(std::fabs(out[0] - x[0] - ex) <= 2e-11L * (size + 1 + std::fabs(x[0])), "polynomial" + kk, "increment ", out[0] - x[0], " exact ", (double)ex, " at order ", R.eo); }
        lvec o2(out.begin(), out.end()); x = out; t += h; R.accept(r, o2, t); if (R.eo < N) R.eo++;
        MC_CHECK(s->coeff().m_eo == (size_t)R.eo, "order" + kk, "order ", s->coeff().m_eo, " expected ", R.eo); mc::state(mc::mix(mc::mix(mc::hash_double(x[0]), mc::hash_double(h)), k)); mc::outcome(mc::hash_double(out[0]));
    }
}
// after initialisation with an exact stepper: polynomial solutions of equations that depend on the state
template <int N> void poly() {
    typedef ode::adaptive_adams_bashforth_moulton<N, vec> S; std::string kk = mc::fmt(":adaptive_adams_bashforth_moulton<", N, ">/initialised");
    int q = mc::choose(N); double sg = mc::choose(2) ? -1 : 1; double t0 = mc::choose(2) ? -0.75 : 0, h = sg * (mc::choose(2) ? 0.5 : 0.0625), t = t0; int used = mc::choose(2); mc::shard_point();
    S s; Rhs r{30 + q, 0}; vec x = {(double)exact_poly(q, t), (double)exact_poly(q, t)}; std::string cx = mc::fmt("order ", N, " polynomial derivative of degree ", q, " t0 ", t0, " dt ", h, " initialised", used ? " after use" : "");
    if (used) { vec y = {3, 4}; Rhs g{20, 0}; for (int i = 0; i < N + 1; i++) s.do_step(g, y, 5 + 0.1 * i, 0.1); }
    ExactStepper ex{q}; double tt = t; s.initialize(ex, r, x, tt, h); MC_CHECK(mc::close(tt, t + h, 1e-13), "initialize-time" + kk, tt, " expected ", t + h); t = tt; MC_CHECK(s.coeff().m_eo == N, "initialize-order" + kk, s.coeff().m_eo);
    h /= N; for (int k = 0; k < 7; k++) { int d = mc::deviate(5); h *= FACTOR[d]; if (d == 2 && std::fabs(h) > 0.3) h /= 4; cx += mc::fmt(" step ", h); mc::ctx(cx); vec e = {9, 9}; s.do_step(r, x, t, h, e); t += h; LD u = exact_poly(q, t); mc::transition();
        for (int c = 0; c < 2; c++) { MC_CHECK(std::fabs(x[c] - u) <= 1e-9L * (1 + std::fabs(u)), "polynomial" + kk, "component ", c, " is ", x[c], " exact ", (double)u); MC_CHECK(std::fabs(e[c]) <= 1e-9L * (1 + std::fabs(u)), "estimate" + kk, "error estimate ", e[c], " for a solution the method reproduces"); }
        mc::state(mc::mix(mc::hash_double(x[0]), mc::hash_double(t))); mc::outcome(mc::hash_double(x[0])); }
}
// initialize(system): the method's own start with N steps of dt/N
template <int N> void selfinit() {
    typedef ode::adaptive_adams_bashforth_moulton<N, vec> S; std::string kk = mc::fmt(":adaptive_adams_bashforth_moulton<", N, ">/self"); int p = mc::choose(3); p = p == 2 ? 20 : p; double h = mc::choose(2) ? -0.5 : 0.75, t = mc::choose(2) ? 2 : 0; int used = mc::choose(2); mc::shard_point();
    S s; Rhs r{p, 0}; vec x = {1, -0.5}; mc::ctx(mc::fmt("order ", N, " problem ", p, " initialize dt ", h, " t0 ", t, used ? " after use" : "")); if (used) { vec y = {3, 4}; Rhs g{20, 0}; for (int i = 0; i < N + 1; i++) s.do_step(g, y, 5 + 0.1 * i, 0.1); }
    Ref R(N); vec y = x; double ty = t; for (int i = 0; i < N; i++) { lvec w, e, f; LD sz; R.trial(r, y, ty, h / N, w, e, f, sz); y.assign(w.begin(), w.end()); lvec o(y.begin(), y.end()); ty += h / N; R.accept(r, o, ty); if (R.eo < N) R.eo++; }
    s.initialize(r, x, t, h); same("initialize", kk, x, y, 1, 1); MC_CHECK(mc::close(t, ty, 1e-13), "initialize-time" + kk, t); 
    for (int k = 0; k < 4; k++) { double g = h / N * FACTOR[mc::choose(5)]; lvec w, e, f; LD sz; R.trial(r, x, t, g, w, e, f, sz); s.do_step(r, x, t, g); same("step", kk, x, w, sz, 1 + std::fabs(x[0]) + std::fabs(x[1])); t += g; lvec o(x.begin(), x.end()); R.accept(r, o, t); mc::transition(); mc::state(mc::hash_double(x[0])); mc::outcome(mc::hash_double(x[1])); }
}

// ---- controlled, closed with environment adjusters -----------------------------------------------------
struct Env { int accepted, rejected; size_t steps; vec err, x, dxdt; double dt, next; int order, neworder; bool order_asked; int resets; double h0; bool plain; };
static Env& W() { static Env e; return e; }
struct EnvStep {   // step adjuster: the answer is a choice
    typedef vec state_type; static double threshold() { return 0.9; }
    double adjust_stepsize(const size_t steps, double dt, vec& err, const vec& x, const vec& dxdt) {
        Env& w = W(); w.steps = steps; w.err = err; w.x = x; w.dxdt = dxdt; w.dt = dt; int c = w.plain ? 0 : mc::deviate(5); static const double f[] = {1, 0.5, 2, 0.95, 0.1}; double g = f[c]; if (g > 1 && std::fabs(dt) > 4 * std::fabs(w.h0)) g = 1; if (g < 0.9 && std::fabs(dt) < std::fabs(w.h0) / 8) g = 1.25; for (auto& v : err) v = 12345; w.next = dt * g; return w.next;
    }
    void reset() { W().resets++; }
};
template <int N> struct EnvOrder {
    size_t adjust_order(size_t order, size_t init, boost::array<ode::state_wrapper<vec>, 4>& xerr) { Env& w = W(); w.order_asked = true; w.order = order; int c = w.plain ? 2 : mc::deviate(3); size_t o = order; if (c == 0) o = order < N ? order + 1 : order; else if (c == 2) o = order > 1 ? order - 1 : order; return w.neworder = o; }
};
template <int N> void controlled() {
    typedef ode::adaptive_adams_bashforth_moulton<N, vec> E; typedef ode::controlled_adams_bashforth_moulton<E, EnvStep, EnvOrder<N>> S; std::string kk = mc::fmt(":controlled_adams_bashforth_moulton<", N, ">");
    int pi = mc::choose(3); int p = pi == 0 ? 20 : pi == 1 ? N : N / 2; double sg = mc::choose(2) ? -1 : 1, t = mc::choose(2) ? -1.75 : 0, dt = sg * 0.25; mc::shard_point(); W() = Env(); W().h0 = dt;
    std::string cx = mc::fmt("controlled order ", N, " problem ", p, " t0 ", t, " dt ", dt, ":"); std::unique_ptr<S> s(new S()); Ref R(N); Rhs r{p, 0}; vec x = {1, -0.5}; int depth = std::min(N + 4, thorough() ? 12 : 9);
    for (int k = 0; k < depth; k++) {
        int op = mc::deviate(4);
        if (op == 1) { cx += " reset"; int n = W().resets; s->reset(); R.reset(); MC_CHECK(W().resets == n + 1, "reset-adjuster" + kk, "the step adjuster was not reset"); continue; }
        if (op == 2) { cx += " copy"; Env keep = W(); W().plain = true; S* c = new S(*s); vec y = x; double tt = t, dd = dt * 2; s->try_step(r, y, tt, dd); s.reset(c); W() = keep; continue; }
        if (op == 3) { cx += " assign"; Env keep = W(); W().plain = true; S c(*s); vec y = x; double tt = t, dd = dt * 0.7; s->try_step(r, y, tt, dd); *s = c; W() = keep; continue; }
        bool two = k % 2; cx += mc::fmt(" try(", dt, ")"); mc::ctx(cx); vec in = x, out = {9, 9}; double t1 = t, d1 = dt; W().order_asked = false; ode::controlled_step_result res;
        if (two) { res = s->try_step(r, in, t1, out, d1); MC_CHECK(in == x, "input-changed" + kk, ""); } else { out = in; res = s->try_step(r, out, t1, d1); }
        lvec want, err, fp; LD size; R.trial(r, x, t, dt, want, err, fp, size); mc::transition(); Env& w = W();
        MC_CHECK(w.steps == (size_t)R.eo, "order" + kk, "trial made with order ", w.steps, " expected ", R.eo); MC_CHECK(w.dt == dt && d1 == w.next, "step-size" + kk, "adjuster asked for ", w.dt, " answered ", w.next, ", dt is ", d1, " after a trial with ", dt);
        double sc = 1 + std::fabs(x[0]) + std::fabs(x[1]); same("error-estimate", kk, w.err, err, size, 1); same("trial", kk, w.x, want, size, sc); LD fs = 1 + std::fabs(fp[0]) + std::fabs(fp[1]); same("derivative", kk, w.dxdt, fp, fs * 10, sc);
        bool ok = d1 / dt >= 0.9; MC_CHECK((res == ode::success) == ok, "decision" + kk, "ratio ", d1 / dt, " result ", res == ode::success);
        if (ok) { same("step", kk, out, want, size, sc); MC_CHECK(t1 == t + dt, "time" + kk, t1); MC_CHECK(w.order_asked && w.order == R.eo, "order" + kk, "order adjuster given ", w.order, " in a step of order ", R.eo); lvec o(out.begin(), out.end()); x = out; t = t1; R.accept(r, o, t); R.eo = w.neworder; w.accepted++; cx += mc::fmt("ok,order ", R.eo); }
        else { MC_CHECK(t1 == t && (two || out == x) && !w.order_asked, "rejected-changes" + kk, "time ", t1, " was ", t); w.rejected++; cx += "rejected"; }
        dt = d1; mc::state(mc::mix(mc::mix(mc::hash_double(x[0]), mc::hash_double(dt)), R.eo * 32 + k)); mc::outcome(mc::hash_double(out[0]));
    }
}
// initialize_controlled with a controlled stepper whose answers are choices and whose states are exact
struct EnvCtl { typedef vec state_type; int q; double h0; int made; std::vector<double>* grid;
    template <class Sys> ode::controlled_step_result try_step(Sys, vec& x, double& t, double& dt) { mc::transition(); int c = mc::deviate(4); if (c == 1 && std::fabs(dt) > std::fabs(h0) / 4) { dt /= 2; return ode::fail; } t += dt; grid->push_back(t); for (int i = 0; i < 2; i++) x[i] = exact_poly(q, t); if (c == 2) dt *= 1.5; if (c == 3) dt *= 0.5; return ode::success; } };
template <int N> void init_controlled() {
    typedef ode::adaptive_adams_bashforth_moulton<N, vec> E; typedef ode::controlled_adams_bashforth_moulton<E, EnvStep, EnvOrder<N>> S; std::string kk = mc::fmt(":controlled_adams_bashforth_moulton<", N, ">/initialize_controlled");
    int q = mc::choose(N); double sg = mc::choose(2) ? -1 : 1, t = mc::choose(2) ? -0.75 : 0, dt = sg * 0.0625; int used = mc::choose(2); mc::shard_point(); W() = Env(); W().h0 = dt; W().plain = true; S s; Rhs r{30 + q, 0}; if (used) { vec y = {3, 4}; Rhs g{20, 0}; double tt = 5, dd = 0.1; for (int i = 0; i < N + 1; i++) s.try_step(g, y, tt, dd); } W().plain = false;
    vec x = {(double)exact_poly(q, t), (double)exact_poly(q, t)}; std::vector<double> grid; EnvCtl c = {q, dt, 0, &grid}; mc::ctx(mc::fmt("order ", N, " degree ", q, " t0 ", t, " dt ", dt, used ? " after use" : "")); s.initialize_controlled(c, r, x, t, dt); std::string cx = mc::E().ctx + " grid" + mc::show(grid); mc::ctx(cx);
    MC_CHECK((int)grid.size() == N && t == grid.back(), "initialize-steps" + kk, grid.size(), " steps, t ", t);
    W().plain = true; int o = N; for (int k = 0; k < 3; k++) { double d1 = dt, t1 = t; W().order_asked = false; ode::controlled_step_result res = s.try_step(r, x, t1, d1); MC_CHECK(W().steps == (size_t)o, "initialize-order" + kk, "order ", W().steps); MC_CHECK(res == ode::success, "decision" + kk, ""); t = t1; o = W().neworder; if (q >= o) return; LD u = exact_poly(q, t); mc::transition();
        for (int i = 0; i < 2; i++) MC_CHECK(std::fabs(x[i] - u) <= 1e-9L * (1 + std::fabs(u)), "polynomial" + kk, "component ", i, " is ", x[i], " exact ", (double)u, " after step ", k + 1); mc::outcome(mc::hash_double(x[0])); }
    mc::state(mc::mix(mc::hash_double(t), q));
}

// ---- the library's adjusters ----------------------------------------------------------------------------
template <int N> struct Watch : ode::default_order_adjuster<N, vec> { typedef ode::default_order_adjuster<N, vec> B; static std::vector<std::pair<int, int>>& log() { static std::vector<std::pair<int, int>> l; return l; }
    size_t adjust_order(size_t o, size_t init, boost::array<ode::state_wrapper<vec>, 4>& e) { size_t n = B::adjust_order(o, init, e); log().push_back({(int)o, (int)n}); return n; } };
struct Prob { int k; void operator()(const vec& x, vec& d, double t) const { mc::tick(); if (k == 0) { d[0] = -x[1]; d[1] = x[0]; } else if (k == 1) { d[0] = -20 * (x[0] - std::cos(t)); d[1] = x[0]; } else if (k == 2) { d[0] = x[1]; d[1] = 3 * (1 - x[0] * x[0]) * x[1] - x[0]; } else { d[0] = 1; d[1] = 2 * t; } } };
template <int N, int TYPE> void real(const char* nm) {
    typedef ode::adaptive_adams_bashforth_moulton<N, vec> E; typedef ode::detail::pid_step_adjuster<vec, double, vec, double, typename E::algebra_type, typename E::operations_type, TYPE> P; typedef ode::controlled_adams_bashforth_moulton<E, P, Watch<N>> S; std::string kk = mc::fmt(":controlled_adams_bashforth_moulton<", N, ",", nm, ">");
    static const double tols[] = {1e-3, 1e-6, 1e-10}; int p1 = mc::choose(4), p2 = mc::choose(4), len = mc::choose(thorough() ? 40 : 25), tk = mc::choose(3); double sg = mc::choose(2) ? -1 : 1; double dt0 = sg * (mc::choose(2) ? 1e-2 : 0.5); mc::shard_point();
    mc::ctx(mc::fmt(nm, " order ", N, " history of ", len, " trials of problem ", p1, ", then problem ", p2, " tolerance ", tols[tk], " dt ", dt0)); S s(P(tols[tk], tols[tk], 1.0)), f(P(tols[tk], tols[tk], 1.0)); auto& L = Watch<N>::log(); L.clear();
    vec x = {1, 0.5}; double t = 0, dt = sg * 0.1; for (int i = 0; i < len; i++) s.try_step(Prob{p1}, x, t, dt);
    s.reset(); vec y = {1, -0.25}, z = y; double ty = 1, tz = 1, dy = dt0, dz = dt0; 
    for (int i = 0; i < N + 6; i++) { size_t n0 = L.size(); double tb = ty; auto a = s.try_step(Prob{p2}, y, ty, dy); size_t n1 = L.size(); auto b = f.try_step(Prob{p2}, z, tz, dz); size_t n2 = L.size(); mc::transition();
        MC_CHECK(a == b && ty == tz && dy == dz && mc::same_bits_or_nan(y[0], z[0]) && mc::same_bits_or_nan(y[1], z[1]) && n1 - n0 == n2 - n1 && (n1 == n0 || L[n0] == L[n1]), "reset" + kk, "trial ", i + 1, " after the reset: x ", y[0], " t ", ty, " dt ", dy, n1 > n0 ? mc::fmt(" order ", L[n0].second) : std::string(), "; a new stepper: x ", z[0], " t ", tz, " dt ", dz, n2 > n1 ? mc::fmt(" order ", L[n1].second) : std::string());
        MC_CHECK((a == ode::success) == (ty != tb), "time" + kk, ""); mc::outcome(mc::hash_double(y[0])); }
    int last = 1; for (size_t i = 0; i < L.size(); i++) { MC_CHECK(L[i].first >= 1 && L[i].first <= N && L[i].second >= 1 && L[i].second <= N && std::abs(L[i].second - L[i].first) <= 1, "order-change" + kk, "order ", L[i].first, " changed to ", L[i].second); } (void)last; mc::state(std::hash<std::string>()(mc::E().ctx));
}
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B;
#define ALL(n) B.push_back({"steps." #n, steps<n>}); B.push_back({"poly." #n, poly<n>}); B.push_back({"selfinit." #n, selfinit<n>}); B.push_back({"controlled." #n, controlled<n>}); B.push_back({"initctl." #n, init_controlled<n>});
    ALL(1) ALL(2) ALL(3) ALL(4) ALL(5) ALL(6) ALL(7) ALL(8)
#define REAL(n, ty) B.push_back({"real." #n "." #ty, [] { real<n, ode::detail::ty>(#ty); }});
    REAL(2, BASIC) REAL(3, H211PI) REAL(5, H211PI) REAL(8, H211PI) REAL(4, H0211) REAL(4, H211b) REAL(4, H0312) REAL(4, H312b) REAL(4, H312PID) REAL(4, H0321) REAL(4, H321) REAL(1, H211PI)
    return mc::run_main(argc, argv, B);
}
