// C13: the extrapolation steppers next to an independent extrapolation table (long double), with the problem
// (stiffness) of every trial chosen by the explorer, so that all histories of the order/step-size memory occur.
#include "mc.hpp"
#include <memory>
#include <boost/numeric/odeint.hpp>
namespace ode = boost::numeric::odeint;
typedef long double LD; typedef std::vector<LD> lvec;
static bool thorough() { return mc::E().tier == "thorough"; }

// problems 0..: rotation with frequency w; 10: nonlinear, time dependent; 11: decay; 12: still (derivative 0); 13: polynomial in t
struct Rhs { int p; LD w;
    template <class V, class X> void f(const X& x, X& d, V t) const { using std::sin; using std::cos; V W = V(w);
        if (p == 0) { d[0] = -W * x[1]; d[1] = W * x[0]; }
        else if (p == 1) { d[0] = W * (x[1] + V(0.3) * sin(W * t)); d[1] = -W * sin(x[0]); }
        else if (p == 2) { d[0] = -W * x[0]; d[1] = -W * (x[1] - V(0.5)); }
        else if (p == 3) { d[0] = 0; d[1] = 0; }
        else { d[0] = W * W * t; d[1] = V(3) * t * t; } }
    template <class X, class T> void operator()(const X& x, X& d, T t) const { mc::tick(); f<typename std::decay<decltype(d[0])>::type>(x, d, t); }
    lvec g(const lvec& x, LD t) const { lvec d(2); f<LD>(x, d, t); return d; }
};
// modified midpoint with n substeps
static lvec midpoint(const Rhs& r, const lvec& x, LD t, LD H, int n) {
    LD h = H / n; lvec a = x, b(2), d = r.g(x, t); for (int c = 0; c < 2; c++) b[c] = x[c] + h * d[c];
    for (int i = 1; i < n; i++) { d = r.g(b, t + i * h); for (int c = 0; c < 2; c++) { LD z = a[c] + 2 * h * d[c]; a[c] = b[c]; b[c] = z; } }
    d = r.g(b, t + H); for (int c = 0; c < 2; c++) b[c] = (a[c] + b[c] + h * d[c]) / 2; return b;
}
struct Table { std::vector<std::vector<lvec>> T; LD size = 0;
    Table(const Rhs& r, const lvec& x, LD t, LD H, bool dense, int K = 8) : T(K + 1) {
        auto n = [&](int k) { return dense ? 2 + 4 * k : 2 * (k + 1); };
        for (int k = 0; k <= K; k++) { T[k].push_back(midpoint(r, x, t, H, n(k))); for (int j = 1; j <= k; j++) { LD q = (LD)n(k) / n(k - j), cf = 1 / (q * q - 1); lvec z(2); for (int c = 0; c < 2; c++) z[c] = T[k][j - 1][c] + cf * (T[k][j - 1][c] - T[k - 1][j - 1][c]); T[k].push_back(z); } for (int c = 0; c < 2; c++) size = std::max(size, std::fabs(T[k][0][c])); }
    }
};
// flow in high accuracy
static lvec flow(const Rhs& r, lvec x, LD t, LD H) { if (r.p == 0) { LD c = std::cos(r.w * H), s = std::sin(r.w * H); return {c * x[0] - s * x[1], s * x[0] + c * x[1]}; } if (r.p == 2) { LD e = std::exp(-r.w * H); return {x[0] * e, 0.5L + (x[1] - 0.5L) * e}; } if (r.p == 3) return x; if (r.p == 4) return {x[0] + r.w * r.w * ((t + H) * (t + H) - t * t) / 2, x[1] + ((t + H) * (t + H) * (t + H) - t * t * t)};
    int m = 2 + (int)std::ceil(2 * r.w * std::fabs(H)); for (int i = 0; i < m; i++) x = Table(r, x, t + H * i / m, H / m, false).T[8][8]; return x; }
struct Cfg { double ea, er, fx, fd; };
static LD weight(const Cfg& c, const lvec& x, const lvec& d, LD H, int i) { return c.ea + c.er * (c.fx * std::fabs(x[i]) + c.fd * std::fabs(H) * std::fabs(d[i])); }
static LD norm(const Cfg& c, const lvec& x, const lvec& d, LD H, const lvec& a, const lvec& b) { LD m = 0; for (int i = 0; i < 2; i++) m = std::max(m, std::fabs(a[i] - b[i]) / weight(c, x, d, H, i)); return m; }
static const Cfg CFG[] = {{1e-6, 1e-6, 1, 1}, {1e-10, 1e-10, 1, 1}, {1e-3, 1e-3, 1, 1}, {1e-2, 0, 1, 1}, {1e-9, 1e-4, 1, 0}, {1e-8, 1e-5, 0, 1}, {1e-13, 1e-13, 1, 1}};
static LD worst_true = 0;
// one accepted step against the table; returns the column
template <class V> int accepted(const std::string& kk, const Cfg& cf, const Rhs& r, const lvec& x, LD t, LD H, const lvec& out, bool dense) {
    Table T(r, x, t, H, dense); lvec d = r.g(x, t); LD eps = std::numeric_limits<V>::epsilon(), sc = 0; for (int c = 0; c < 2; c++) sc = std::max(sc, std::fabs(x[c]) + std::fabs(H * d[c])); sc = std::max(sc, T.size); LD slack = 400 * eps * sc * (1 + r.w * std::fabs(H)) * (1 + (r.p ? std::fabs(t) : 0)) + 8 * eps * std::fabs(t) * (std::fabs(d[0]) + std::fabs(d[1])); int hit = -1; std::string es;
    LD wmin = std::min(weight(cf, x, d, H, 0), weight(cf, x, d, H, 1));
    for (int k = 1; k <= 8; k++) { LD e = norm(cf, x, d, H, T.T[k][k], T.T[k][k - 1]); es += mc::fmt(" ", (double)e); bool eq = true; for (int c = 0; c < 2; c++) eq = eq && std::fabs(out[c] - T.T[k][k][c]) <= slack; if (eq && e < 1 + 1e-9L + slack / wmin && hit < 0) hit = k; }
    MC_CHECK(hit > 0, "accepted-inaccurate" + kk, "accepted step from ", (double)x[0], ",", (double)x[1], " by ", (double)H, " to ", (double)out[0], ",", (double)out[1], " which is no extrapolation result meeting the tolerance; error estimates of the columns:", es);
    if (r.w * std::fabs(H) <= 1.2L && std::fabs(x[0]) + std::fabs(x[1]) < 4) { lvec ex = flow(r, x, t, H); LD e = norm(cf, x, d, H, out, ex); worst_true = std::max(worst_true, e); if (e > 1.5L) mc::count("true error above 1.5 tol"); MC_CHECK(e <= 40 + slack / wmin, "true-error" + kk, "accepted step has an error of ", (double)e, " tolerances; dt*w ", (double)(r.w * H)); }
    return hit;
}
template <class V> static bool refusal_ok(const Cfg& cf, const Rhs& r, const lvec& x, LD t, LD H, bool dense) {   // every column meets the tolerance by a margin: must be accepted
    Table T(r, x, t, H, dense); lvec d = r.g(x, t); LD eps = std::numeric_limits<V>::epsilon(); LD wmin = std::min(weight(cf, x, d, H, 0), weight(cf, x, d, H, 1)); LD m = 400 * eps * (1 + T.size) * (1 + r.w * std::fabs(H)) / wmin; for (int k = 1; k <= 8; k++) m = std::max(m, norm(cf, x, d, H, T.T[k][k], T.T[k][k - 1])); return m >= 0.99L; }

static const LD OMEGA[] = {1, 0.05L, 4, 25, 300, 0, 1.7L};
static Rhs menu(int i) { static const Rhs R[] = {{0, 1}, {0, 0.05L}, {0, 4}, {0, 25}, {0, 300}, {1, 1.7L}, {2, 3}, {3, 0}, {4, 1.5L}}; return R[i]; }
enum { MENU = 9 };

// ---- histories of trials, the problem of each chosen; variants of the call ---------------------------------------
template <class V> void trials() {
    typedef std::vector<V> vec; typedef ode::bulirsch_stoer<vec, V, vec, V> S; std::string kk = sizeof(V) == 8 ? ":bulirsch_stoer" : ":bulirsch_stoer<float>"; bool fl = sizeof(V) == 4;
    int ci = fl ? mc::choose_from(std::vector<int>{2, 3, 5}) : mc::choose(6); Cfg cf = CFG[ci]; LD sg = mc::choose(2) ? -1 : 1; static const double D0[] = {0.1, 1e-4, 2, 10}; V dt = V(sg * D0[mc::choose(4)]), t = mc::choose(2) ? V(-2.5) : V(0); int base = mc::choose(MENU); V mx = mc::deviate(2) ? V(sg * 0.25) : V(0); mc::shard_point();
    std::unique_ptr<S> s(new S(cf.ea, cf.er, cf.fx, cf.fd, mx)); vec x = {V(1), V(0.25)}; std::string cx = mc::fmt("tolerances ", cf.ea, ",", cf.er, " weights ", cf.fx, ",", cf.fd, " dt ", dt, " t ", t, " max_dt ", mx, ":"); int depth = thorough() ? 14 : 9, fails = 0; V last = 0;
    for (int k = 0; k < depth; k++) {
        int pi = base, op = mc::deviate(MENU + 6); if (op >= 1 && op < MENU) pi = (base + op) % MENU; Rhs r = menu(pi);
        if (op == MENU) { cx += " reset"; s->reset(); fails = 0; continue; }
        if (op == MENU + 1) { cx += " copy"; S* c = new S(*s); vec y = x; V tt = t, dd = dt; s->try_step(menu(4), y, tt, dd); s.reset(c); continue; }
        if (op == MENU + 2) { cx += " dt*3"; dt *= 3; fails = 0; continue; }
        if (op == MENU + 3) { cx += " dt/2"; dt /= 2; continue; }
        if (op == MENU + 4) { cx += " turn"; dt = -dt; if (mx != 0) { mx = 0; s.reset(new S(cf.ea, cf.er, cf.fx, cf.fd, mx)); } fails = 0; continue; }
        if (op == MENU + 5) { cx += " state"; x = {V(0), V(-2)}; }
        cx += mc::fmt(" try(", r.p, ",", (double)r.w, ",", dt, ")"); mc::ctx(cx); vec in = x, out = {9, 9}, d = {7, 7}; V t1 = t, d1 = dt; int var = k % 4; ode::controlled_step_result res;
        lvec xl(x.begin(), x.end()); if (var >= 2) { r(x, d, t); } vec dk = d;
        switch (var) { case 0: out = in; res = s->try_step(r, out, t1, d1); break; case 1: res = s->try_step(r, in, t1, out, d1); break; case 2: out = in; res = s->try_step(r, out, d, t1, d1); break; default: res = s->try_step(r, in, d, t1, out, d1); }
        mc::transition(); MC_CHECK(in == x && d == dk, "input-changed" + kk, "variant ", var); MC_CHECK(d1 == d1 && d1 != 0 && std::signbit(d1) == std::signbit(dt), "step-size-sign" + kk, "dt became ", d1, " after a trial with ", dt);
        if (mx != 0 && std::fabs(dt) > std::fabs(mx) * (1 + 1e-6)) { MC_CHECK(res == ode::fail && d1 == mx && t1 == t, "max-dt" + kk, "trial with dt ", dt, " above max_dt ", mx, ": result ", res == ode::success, " dt ", d1); dt = d1; cx += "limited"; continue; }
        if (mx != 0) MC_CHECK(std::fabs(d1) <= std::fabs(mx), "max-dt" + kk, "proposed step ", d1, " above max_dt ", mx);
        if (res == ode::success) { MC_CHECK(t1 == V(t + dt), "time" + kk, t1, " after ", t, " + ", dt); lvec o(out.begin(), out.end()); int col = accepted<V>(kk, cf, r, xl, t, dt, o, false); cx += mc::fmt(" ok", col); x = out; t = t1; fails = 0; }
        else { MC_CHECK(t1 == t && (var == 1 || var == 3 || out == in), "rejected-changes" + kk, "time ", t1, " was ", t); MC_CHECK(std::fabs(d1) < std::fabs(dt), "rejected-not-smaller" + kk, "rejected with dt ", dt, ", next ", d1); MC_CHECK(refusal_ok<V>(cf, r, xl, t, dt, false), "needless-rejection" + kk, "rejected although every column meets the tolerance; dt ", dt); cx += " no"; fails++; MC_CHECK(fails < 25, "no-progress" + kk, fails, " rejections in a row, dt ", d1); }
        dt = d1; if (std::fabs(dt) > 20) { dt = dt > 0 ? 0.7 : -0.7; cx += " shrink"; } if (std::fabs(t) > 30 || std::fabs(x[0]) + std::fabs(x[1]) > 300) return; mc::state(mc::mix(mc::mix(mc::hash_double(x[0]), mc::hash_double(dt)), k)); mc::outcome(mc::mix(mc::hash_double(out[0]), res));
    }
}
// ---- after a reset (or a step size changed from outside, or on a copy): like a new stepper -------------------------
template <class V> void renew() {
    typedef std::vector<V> vec; typedef ode::bulirsch_stoer<vec, V, vec, V> S; std::string kk = ":bulirsch_stoer"; int ci = mc::choose(3); Cfg cf = CFG[ci]; LD sg = mc::choose(2) ? -1 : 1; int p1 = mc::choose(MENU), p2 = mc::choose(MENU), len = 1 + mc::choose(thorough() ? 8 : 5), how = mc::choose(2); V d1 = V(sg * (mc::choose(2) ? 0.1 : 3)), d2 = V((mc::choose(2) ? -1 : 1) * (mc::choose(2) ? 0.07 : 2.3)); mc::shard_point();
    std::string cx = mc::fmt("tolerance ", cf.ea, " ", len, " trials of problem ", p1, " dt ", d1, how ? ", then another step size " : ", then reset and ", d2, " problem ", p2); mc::ctx(cx); S s(cf.ea, cf.er, cf.fx, cf.fd), n(cf.ea, cf.er, cf.fx, cf.fd); vec x = {1, 0.5}; V t = 0, dt = d1; for (int i = 0; i < len; i++) { int q = mc::deviate(MENU); s.try_step(menu((p1 + q) % MENU), x, t, dt); }
    if (!how) s.reset(); if (how && d2 == dt) return; vec y = {0.5, -1}, z = y; V ty = 1, tz = 1, a = d2, b = d2;
    for (int i = 0; i < 6; i++) { auto ra = s.try_step(menu(p2), y, ty, a), rb = n.try_step(menu(p2), z, tz, b); mc::transition(); MC_CHECK(ra == rb && y == z && ty == tz && a == b, (how ? "step-size-change" : "reset") + kk, "trial ", i + 1, ": x ", y[0], " t ", ty, " dt ", a, "; new stepper: x ", z[0], " t ", tz, " dt ", b); mc::outcome(mc::hash_double(y[0])); } mc::state(std::hash<std::string>()(cx));
}
// ---- dense output: problem of each step chosen ------------------------------------------------------------------------
static LD worst_mid = 0;
void dense() {
    typedef std::vector<double> vec; typedef ode::bulirsch_stoer_dense_out<vec> S; int ci = mc::choose(6); Cfg cf = CFG[ci]; bool ctl = mc::choose(2); std::string kk = ctl ? ":bulirsch_stoer_dense_out/controlled-interpolation" : ":bulirsch_stoer_dense_out"; double sg = mc::choose(2) ? -1 : 1; static const double D0[] = {0.1, 1e-4, 2, 10}; double dt0 = sg * D0[mc::choose(4)], t0 = mc::choose(2) ? -2.5 : 0; int base = mc::choose(MENU); double mx = mc::deviate(2) ? sg * 0.25 : 0; mc::shard_point();
    std::unique_ptr<S> s(new S(cf.ea, cf.er, cf.fx, cf.fd, mx, ctl)); vec x = {1, 0.25}; std::string cx = mc::fmt("tolerances ", cf.ea, ",", cf.er, " weights ", cf.fx, ",", cf.fd, " dt ", dt0, " t ", t0, " max_dt ", mx, ctl ? " interpolation controlled:" : ":"); s->initialize(x, t0, dt0); int depth = thorough() ? 11 : 7, cur = base; bool fresh = true; double expect_dt = dt0; 
    for (int k = 0; k < depth; k++) {
        int op = mc::deviate(MENU + 5); int pi = op >= 1 && op < MENU ? (base + op) % MENU : base;
        if (op == MENU) { cx += " copy"; S* c = new S(*s); s->initialize(x, 3, 0.01 * sg); s->do_step(menu(4)); s.reset(c); }
        if (op == MENU + 1) { cx += " initialise-here"; mc::ctx(cx); vec y = s->current_state(); s->initialize(y, s->current_time(), s->current_time_step()); fresh = true; continue; }
        if (op == MENU + 2) { sg = -sg; cx += " initialise-back"; if (mx != 0) { s.reset(new S(cf.ea, cf.er, cf.fx, cf.fd, 0, ctl)); mx = 0; s->initialize(x, 0.5, sg * 0.2); } else s->initialize(vec{0.5, -1}, 1, sg * 0.2); fresh = true; continue; }
        if (op == MENU + 3) { cx += " initialise-large"; s->initialize(vec{0, -2}, 0, sg * 5); fresh = true; continue; }
        if (op == MENU + 4) { cx += " assign"; S c(cf.ea, cf.er, cf.fx, cf.fd, mx, ctl); c = *s; s->initialize(x, 3, 0.01 * sg); s->do_step(menu(4)); *s = c; }
        // the derivative at the current state belongs to the problem of the step before: a switch needs an initialise
        if (!fresh && pi != cur) { vec y = s->current_state(); double tt = s->current_time(), dd = s->current_time_step(); s->initialize(y, tt, dd); cx += " initialise"; } fresh = false; cur = pi; Rhs r = menu(pi);
        vec xo = s->current_state(); double to = s->current_time(), td = s->current_time_step(); cx += mc::fmt(" step(", r.p, ",", (double)r.w, ",", td, ")"); mc::ctx(cx); std::pair<double, double> iv = s->do_step(r); mc::transition(); double h = iv.second - iv.first;
        MC_CHECK(iv.first == to && s->current_time() == iv.second && s->previous_time() == to && s->previous_state() == xo, "step-interval" + kk, "step ", iv.first, " to ", iv.second, " from ", to); MC_CHECK(h != 0 && (h > 0) == (td > 0) && std::fabs(h) <= std::fabs(td) * (1 + 1e-9) + 1e-14, "step-size-sign" + kk, "step of ", h, " with dt ", td); if (mx != 0) MC_CHECK(std::fabs(h) <= std::fabs(mx) * (1 + 1e-12) && std::fabs(s->current_time_step()) <= std::fabs(mx), "max-dt" + kk, "step ", h, " next ", s->current_time_step(), " max_dt ", mx);
        double nd = s->current_time_step(); MC_CHECK(nd != 0 && (nd > 0) == (td > 0), "step-size-sign" + kk, "next step ", nd, " after ", td);
        lvec xl(xo.begin(), xo.end()), o(s->current_state().begin(), s->current_state().end()); int col = accepted<double>(kk, cf, r, xl, to, h, o, true); cx += mc::fmt(" ok", col);
        lvec d = r.g(xl, to); if (r.w * std::fabs(h) <= 1 && std::fabs(xl[0]) + std::fabs(xl[1]) < 4) for (int i = 1; i < 8; i++) { double tm = to + h * i / 8; vec m(2); s->calc_state(tm, m); lvec ml(m.begin(), m.end()); LD e = norm(cf, xl, d, h, ml, flow(r, xl, to, tm - to)); LD wm = std::min(weight(cf, xl, d, h, 0), weight(cf, xl, d, h, 1)); worst_mid = std::max(worst_mid, e); MC_CHECK(e <= (ctl ? 30 : 60) + 4e-12L * (1 + std::fabs(xl[0]) + std::fabs(xl[1])+ (r.p==4?100:0)) / wm, "interpolation" + kk, "error of ", (double)e, " tolerances at ", i, "/8 of the step; dt*w ", (double)(r.w * h)); }
        mc::state(mc::mix(mc::mix(mc::hash_double(s->current_state()[0]), mc::hash_double(nd)), k)); mc::outcome(mc::hash_double(s->current_state()[0])); if (std::fabs(iv.second) > 30 || std::fabs(nd) > 20 || std::fabs(s->current_state()[0]) + std::fabs(s->current_state()[1]) > 300) return;
    }
}
void renew_dense() {
    typedef std::vector<double> vec; typedef ode::bulirsch_stoer_dense_out<vec> S; std::string kk = ":bulirsch_stoer_dense_out"; int ci = mc::choose(3); Cfg cf = CFG[ci]; bool ctl = mc::choose(2); double sg = mc::choose(2) ? -1 : 1; int p1 = mc::choose(MENU), p2 = mc::choose(MENU), len = 1 + mc::choose(thorough() ? 8 : 5); double d1 = sg * (mc::choose(2) ? 0.1 : 3), d2 = (mc::choose(2) ? -1 : 1) * (mc::choose(2) ? 0.07 : 2.3); mc::shard_point();
    std::string cx = mc::fmt("tolerance ", cf.ea, " ", len, " steps of problem ", p1, " dt ", d1, ", then initialise ", d2, " problem ", p2); mc::ctx(cx); S s(cf.ea, cf.er, 1, 1, 0, ctl), n(cf.ea, cf.er, 1, 1, 0, ctl); s.initialize(vec{1, 0.5}, 0, d1); for (int i = 0; i < len; i++) s.do_step(menu(p1)); int rs = mc::deviate(2); if (rs) { s.initialize(vec{1, 0.5}, 0, 1); s.reset(); }
    s.initialize(vec{0.5, -1}, 1, d2); n.initialize(vec{0.5, -1}, 1, d2); for (int i = 0; i < 5; i++) { auto a = s.do_step(menu(p2)), b = n.do_step(menu(p2)); vec ma(2), mb(2); s.calc_state(0.3 * a.first + 0.7 * a.second, ma); n.calc_state(0.3 * b.first + 0.7 * b.second, mb); mc::transition(); MC_CHECK(a == b && s.current_state() == n.current_state() && s.current_time_step() == n.current_time_step() && ma == mb, "initialise" + kk, "step ", i + 1, " to ", a.second, " dt ", s.current_time_step(), " x ", s.current_state()[0], "; new stepper: to ", b.second, " dt ", n.current_time_step(), " x ", n.current_state()[0]); mc::outcome(mc::hash_double(ma[0])); } mc::state(std::hash<std::string>()(cx));
}
// ---- complete integrations: reach the end within a bounded number of trials, within the tolerance ----------------------
template <class V, bool DENSE> void solve() {
    typedef std::vector<V> vec; std::string kk = DENSE ? ":bulirsch_stoer_dense_out/solve" : sizeof(V) == 4 ? ":bulirsch_stoer<float>/solve" : ":bulirsch_stoer/solve"; bool fl = sizeof(V) == 4;
    static const double TOL[] = {1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13}; int ti = mc::choose(fl ? 5 : 13); double tol = TOL[ti]; LD sg = mc::choose(2) ? -1 : 1; static const double D0[] = {0.1, 1e-6, 1, 100}; V dt = V(sg * D0[mc::choose(4)]); int pi = mc::choose(MENU); static const double T0[] = {0, -3, 100}; V t = V(T0[mc::choose(fl ? 2 : 3)]), len = V(mc::choose(2) ? 0.37 : 6); int am = mc::choose(3); mc::shard_point(); Rhs r = menu(pi); V t1 = V(t + sg * len);
    Cfg cf = {am == 1 ? 1e-300 : tol, am == 2 ? 0 : tol, 1, 1}; if (am == 1 && (pi == 2 || pi == 3 || pi == 8)) return;   // pure relative tolerance needs components away from zero
    if (am == 1 && tol < 1e-10) return; if (r.p == 2 && sg < 0 && len > 1) return; mc::ctx(mc::fmt("problem ", r.p, ",", (double)r.w, " tolerance ", cf.ea, ",", cf.er, " from ", t, " to ", t1, " dt ", dt)); vec x = {V(1), V(0.25)}; int n = 0; LD bound = 0; LD rw = r.w;
    std::vector<std::pair<LD, lvec>> seen; auto obs = [&](const vec& y, V tt) { lvec z(y.begin(), y.end()); seen.push_back({tt, z}); n++; mc::transition(); MC_CHECK(n < 20000, "steps" + kk, "more than 20000 steps"); };
    size_t steps; try { if (DENSE) steps = ode::integrate_adaptive(ode::bulirsch_stoer_dense_out<vec, V, vec, V>(cf.ea, cf.er, 1, 1, V(0), n % 2), std::ref(r), x, t, t1, dt, obs); else steps = ode::integrate_adaptive(ode::bulirsch_stoer<vec, V, vec, V>(cf.ea, cf.er), std::ref(r), x, t, t1, dt, obs); } catch (std::exception& e) { mc::fail("gives-up" + kk, mc::fmt("integration ended with: ", e.what(), " at t ", (double)(seen.empty() ? 0 : seen.back().first))); return; }
    MC_CHECK(!seen.empty() && std::fabs(seen.back().first - (LD)t1) <= 8 * std::numeric_limits<V>::epsilon() * (1 + std::fabs((LD)t1)), "end" + kk, "ended at ", (double)seen.back().first); LD eps = std::numeric_limits<V>::epsilon(); bound = 0;
    // error: each accepted step within (3) tolerances of the exact flow from the observed state
    for (size_t i = 1; i < seen.size(); i++) { LD h = seen[i].first - seen[i - 1].first; const lvec& a = seen[i - 1].second; if (rw * std::fabs(h) > 1.2L || std::fabs(a[0]) + std::fabs(a[1]) > 8) continue; lvec d = r.g(a, seen[i - 1].first); lvec ex = flow(r, a, seen[i - 1].first, h); LD T = std::fabs(seen[i].first), wm = std::min(weight(cf, a, d, h, 0), weight(cf, a, d, h, 1)); LD e = norm(cf, a, d, h, seen[i].second, ex), sl = 400 * eps * (1 + std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(h * d[0]) + std::fabs(h * d[1])) * (1 + (r.p ? T : 0)) * (1 + rw * std::fabs(h)) / wm + 8 * eps * T * (std::fabs(d[0]) + std::fabs(d[1])) / wm; if (DENSE && i + 1 == seen.size()) sl += 60; MC_CHECK(e <= 40 + sl, "true-error" + kk, "step ", i, " of ", (double)h, " at ", (double)seen[i - 1].first, " has an error of ", (double)e, " tolerances"); }
    // sensible effort: the number of steps is bounded by the length in units of a step that certainly meets the tolerance
    LD hs = 0.02L / std::max((LD)0.5, rw) ; LD most = std::fabs((LD)len) / hs + 60; if (tol >= 100 * eps * (1 + std::fabs((LD)t)) ) MC_CHECK(steps <= most, "effort" + kk, steps, " steps, more than ", (double)most); mc::state(mc::mix(mc::hash_double(x[0]), steps)); mc::outcome(steps);
}
// ---- overflow inside a trial: the error estimate is not a number ----------------------------------------------------
struct Cubic { int p; template <class X, class T> void operator()(const X& x, X& d, T) const { mc::tick(); if (p == 0) d[0] = -x[0] * x[0] * x[0]; else if (p == 1) d[0] = -x[0] * x[0]; else d[0] = -x[0] * x[0] * x[0] * x[0] * x[0]; } };
template <bool DENSE> void overflow() {
    typedef std::vector<double> vec; int p = mc::choose(3); static const double D0[] = {1, 100}; double sg = 1, dt = sg * D0[mc::choose(2)], d0 = dt; mc::shard_point(); mc::ctx(mc::fmt("x' = -x^", p == 0 ? 3 : p == 1 ? 2 : 5, ", x(0)=1, first step size ", dt, ", tolerances 1e-6")); vec x = {1};
    if (DENSE) { ode::bulirsch_stoer_dense_out<vec> s(1e-6, 1e-6); s.initialize(x, 0, dt); s.do_step(Cubic{p}); x = s.current_state(); MC_CHECK(std::isfinite(x[0]), mc::fmt("not-finite-accepted:bulirsch_stoer_dense_out/x^", p == 0 ? 3 : p == 1 ? 2 : 5, "/dt=", d0), "accepted a step to ", x[0]); }
    else { ode::bulirsch_stoer<vec> s(1e-6, 1e-6); double t = 0; for (int i = 0; i < 60; i++) if (s.try_step(Cubic{p}, x, t, dt) == ode::success) break; MC_CHECK(std::isfinite(x[0]), mc::fmt("not-finite-accepted:bulirsch_stoer/x^", p == 0 ? 3 : p == 1 ? 2 : 5, "/dt=", d0), "accepted a step to ", x[0]); }
    mc::transition(); mc::outcome(mc::hash_double(x[0])); mc::state(mc::mix(mc::hash_double(dt), p));
}
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B = {{"trials.double", trials<double>}, {"trials.float", trials<float>}, {"renew", renew<double>}, {"dense", dense}, {"renew_dense", renew_dense}, {"solve.double", solve<double, false>}, {"solve.float", solve<float, false>}, {"solve.dense", solve<double, true>}, {"overflow", overflow<false>}, {"overflow.dense", overflow<true>}};
    int rc = mc::run_main(argc, argv, B); if (getenv("BS_STAT")) fprintf(stderr, "worst true %Lg mid %Lg\n", worst_true, worst_mid); return rc;
}
