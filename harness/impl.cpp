// C15: rosenbrock4 (order, error order, continuous extension, stability; rooted trees with Jacobians and explicit
// time) and implicit_euler (the returned state satisfies the implicit equation).
#include "trees.hpp"
#include <utility>
#include <boost/numeric/odeint/util/state_wrapper.hpp>
#include <boost/numeric/odeint/util/resizer.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
namespace ode = boost::numeric::odeint; namespace ub = boost::numeric::ublas;
static bool thorough() { return mc::E().tier == "thorough"; }
template <class V> struct TSys { const trees::Tree* T; const std::vector<V>* off; V t0; typedef ub::vector<V> X; typedef ub::matrix<V> M;
    void operator()(const X& x, X& d, V t) const { mc::tick(); T->rhs(x, d, t - t0, *off); } };
template <class V> struct TJac { const trees::Tree* T; const std::vector<V>* off; V t0; typedef ub::vector<V> X; typedef ub::matrix<V> M;
    void operator()(const X& x, M& J, V t, X& f) const { size_t n = T->n(); for (size_t i = 0; i < n; i++) f[i] = 0; (*this)(x, J, t);
        for (size_t i = 1; i < n; i++) { size_t r = T->par[i]; if (T->time[r] || !T->time[i]) continue; f[r] += prod(x, t, i); } }
    void operator()(const X& x, M& J, V t) const { size_t n = T->n(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) J(i, j) = 0; for (size_t i = 1; i < n; i++) { size_t r = T->par[i]; if (T->time[r] || T->time[i]) continue; J(r, i) += prod(x, t, i); } }
    V prod(const X& x, V t, size_t i) const { V v = 1; for (size_t j = 1; j < T->n(); j++) if (T->par[j] == T->par[i] && j != i) v *= T->time[j] ? t - t0 : x[j] - (*off)[j]; return v; } };
static const double H[] = {1.0, -1.0, 0.5, -2.0}, T0[] = {0.0, 0.25, -3.0};
template <class V> void trees_body(const char* nm) {
    typedef ub::vector<V> X; V h = V(H[mc::choose(4)]), t0 = V(T0[mc::choose(3)]); int o = mc::choose(2), variant = mc::choose(6); mc::shard_point();
    trees::Tree T = trees::choose(1, 4, true); std::vector<V> off(T.n()); for (size_t i = 0; i < T.n(); i++) off[i] = o ? V(1.5) - V(0.25) * V(double(i)) : V(0); mc::ctx(mc::fmt(nm, " ", T.name(), " h ", double(h), " t0 ", double(t0), " offset ", o, " variant ", variant));
    typedef ode::rosenbrock4<V> S; S s; MC_CHECK(int(s.order()) == 4 && int(S::stepper_order) == 4 && int(S::error_order) == 3, mc::fmt("advertised-order:", nm), "order ", s.order()); TSys<V> f = {&T, &off, t0}; TJac<V> j = {&T, &off, t0}; auto sys = std::make_pair(f, j);
    X x(T.n()), x0, e(T.n()), out(T.n()); for (size_t i = 0; i < T.n(); i++) { x[i] = off[i]; e[i] = V(5); out[i] = V(9); } x0 = x; bool err = false;
    switch (variant) { case 0: s.do_step(sys, x, t0, h); break; case 1: s.do_step(sys, x, t0, out, h); x = out; break; case 2: s.do_step(sys, x, t0, h, e); err = true; break; case 3: s.do_step(sys, x, t0, out, h, e); x = out; err = true; break; case 4: s.do_step(std::ref(sys), x, t0, out, h, e); x = out; err = true; break; case 5: s.do_step(std::make_pair(std::ref(f), std::ref(j)), x, t0, h, e); err = true; break; }
    mc::transition(); double eps = std::max(double(std::numeric_limits<V>::epsilon()), 2.3e-16), tol = 1000 * eps * (2 + std::pow(std::fabs(double(h)), double(T.n())));
    for (size_t i = 0; i < T.n(); i++) { if (T.time[i]) continue; V ex = off[i] + V(std::pow(double(h), T.size[i]) / T.gamma(i)); MC_CHECK(std::fabs(double(x[i] - ex)) <= tol, mc::fmt("order:", nm), "component ", i, " is ", double(x[i]), ", exact ", double(ex)); if (err && T.size[i] <= 3) MC_CHECK(std::fabs(double(e[i])) <= tol, mc::fmt("error-order:", nm), "estimate of component ", i, " is ", double(e[i]), " for a solution of degree ", T.size[i]); mc::outcome(mc::hash_double(double(x[i]))); }
    X xn(x), y(T.n()); s.prepare_dense_output(); for (double th : {0.0, 0.125, 0.5, 0.75, 1.0}) { s.calc_state(t0 + V(th) * h, y, x0, t0, xn, t0 + h); for (size_t i = 0; i < T.n(); i++) { if (T.time[i]) continue; if (th == 0 || th == 1) MC_CHECK(std::fabs(double(y[i] - (th == 0 ? x0[i] : xn[i]))) <= tol, mc::fmt("dense-ends:", nm), "component ", i, " at theta ", th, " is ", double(y[i])); else if (T.size[i] <= 3) MC_CHECK(std::fabs(double(y[i]) - double(off[i]) - std::pow(th * double(h), T.size[i]) / T.gamma(i)) <= tol, mc::fmt("dense-order:", nm), "component ", i, " at theta ", th, " is ", double(y[i]), ", exact ", double(off[i]) + std::pow(th * double(h), T.size[i]) / T.gamma(i)); } }
    mc::state(std::hash<std::string>()(mc::E().ctx));
}
template <class V> void sharp(const char* nm) {   // the estimate does not vanish for every tree with 4 nodes, the method is not of order 5
    mc::ctx(nm); double we = 0, wx = 0; for (int n = 4; n <= 5; n++) for (auto& q : trees::of(n)) { trees::Tree T(q); std::vector<V> off(n, V(0)); ub::vector<V> x(n), e(n); for (int i = 0; i < n; i++) x[i] = 0; ode::rosenbrock4<V> s; TSys<V> f = {&T, &off, V(0)}; TJac<V> j = {&T, &off, V(0)}; s.do_step(std::make_pair(f, j), x, V(0), V(1), e); mc::transition(); if (n == 4) we = std::max(we, std::fabs(double(e[0]))); else wx = std::max(wx, std::fabs(double(x[0]) - 1 / T.gamma(0))); }
    MC_CHECK(we > 1e-6, "estimate-vanishes:rosenbrock4", we); MC_CHECK(wx > 1e-6, "order-table:rosenbrock4", wx);
}
// reference step in long double: k-form of the published method, own linear solver with full row pivoting
typedef long double ld; typedef std::vector<ld> lv; typedef std::vector<lv> lm;
static lv solve(lm A, lv b) { int n = b.size(); for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (std::fabs(A[r][c]) > std::fabs(A[p][c])) p = r; std::swap(A[c], A[p]); std::swap(b[c], b[p]); for (int r = c + 1; r < n; r++) { ld m = A[r][c] / A[c][c]; for (int k = c; k < n; k++) A[r][k] -= m * A[c][k]; b[r] -= m * b[c]; } } for (int c = n - 1; c >= 0; c--) { for (int k = c + 1; k < n; k++) b[c] -= A[c][k] * b[k]; b[c] /= A[c][c]; } return b; }
struct Model { int n, k; double a[9]; 
    template <class X, class T> void f(const X& x, X& d, T t) const { for (int i = 0; i < n; i++) { d[i] = 0; for (int j = 0; j < n; j++) d[i] += T(a[i * n + j]) * x[j]; } if (k >= 1) d[0] += T(0.5) * t * t - x[n - 1] * x[0] * T(0.3); if (k == 2) d[n - 1] += std::sin(t) * x[0] * x[0]; }
    template <class X, class M, class T> void jac(const X& x, M J, T t, X& ft) const { for (int i = 0; i < n; i++) { ft[i] = 0; for (int j = 0; j < n; j++) J(i, j) = a[i * n + j]; } if (k >= 1) { ft[0] += t; J(0, 0) += -x[n - 1] * T(0.3); J(0, n - 1) += -x[0] * T(0.3); } if (k == 2) { ft[n - 1] += std::cos(t) * x[0] * x[0]; J(n - 1, 0) += 2 * std::sin(t) * x[0]; } } };
static void ref_step(const Model& m, lv x, ld t, ld h, lv& out, lv& err) {
    static const ld g = 0.25L, al[] = {0, 0.386L, 0.21L, 0.63L, 1, 1}, ga[] = {0.25L, -0.1043L, 0.1035L, -0.0362L, 0, 0};
    static const ld A[6][5] = {{0}, {1.544L}, {0.9466785280815826L, 0.2557011698983284L}, {3.314825187068521L, 2.896124015972201L, 0.9986419139977817L}, {1.221224509226641L, 6.019134481288629L, 12.53708332932087L, -0.6878860361058950L}, {1.221224509226641L, 6.019134481288629L, 12.53708332932087L, -0.6878860361058950L, 1}};
    static const ld C[6][5] = {{0}, {-5.6688L}, {-2.430093356833875L, -0.2063599157091915L}, {-0.1073529058151375L, -9.594562251023355L, -20.47028614809616L}, {7.496443313967647L, -10.24680431464352L, -33.99990352819905L, 11.70890893206160L}, {8.083246795921522L, -7.981132988064893L, -31.52159432874371L, 16.31930543123136L, -6.058818238834054L}};
    int n = m.n; lm J(n, lv(n)); lv ft(n); m.jac(x, [&](int i, int j) -> ld& { return J[i][j]; }, t, ft); lm E(n, lv(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) E[i][j] = (i == j ? 1 / (g * h) : 0) - J[i][j];
    std::vector<lv> u; for (int s = 0; s < 6; s++) { lv y(x), d(n); for (int q = 0; q < s; q++) for (int i = 0; i < n; i++) y[i] += A[s][q] * u[q][i]; m.f(y, d, t + al[s] * h); for (int i = 0; i < n; i++) { d[i] += h * ga[s] * ft[i]; for (int q = 0; q < s; q++) d[i] += C[s][q] / h * u[q][i]; } u.push_back(solve(E, d)); if (s == 5) { out = y; for (int i = 0; i < n; i++) out[i] += u[5][i]; err = u[5]; } }
}
typedef ub::vector<double> uv; typedef ub::matrix<double> um;
struct MF { const Model* m; void operator()(const uv& x, uv& d, double t) const { mc::tick(); m->f(x, d, t); } };
struct MJ { const Model* m; void operator()(const uv& x, um& J, double t, uv& ft) const { m->jac(x, [&](int i, int j) -> double& { return J(i, j); }, t, ft); } void operator()(const uv& x, um& J, double t) const { uv ft(x.size()); (*this)(x, J, t, ft); } };
static const double ENT[] = {-2.0, 0.0, 3.0, -1000.0};
static Model choose_model() { Model m; m.n = 1 + mc::choose(3); m.k = mc::choose(3); for (int i = 0; i < 9; i++) m.a[i] = 0; if (m.n == 3) { static const double P[][9] = {{0, 2, 0, 0, 0, 3, -1, 0, 0}, {-1000, 1, 0, 1, -1, 5, 0, 2, -3}, {0, 0, -4, 0, -2, 0, 4, 0, 0}, {1, 2, 3, 4, 5, 6, 7, 8, 10}}; int q = mc::choose(4); for (int i = 0; i < 9; i++) m.a[i] = P[q][i]; } else for (int i = 0; i < m.n * m.n; i++) m.a[i] = ENT[mc::choose(4)]; return m; }
static void reference() {
    Model m = choose_model(); mc::shard_point(); static const double hs[] = {0.1, -0.05, 0.9}; double h = hs[mc::choose(3)], t = mc::choose(2) ? -2.5 : 0.75; std::string cx = mc::fmt("rosenbrock4 n ", m.n, " kind ", m.k, " h ", h, " t ", t, " matrix"); for (int i = 0; i < m.n * m.n; i++) cx += mc::fmt(" ", m.a[i]); mc::ctx(cx);
    if (h < 0 && *std::min_element(m.a, m.a + 9) < -100) return; ode::rosenbrock4<double> s; uv x(m.n), e(m.n); for (int i = 0; i < m.n; i++) x[i] = 0.5 + 0.25 * i;
    for (int k = 0; k < 2; k++) { lv r(m.n), o, er; for (int i = 0; i < m.n; i++) r[i] = x[i]; ref_step(m, r, t, h, o, er); MF f = {&m}; MJ j = {&m}; s.do_step(std::make_pair(f, j), x, t, h, e); mc::transition(); t += h; double sc = 1; for (int i = 0; i < m.n; i++) { sc = std::max(sc, std::max(std::fabs((double)o[i]), std::fabs((double)er[i]))); }
        bool sane = std::isfinite(sc) && sc < 1e6; if (!sane) return;   // ill-conditioned choice of matrix and step
        for (int i = 0; i < m.n; i++) { MC_CHECK(std::fabs(x[i] - (double)o[i]) <= 1e-8 * sc, "published-method:rosenbrock4", "step ", k + 1, " component ", i, " is ", x[i], ", the published method gives ", (double)o[i]); MC_CHECK(std::fabs(e[i] - (double)er[i]) <= 1e-8 * sc, "published-estimate:rosenbrock4", "component ", i, " is ", e[i], ", the published method gives ", (double)er[i]); }
        mc::outcome(mc::hash_double(x[0])); mc::state(mc::mix(mc::hash_double(x[0]), std::hash<std::string>()(cx))); }
}
static void stability() {   // A- and L-stability: x' = lambda x, lambda in the left half plane (as a 2x2 real system)
    static const double mag[] = {0.01, 0.5, 1, 3, 10, 100, 1e4, 1e7}; double r = mag[mc::choose(8)]; int ang = mc::choose(9); double ph = M_PI / 2 + ang * M_PI / 16; double a = r * std::cos(ph), b = r * std::sin(ph); mc::ctx(mc::fmt("rosenbrock4 lambda h = ", a, " + ", b, " i")); Model m; m.n = 2; m.k = 0; m.a[0] = a; m.a[1] = -b; m.a[2] = b; m.a[3] = a; ode::rosenbrock4<double> s; uv x(2); x[0] = 1; x[1] = 0; MF f = {&m}; MJ j = {&m}; s.do_step(std::make_pair(f, j), x, 0.0, 1.0); mc::transition(); double R = std::hypot(x[0], x[1]);
    MC_CHECK(R <= 1 + 1e-6, "stability:rosenbrock4", "amplification ", R); if (r >= 1e4) MC_CHECK(R < 1e-2, "damping:rosenbrock4", "amplification ", R); if (r <= 0.5) MC_CHECK(std::hypot(x[0] - std::exp(a) * std::cos(b), x[1] - std::exp(a) * std::sin(b)) < 2e-3 * r, "accuracy:rosenbrock4", "got (", x[0], ",", x[1], ")"); mc::outcome(mc::hash_double(R)); mc::state(mc::hash_double(x[0]));
}
template <class V> struct Quiet {};
static void implicit() {
    Model m = choose_model(); mc::shard_point(); static const double hs[] = {0.1, -0.05, 0.3, 0.02}; static const double epss[] = {1e-6, 1e-12, 1e-3}; double h = hs[mc::choose(4)], eps = epss[mc::choose(3)], t = mc::choose(2) ? -2.5 : 0.75; int byref = mc::choose(2); std::string cx = mc::fmt("implicit_euler n ", m.n, " kind ", m.k, " h ", h, " t ", t, " eps ", eps, " matrix"); for (int i = 0; i < m.n * m.n; i++) cx += mc::fmt(" ", m.a[i]); mc::ctx(cx);
    ode::implicit_euler<double> s(eps); uv x(m.n); for (int i = 0; i < m.n; i++) x[i] = 0.5 + 0.25 * i;
    for (int k = 0; k < 3; k++) { double tn = t + h; lm J(m.n, lv(m.n)); lv ft(m.n), xx(m.n); for (int i = 0; i < m.n; i++) xx[i] = x[i]; m.jac(xx, [&](int i, int j) -> ld& { return J[i][j]; }, (ld)tn, ft); lm E(m.n, lv(m.n)); double nrm = 0; for (int i = 0; i < m.n; i++) { double row = 0; for (int j = 0; j < m.n; j++) { E[i][j] = (i == j) - h * J[i][j]; row += std::fabs((double)E[i][j]); } nrm = std::max(nrm, row); }
        // Newton's iteration must contract (precondition): simulate it
        lv z(xx); ld last = 1e9; bool conv = false; double far = 1; for (int it = 0; it < 200; it++) { lv d(m.n), b(m.n); m.f(z, d, (ld)tn); for (int i = 0; i < m.n; i++) b[i] = xx[i] + h * d[i] - z[i]; b = solve(E, b); ld n2 = 0; for (int i = 0; i < m.n; i++) { z[i] += b[i]; n2 += b[i] * b[i]; far = std::max(far, std::fabs((double)z[i])); } n2 = std::sqrt(n2); if (!std::isfinite((double)n2) || n2 > 1e6) break; if (n2 < 1e-14L * far) { conv = true; break; } if (it > 2 && n2 > 0.7L * last) break; last = n2; }
        if (!conv || far > 1e4 || (eps < 1e-10 && far > 50)) { mc::count("outside the precondition"); return; }
        MF f = {&m}; MJ j = {&m}; auto sys = std::make_pair(f, j); uv x0(x); if (byref) s.do_step(std::ref(sys), x, t, h); else s.do_step(sys, x, t, h); mc::transition(); t += h; uv d(m.n); m.f(x, d, t); for (int i = 0; i < m.n; i++) { double res = x[i] - x0[i] - h * d[i]; MC_CHECK(std::fabs(res) <= (2 * eps + 1e-13 * far) * nrm, "implicit-equation:implicit_euler", "step ", k + 1, ": residual of component ", i, " is ", res); }
        mc::outcome(mc::hash_double(x[0])); mc::state(mc::mix(mc::hash_double(x[0]), std::hash<std::string>()(cx))); }
}
// order one with explicit time: x' = p(t), and stays at fixed points
static void implicit_trees() { double h = H[mc::choose(4)], t0 = T0[mc::choose(3)]; trees::Tree T = trees::choose(1, 3, true); int o = mc::choose(2); std::vector<double> off(T.n()); for (size_t i = 0; i < T.n(); i++) off[i] = o ? 1.5 - 0.25 * i : 0; mc::ctx(mc::fmt("implicit_euler ", T.name(), " h ", h, " t0 ", t0)); TSys<double> f = {&T, &off, t0}; TJac<double> j = {&T, &off, t0}; ode::implicit_euler<double> s(1e-12); uv x(T.n()); for (size_t i = 0; i < T.n(); i++) x[i] = off[i]; s.do_step(std::make_pair(f, j), x, t0, h); mc::transition();
    uv d(T.n()); f(x, d, t0 + h); for (size_t i = 0; i < T.n(); i++) { if (T.time[i]) continue; MC_CHECK(std::fabs(x[i] - off[i] - h * d[i]) < 1e-10, "implicit-equation:implicit_euler", "residual ", x[i] - off[i] - h * d[i]); if (T.size[i] == 1) MC_CHECK(std::fabs(x[i] - off[i] - h) < 1e-10, "order:implicit_euler", "got ", x[i]); mc::outcome(mc::hash_double(x[i])); } mc::state(std::hash<std::string>()(mc::E().ctx)); }
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B; B.push_back({"trees.double", [] { trees_body<double>("rosenbrock4"); }}); B.push_back({"trees.float", [] { trees_body<float>("rosenbrock4"); }}); B.push_back({"trees.longdouble", [] { trees_body<long double>("rosenbrock4"); }}); B.push_back({"sharp", [] { sharp<double>("rosenbrock4"); }}); B.push_back({"reference", reference}); B.push_back({"stability", stability}); B.push_back({"implicit", implicit}); B.push_back({"implicit_trees", implicit_trees});
    return mc::run_main(argc, argv, B);
}
