// C14: symplectic steppers: preservation of the symplectic form (automatic differentiation through the real
// stepper) and order conditions (two-coloured rooted trees).
#include "trees.hpp"
#include <complex>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
namespace ode = boost::numeric::odeint;
static bool thorough() { return mc::E().tier == "thorough"; }
// dual numbers with 4 directions
struct Dual { double v, d[4]; Dual(double x = 0) : v(x), d{0, 0, 0, 0} {} };
inline Dual operator+(Dual a, const Dual& b) { a.v += b.v; for (int i = 0; i < 4; i++) a.d[i] += b.d[i]; return a; }
inline Dual operator-(Dual a, const Dual& b) { a.v -= b.v; for (int i = 0; i < 4; i++) a.d[i] -= b.d[i]; return a; }
inline Dual operator*(const Dual& a, const Dual& b) { Dual r(a.v * b.v); for (int i = 0; i < 4; i++) r.d[i] = a.v * b.d[i] + a.d[i] * b.v; return r; }
inline Dual dsin(const Dual& a) { Dual r(std::sin(a.v)); for (int i = 0; i < 4; i++) r.d[i] = std::cos(a.v) * a.d[i]; return r; }
typedef std::vector<Dual> dvec;
// separable Hamiltonians with two degrees of freedom: dV/dq and dT/dp
struct Force { int k; void operator()(const dvec& q, dvec& f) const { mc::tick(); mc::transition();
    if (k == 0) { f[0] = q[0] * Dual(-1.3) + q[1] * Dual(0.4); f[1] = q[0] * Dual(0.4) + q[1] * Dual(-0.7); }
    else if (k == 1) { f[0] = Dual(0) - q[0] - Dual(2) * q[0] * q[1]; f[1] = Dual(0) - q[1] - q[0] * q[0] + q[1] * q[1]; }   // Henon-Heiles
    else { Dual s = dsin(q[0] - q[1]); f[0] = Dual(0) - s - dsin(q[0]); f[1] = s; } } };
struct Veloc { int k; void operator()(const dvec& p, dvec& v) const {
    if (k == 0) { v[0] = p[0]; v[1] = p[1]; } else if (k == 1) { v[0] = p[0] * Dual(0.5) + p[1] * Dual(0.25); v[1] = p[0] * Dual(0.25) + p[1]; } else { v[0] = p[0] + p[0] * p[0] * p[1]; v[1] = p[1] + Dual(1.0 / 3) * p[0] * p[0] * p[0]; } } };
struct Acc { Force f; void operator()(const dvec& q, const dvec&, dvec& a, double) const { f(q, a); } };
template <class Q> struct SE { typedef ode::symplectic_euler<Q, Q, double> S; };
template <class S> void call(S& s, int variant, Force f, Veloc g, dvec& q, dvec& p, double t, double dt) {
    std::pair<dvec, dvec> x(q, p), out(dvec(2, Dual(9)), dvec(2, Dual(9)));
    switch (variant) {
        case 0: s.do_step(std::make_pair(g, f), x, t, dt); q = x.first; p = x.second; break;
        case 1: s.do_step(std::make_pair(g, f), x, t, out, dt); q = out.first; p = out.second; break;
        case 2: s.do_step(std::make_pair(g, f), q, p, t, dt); break;
        case 3: s.do_step(std::make_pair(std::ref(g), std::ref(f)), std::make_pair(std::ref(q), std::ref(p)), t, dt); break;
        case 4: s.do_step(f, x, t, dt); q = x.first; p = x.second; break;            // momentum-only shortcut
        case 5: s.do_step(f, x, t, out, dt); q = out.first; p = out.second; break;
        case 6: s.do_step(f, q, p, t, dt); break;
        case 7: s.do_step(std::ref(f), std::make_pair(std::ref(q), std::ref(p)), t, dt); break;
        case 8: { auto in = std::make_pair(std::ref(q), std::ref(p)); s.do_step(std::make_pair(g, f), in, t, out, dt); q = out.first; p = out.second; break; }
        case 9: { auto o = std::make_pair(std::ref(out.first), std::ref(out.second)); s.do_step(std::make_pair(g, f), x, t, o, dt); q = out.first; p = out.second; break; }
    }
}
template <class C> void call(ode::velocity_verlet<dvec, dvec, double, C>& s, int variant, Force f, Veloc, dvec& q, dvec& p, double t, double dt) {
    std::pair<dvec, dvec> x(q, p); Acc a = {f};
    switch (variant % 4) {
        case 0: s.do_step(a, x, t, dt); q = x.first; p = x.second; break;
        case 1: { dvec ai(2), ao(2, Dual(5)), qo(2, Dual(6)), po(2, Dual(7)); a(q, p, ai, t); s.do_step(a, q, p, ai, qo, po, ao, t, dt); q = qo; p = po; break; }
        case 2: s.do_step(std::ref(a), x, t, dt); q = x.first; p = x.second; break;
        case 3: s.do_step(a, std::make_pair(std::ref(q), std::ref(p)), t, dt); break;
    }
}
template <class S> void form(const char* nm, int variants) {
    int fk = mc::choose(3), gk = mc::choose(3); static const double H[] = {0.1, -0.1, 0.7, -1.5}; double dt = H[mc::choose(4)]; int variant = mc::choose(variants); mc::shard_point(); if (((variant >= 4 && variant < 8) || variants == 4) && gk != 0) return;
    static const double Q0[][4] = {{0.3, -0.2, 0.5, 0.1}, {-0.4, 0.45, 0, 0.7}}; int ic = mc::choose(2), cont = mc::choose(2); S kept; dvec q(2), p(2); Force f = {fk}; Veloc g = {gk}; double t = mc::choose(2) ? -2.5 : 0; std::string cx = mc::fmt(nm, " force ", fk, " velocity ", gk, " dt ", dt, " variant ", variant, " start ", ic); mc::ctx(cx);
    for (int i = 0; i < 2; i++) { q[i] = Dual(Q0[ic][i]); q[i].d[i] = 1; p[i] = Dual(Q0[ic][2 + i]); p[i].d[2 + i] = 1; }
    for (int step = 0; step < (thorough() ? 6 : 3); step++) {
        dvec q0(q), p0(p); if (!cont || step == 0) for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { q[i].d[j] = j == i; p[i].d[j] = j == 2 + i; }
        S fresh; S& s = cont ? kept : fresh;   // continuing: the form of the composed map
        double h = step % 2 ? dt * 0.5 : dt; call(s, variant, f, g, q, p, t, h); t += h;
        double M[4][4], big = 1; for (int j = 0; j < 4; j++) { M[0][j] = q[0].d[j]; M[1][j] = q[1].d[j]; M[2][j] = p[0].d[j]; M[3][j] = p[1].d[j]; } for (auto& r : M) for (double e : r) big = std::max(big, std::fabs(e));
        for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { double w = 0; for (int k = 0; k < 2; k++) w += M[k][a] * M[2 + k][b] - M[2 + k][a] * M[k][b]; double J = (b == a + 2) - (a == b + 2);
            MC_CHECK(std::fabs(w - J) <= 4e-12 * big * big, mc::fmt("symplectic-form:", nm), "after step ", step + 1, " the form (", a, ",", b, ") is ", w, " instead of ", J); }
        mc::outcome(mc::hash_double(q[0].v)); mc::state(mc::mix(mc::hash_double(q[0].v), mc::hash_double(p[1].v)));
    }
}
// ---- order -----------------------------------------------------------------------------------------
// node colours alternate with the depth; slot of a q-node's only child in the Nystroem case is the node's own
template <class V> struct Bi {
    trees::Tree T; std::vector<int> col, slot; bool ny; V t0; std::vector<V> off; bool ok = true;
    Bi(const trees::Tree& t, int rootcol, bool nystroem, int o) : T(t), col(t.n()), slot(t.n()), ny(nystroem), t0(V(0)), off(t.n() * 2, V(0)) {
        std::vector<int> kids(T.n(), 0); for (size_t i = 0; i < T.n(); i++) { col[i] = i == 0 ? rootcol : 1 - col[T.par[i]]; if (i) kids[T.par[i]]++; slot[i] = i; }
        if (ny) for (size_t i = 0; i < T.n(); i++) { if (col[i] == 0 && kids[i] > 1) ok = false; if (i && col[i] == 1) slot[i] = slot[T.par[i]]; if (T.time[i] && col[i] == 1) ok = false; }
        if (o) for (size_t i = 0; i < off.size(); i++) off[i] = V(1.5) - V(0.25) * V(double(i));
        if (ny) for (size_t i = 0; i < T.n(); i++) if (col[i] == 1) off[T.n() + slot[i]] = V(0);   // q' = p itself
    }
    size_t n() const { return T.n(); }
    // derivative of the nodes of one colour, from the values of the other
    void rhs(int c, const std::vector<V>& y, std::vector<V>& d, V tau) const { for (size_t i = 0; i < n(); i++) d[i] = V(0); for (size_t i = 0; i < n(); i++) if (col[i] == c && !T.time[i]) d[slot[i]] = V(1); for (size_t i = 1; i < n(); i++) { size_t r = T.par[i]; if (col[r] == c && !T.time[r]) d[slot[r]] *= T.time[i] ? tau : y[slot[i]] - off[(col[i] ? n() : 0) + slot[i]]; } }
    void start(std::vector<V>& q, std::vector<V>& p) const { q.assign(n(), V(0)); p.assign(n(), V(0)); for (size_t i = 0; i < n(); i++) { q[i] = off[i]; p[i] = off[n() + i]; }
        if (ny) { for (size_t i = 0; i < n(); i++) { bool has = false; for (size_t j = 1; j < n(); j++) if (size_t(T.par[j]) == i) has = true; bool isroot_p = false; for (size_t j = 0; j < n(); j++) if (col[j] == 1 && size_t(slot[j]) == i) isroot_p = true; if (col[i] == 0 && !has) p[i] = V(1); else if (!isroot_p) p[i] = V(0); } } }
    V exact(size_t i, V h) const { V e = V(1); for (int k = 0; k < int(T.size[i]); k++) e *= h; return off[(col[i] ? n() : 0) + slot[i]] + e / V(T.gamma(i)); }
};
template <class V> struct QF { const Bi<V>* b; void operator()(const std::vector<V>& p, std::vector<V>& d) const { mc::tick(); b->rhs(0, p, d, V(0)); } };
template <class V> struct PF { const Bi<V>* b; void operator()(const std::vector<V>& q, std::vector<V>& d) const { mc::tick(); b->rhs(1, q, d, V(0)); } };
template <class V> struct AF { const Bi<V>* b; void operator()(const std::vector<V>& q, const std::vector<V>&, std::vector<V>& d, V t) const { mc::tick(); b->rhs(1, q, d, t - b->t0); } };
template <class V, class S> void order(const char* nm, int adv, int test_order, bool nystroem_only) {
    static const double H[] = {1.0, -1.0, 0.5, -2.0}; typedef std::vector<V> X; V h = V(H[mc::choose(4)]); int o = mc::choose(2), rc = mc::choose(2), variant = mc::choose(nystroem_only ? 3 : 5); mc::shard_point(); S s;
    MC_CHECK(int(s.order()) == adv, mc::fmt("advertised-order:", nm), "order() is ", s.order()); bool shortcut = variant >= 3; if (nystroem_only) shortcut = variant < 2;
    trees::Tree T = trees::choose(1, test_order, false); Bi<V> b(T, rc, shortcut || nystroem_only, o); if (!b.ok) return; mc::ctx(mc::fmt(nm, " ", T.name(), " root ", rc ? "p" : "q", " h ", double(h), " offset ", o, " variant ", variant));
    X q, p; b.start(q, p); std::pair<X, X> x(q, p), out(q, p); QF<V> qf = {&b}; PF<V> pf = {&b}; V t = V(0.25);
    struct IdQ { void operator()(const X& p, X& d) const { d = p; } };
    if (nystroem_only) { if (variant == 0) s.do_step(pf, x, t, h); else if (variant == 1) { s.do_step(pf, x, t, out, h); x = out; } else s.do_step(std::make_pair(IdQ(), pf), x, t, h); }
    else switch (variant) { case 0: s.do_step(std::make_pair(qf, pf), x, t, h); break; case 1: s.do_step(std::make_pair(qf, pf), x, t, out, h); x = out; break; case 2: s.do_step(std::make_pair(qf, pf), x.first, x.second, t, h); break; case 3: s.do_step(pf, x, t, h); break; case 4: s.do_step(pf, x, t, out, h); x = out; break; }
    mc::transition(); for (size_t i = 0; i < b.n(); i++) { V got = b.col[i] ? x.second[b.slot[i]] : x.first[b.slot[i]], ex = b.exact(i, h); double e = std::fabs(double(got - ex)); MC_CHECK(e <= 400 * double(std::numeric_limits<V>::epsilon()) * (2 + std::pow(std::fabs(double(h)), double(b.n()))), mc::fmt("order:", nm), "node ", i, " is ", double(got), ", exact ", double(ex)); mc::outcome(mc::hash_double(double(got))); }
    mc::state(std::hash<std::string>()(mc::E().ctx));
}
// velocity verlet: second order, explicit time allowed
template <class V> void verlet_order(const char* nm) {
    typedef std::vector<V> X; typedef ode::velocity_verlet<X, X, V, X, V, V> S; static const double H[] = {1.0, -1.0, 0.5, -2.0}; V h = V(H[mc::choose(4)]); int o = mc::choose(2), rc = mc::choose(2), variant = mc::choose(3); mc::shard_point(); S s;
    trees::Tree T = trees::choose(1, 2, true); Bi<V> b(T, rc, true, o); for (size_t i = 0; i < T.n(); i++) if (T.time[i] && b.col[T.par[i]] != 1) return; b.ok = true; b.t0 = V(0.25); mc::ctx(mc::fmt(nm, " ", T.name(), " root ", rc ? "p" : "q", " h ", double(h), " offset ", o, " variant ", variant));
    X q, p; b.start(q, p); std::pair<X, X> x(q, p); AF<V> a = {&b}; if (variant == 1) s.initialize(a, q, p, b.t0);
    if (variant < 2) s.do_step(a, x, b.t0, h); else { X ai(q.size()), ao(ai), qo(q), po(p); a(q, p, ai, b.t0); s.do_step(a, q, p, ai, qo, po, ao, b.t0, h); x.first = qo; x.second = po; X e(ai); a(qo, po, e, b.t0 + h); for (size_t i = 0; i < e.size(); i++) MC_CHECK(e[i] == ao[i], mc::fmt("acceleration:", nm), "returned acceleration is ", double(ao[i]), ", that of the new state ", double(e[i])); }
    mc::transition(); for (size_t i = 0; i < b.n(); i++) { if (b.T.time[i]) continue; V got = b.col[i] ? x.second[b.slot[i]] : x.first[b.slot[i]], ex = b.exact(i, h); MC_CHECK(std::fabs(double(got - ex)) <= 400 * double(std::numeric_limits<V>::epsilon()) * 8, mc::fmt("order:", nm), "node ", i, " is ", double(got), ", exact ", double(ex)); mc::outcome(mc::hash_double(double(got))); }
    mc::state(std::hash<std::string>()(mc::E().ctx));
}
// the order over many steps of changing size: the stepper keeps no state between steps (Kepler-like check by composition with the exact harmonic flow)
template <class S> void composed(const char* nm, int order_) {
    typedef std::vector<double> X; double sg = mc::choose(2) ? -1 : 1; int n = 1 + mc::choose(4); mc::ctx(mc::fmt(nm, " harmonic oscillator, ", n, " steps, sign ", sg)); struct F { void operator()(const X& q, X& d) const { d[0] = -q[0]; } };
    double e[2]; for (int r = 0; r < 2; r++) { S s; double h = sg * 0.2 / (r ? 2 : 1); std::pair<X, X> x(X(1, 1.0), X(1, 0.5)); double t = 0; for (int k = 0; k < n * (r ? 2 : 1); k++) { s.do_step(F(), x, t, h); t += h; mc::transition(); } e[r] = std::hypot(x.first[0] - (std::cos(t) + 0.5 * std::sin(t)), x.second[0] - (0.5 * std::cos(t) - std::sin(t))); }
    MC_CHECK(e[0] / e[1] > std::pow(2.0, order_ - 0.5) || e[0] < 1e-13, mc::fmt("convergence:", nm), "halving the step reduces the error from ", e[0], " to ", e[1]); mc::outcome(mc::hash_double(e[0])); mc::state(mc::hash_double(e[1]));
}
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, mc::Body>> B; typedef std::vector<double> X; typedef std::vector<long double> L; typedef std::vector<float> F;
#define ALL(nm, T, adv, ord, ny) B.push_back({"form." nm, [] { form<ode::T<dvec, dvec, double>>(nm, 10); }}); \
    B.push_back({"order." nm, [] { order<double, ode::T<X, X, double>>(nm, adv, ord, false); }}); B.push_back({"order_nystroem." nm, [] { order<double, ode::T<X, X, double>>(nm, adv, adv, true); }}); B.push_back({"order_ld." nm, [] { order<long double, ode::T<L, L, long double>>(nm, adv, ord, false); }}); B.push_back({"order_float." nm, [] { order<float, ode::T<F, F, float>>(nm, adv, ord, false); }}); B.push_back({"composed." nm, [] { composed<ode::T<X, X, double>>(nm, adv); }});
    ALL("symplectic_euler", symplectic_euler, 1, 1, false) ALL("symplectic_rkn_sb3a_mclachlan", symplectic_rkn_sb3a_mclachlan, 4, 4, false) ALL("symplectic_rkn_sb3a_m4_mclachlan", symplectic_rkn_sb3a_m4_mclachlan, 4, 4, false)
    B.push_back({"form.velocity_verlet", [] { form<ode::velocity_verlet<dvec, dvec, double, dvec>>("velocity_verlet", 4); }}); B.push_back({"order.velocity_verlet", [] { verlet_order<double>("velocity_verlet"); }}); B.push_back({"order_ld.velocity_verlet", [] { verlet_order<long double>("velocity_verlet"); }});
    return mc::run_main(argc, argv, B);
}
