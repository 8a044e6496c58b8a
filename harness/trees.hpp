// Rooted trees and the polynomial systems belonging to them (Butcher): for a tree with nodes
// 0..n-1 (0 the root) the system  y_i' = product over the children j of i of (y_j - off_j)
// has the solution  y_i(t0+h) = off_i + h^{|tau_i|} / gamma(tau_i)  when started at y = off.  A
// Runge-Kutta method is of order p iff it gives the root component exactly for every tree with at
// most p nodes.  Leaves may be replaced by explicit factors (t - t0).
#ifndef VERIF_TREES_HPP
#define VERIF_TREES_HPP
#include "mc.hpp"
namespace trees {
typedef std::vector<int> Parents;   // parent[0] = -1
// all rooted trees with n nodes, as canonical level sequences (Beyer & Hedetniemi)
inline std::vector<Parents> all(int n) {
    std::vector<Parents> R; std::vector<int> L(n); for (int i = 0; i < n; i++) L[i] = i;
    while (true) {
        Parents P(n, -1); for (int i = 1; i < n; i++) { int j = i - 1; while (L[j] >= L[i]) j--; P[i] = j; }
        R.push_back(P);
        int p = n - 1; while (p > 0 && L[p] == 1) p--; if (p <= 0) break;
        int q = p - 1; while (L[q] != L[p] - 1) q--;
        std::vector<int> M(L); for (int i = p; i < n; i++) M[i] = M[i - (p - q)]; L = M;
    }
    return R;
}
inline const std::vector<Parents>& of(int n) { static std::vector<std::vector<Parents>> c(16); if (c[n].empty()) c[n] = all(n); return c[n]; }
inline std::string show(const Parents& P) { std::string s = "["; for (size_t i = 1; i < P.size(); i++) s += mc::fmt(i > 1 ? "," : "", P[i]); return s + "]"; }
struct Tree {
    Parents par; std::vector<bool> time; std::vector<int> leaves; std::vector<double> size, gam;
    explicit Tree(const Parents& P) : par(P), time(P.size(), false), size(P.size(), 1), gam(P.size(), 1) {
        int n = P.size(); std::vector<bool> leaf(n, true);
        for (int i = n - 1; i > 0; i--) { leaf[P[i]] = false; size[P[i]] += size[i]; gam[P[i]] *= gam[i] * size[i]; }
        for (int i = 1; i < n; i++) if (leaf[i]) leaves.push_back(i);
        gam_root = gam[0] * size[0];
    }
    double gam_root;
    double gamma(int i) const { return gam[i] * size[i]; }
    size_t n() const { return par.size(); }
    std::string name() const { std::string s = mc::fmt("tree ", show(par)); bool any = false; for (size_t i = 0; i < time.size(); i++) if (time[i]) { s += any ? "," : " time "; s += mc::fmt(i); any = true; } return s; }
    // derivative; T time type
    template <class X, class D, class V, class Off> void rhs(const X& x, D& d, const V& tau, const Off& off) const {
        typedef typename std::decay<decltype(d[0])>::type E;
        for (size_t i = 0; i < n(); i++) d[i] = E(1);
        for (size_t i = 1; i < n(); i++) { if (time[i]) d[par[i]] *= tau; else d[par[i]] *= x[i] - off[i]; }
        for (size_t i = 1; i < n(); i++) if (time[i]) d[i] = E(0);   // unused component
    }
};
// a choice of tree with at most nmax nodes, leaf subset given explicitly by time
inline Tree choose(int nmin, int nmax, bool with_time) {
    int n = nmin + mc::choose(nmax - nmin + 1); Tree T(of(n)[mc::choose(of(n).size())]);
    if (with_time) for (int l : T.leaves) T.time[l] = mc::choose(2);
    return T;
}
} // namespace trees
#endif
