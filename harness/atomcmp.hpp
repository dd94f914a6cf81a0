// Comparison of a function that calls an atomic function with the same function recorded inline (two arguments, two dynamic parameters).
#ifndef ATOMCMP_HPP
#define ATOMCMP_HPP
#include "families.hpp"
#include "sparsity.hpp"
using namespace vf; using namespace adhook; using namespace sp; using std::string; typedef CppAD::ADFun<double> FunD;
static string pats(Run& R, FunD& a, FunD& b, bool exact, bool forhes, FunD* ph = nullptr, bool jac = true, bool hes = true) {
    FunD& ah = ph ? *ph : a;   // reference for the Hessian patterns
    size_t n = 2, m = a.Range(); VB ax = all(n), one(m); Pat id = identity(n), im = identity(m);
    auto cmp = [&](const Pat& w, const Pat& g, const string& what) -> string { R.comparisons++; if (exact ? w != g : !subset(w, g)) return what + " " + str(g) + ", inline " + str(w); return ""; };
    string e;
    for (int v = 0; v < 4 && e.empty() && jac; v++) { bool dep = v & 1, ib = v & 2; e = cmp(for_jac(a, id, n, false, dep, ib), for_jac(b, id, n, false, dep, ib), fmt("for_jac_sparsity dependency=%d bool=%d", dep, ib)); if (e.empty()) e = cmp(rev_jac(a, im, m, false, dep, ib), rev_jac(b, im, m, false, dep, ib), fmt("rev_jac_sparsity dependency=%d bool=%d", dep, ib)); }
    if (e.empty() && jac) e = cmp(old_for_jac_bool(a, id, n, false, false), old_for_jac_bool(b, id, n, false, false), "ForSparseJac bool");
    if (e.empty() && jac) e = cmp(old_rev_jac_set(a, im, m, false, false), old_rev_jac_set(b, im, m, false, false), "RevSparseJac set");
    if (e.empty()) { Pat w = sub_jac(a, ax, all(m), false), g = sub_jac(b, ax, all(m), false); R.comparisons++; if (!subset(w, g)) e = "subgraph_sparsity " + str(g) + ", inline " + str(w); }   // takes every result of a call to depend on every argument
    for (size_t i = 0; i <= m && e.empty() && hes; i++) { for (size_t k = 0; k < m; k++) one[k] = i == m || k == i;
        for (int ib = 0; ib < 2 && e.empty(); ib++) { if (forhes) e = cmp(for_hes(ah, ax, one, ib), for_hes(b, ax, one, ib), fmt("for_hes_sparsity bool=%d", ib)); if (e.empty()) e = cmp(rev_hes(ah, ax, one, false, ib), rev_hes(b, ax, one, false, ib), fmt("rev_hes_sparsity bool=%d", ib)); } 
        if (e.empty()) { VB half(n); half[0] = false; half[1] = true; if (forhes) e = cmp(for_hes(ah, half, one, i % 2), for_hes(b, half, one, i % 2), "for_hes_sparsity of x1"); if (e.empty()) e = cmp(rev_hes(ah, half, one, true, i % 2), rev_hes(b, half, one, true, i % 2), "rev_hes_sparsity of x1"); } }
    return e;
}
static string values(Run& R, FunD& a, FunD& b, size_t npt, uint64_t& h, size_t K = 3, size_t Q = 0, double rel = 1e-10, double abs = 1e-11) {
    static const std::vector<battery::Point>& pts = battery::std_points(); battery::Options o; o.K = K; o.multi = K > 1; o.Q = Q; o.reverse = Q != 99;   // Q == 99: no reverse mode
   
    for (size_t ip = 0; ip < npt; ip++) { battery::Sig s, t; battery::observe(a, pts[ip], s, o); battery::observe(b, pts[ip], t, o); std::vector<char> no(a.Range(), 0); string e = battery::diff(s, t, no, no, R, rel, abs); if (e.size()) return e + fmt(" at point %zu", ip); h = hash_bytes(t.v.data(), t.v.size() * 8, h); }
    return "";
}
// Jacobian of a function recorded by evaluating the base2ad version
static void jacfun(FunD& f, FunD& j, bool rev, size_t K = 2) {
    auto g = f.base2ad(); V1 x(2), p(2); x[0] = 0.3; x[1] = 0.7; p[0] = 0.45; p[1] = -0.8; CppAD::Independent(x, size_t(0), true, p); g.new_dynamic(p); V1 y = g.Forward(0, x); V1 z; for (size_t i = 0; i < y.size(); i++) z.push_back(y[i]);
    if (rev) for (size_t i = 0; i < y.size(); i++) { V1 w(y.size()); for (size_t k = 0; k < y.size(); k++) w[k] = k == i ? 1.0 : 0.0; V1 d = g.Reverse(1, w); for (size_t k = 0; k < d.size(); k++) z.push_back(d[k]); }
    else { V1 e(2); for (size_t k = 0; k < 2; k++) { e[0] = k == 0; e[1] = k == 1; V1 d = g.Forward(1, e); for (size_t i = 0; i < d.size(); i++) z.push_back(d[i]); if (K > 1) { e[0] = 0.5; e[1] = -1.0; d = g.Forward(2, e); } else d = V1(0); for (size_t i = 0; i < d.size(); i++) z.push_back(d[i]); } }
    j.Dependent(x, z);
}
#endif
