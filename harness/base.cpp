// C33: the same programs recorded with another base type and with double. BT selects the type: 0 float, 1 num (numbase.hpp) with long double values, 2 num with double values, 3 zdouble
#if BT == 1
#define NUM_V long double
#endif
#include "numbase.hpp"
#include "families.hpp"
#define TAY_K 3
#include "tayref.hpp"
#include "adhook.hpp"
#include <cppad/core/zdouble.hpp>
using namespace prog; using namespace adhook; using vf::Run; using std::string;
#if BT == 0
typedef float B; static const double EPS = 6e-8; static const char* bname = "float";
#elif BT == 1
typedef CppAD::num B; static const double EPS = 1.1e-16; static const char* bname = "user defined long double";
#elif BT == 2
typedef CppAD::num B; static const double EPS = 0; static const char* bname = "user defined";
#else
typedef CppAD::zdouble B; static const double EPS = 0; static const char* bname = "zdouble";
#endif
typedef CppAD::AD<B> AB; typedef CppAD::AD<AB> AAB;
static double D(double x) { return x; }
static bool isnan_d(double x) { return x != x; }
#if BT == 1 || BT == 2
static double D(const CppAD::num& x) { return double(x.get()); }
#elif BT == 3
static double D(const CppAD::zdouble& x) { double r; std::memcpy(&r, &x, 8); return r; }
#else
static double D(B x) { return double(x); }
#endif
template <class T> static double DD(const CppAD::AD<T>& x) { return D(CppAD::Value(CppAD::Var2Par(x))); }
static B disB(const B& x) { return B(prog::dis_fun(D(x))); }
CPPAD_DISCRETE_FUNCTION(B, disB)
class atomB : public CppAD::atomic_four<B> {
public:
    atomB() : CppAD::atomic_four<B>("atomB") {}
    typedef CppAD::vector<bool> VBo; typedef CppAD::vector<B> VB_; typedef CppAD::vector<AB> VA_; typedef CppAD::sparse_rc<CppAD::vector<size_t>> RC;
    bool for_type(size_t, const CppAD::vector<CppAD::ad_type_enum>& tx, CppAD::vector<CppAD::ad_type_enum>& ty) override { ty[0] = std::max(tx[0], tx[1]); ty[1] = ty[0]; return true; }
    bool forward(size_t, const VBo&, size_t p, size_t q, const VB_& tx, VB_& ty) override { atom_t::fwd(p, q, tx, ty); return true; }
    bool forward(size_t, const VBo&, size_t p, size_t q, const VA_& tx, VA_& ty) override { atom_t::fwd(p, q, tx, ty); return true; }
    bool reverse(size_t, const VBo&, size_t q, const VB_& tx, const VB_&, VB_& px, const VB_& py) override { atom_t::rev(q, tx, py, px); return true; }
    bool reverse(size_t, const VBo&, size_t q, const VA_& tx, const VA_&, VA_& px, const VA_& py) override { atom_t::rev(q, tx, py, px); return true; }
    bool jac_sparsity(size_t, bool, const VBo&, const VBo& sx, const VBo& sy, RC& p) override { std::vector<std::pair<size_t, size_t>> e; for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) if (sx[j] && sy[i]) e.push_back({i, j}); p.resize(2, 2, e.size()); for (size_t k = 0; k < e.size(); k++) p.set(k, e[k].first, e[k].second); return true; }
    bool hes_sparsity(size_t, const VBo&, const VBo& sx, const VBo& sy, RC& p) override { std::vector<std::pair<size_t, size_t>> e; if (sy[0] && sx[0] && sx[1]) { e.push_back({0, 1}); e.push_back({1, 0}); } if (sy[1]) { if (sx[0]) e.push_back({0, 0}); if (sx[1]) e.push_back({1, 1}); } p.resize(2, 2, e.size()); for (size_t k = 0; k < e.size(); k++) p.set(k, e[k].first, e[k].second); return true; }
    bool rev_depend(size_t, const VBo&, VBo& dx, const VBo& dy) override { dx[0] = dx[1] = dy[0] || dy[1]; return true; }
};
static atomB& the_atomB() { static atomB a; return a; }
static void callB(const AB& a, const AB& b, AB& r0, AB& r1) { CppAD::vector<AB> x(2), y(2); x[0] = a; x[1] = b; the_atomB()(x, y); r0 = y[0]; r1 = y[1]; }
static void mixB(const AB& a, const AB& b, AB& r0, AB& r1) { mix_inline(a, b, r0, r1); }
PROG_AD_HOOK(B, disB, callB, mixB)
struct Pt { double x[2], p[2]; };
// values that float represents
static const std::vector<Pt> points = {{{0.3125, 0.6875}, {0.4375, -0.8125}}, {{1.5, -0.625}, {1.25, 2.0}}, {{-0.375, 1.25}, {0.0, 1.0}}};
static const std::vector<Pt> vpoints = {{{0.3125, 0.6875}, {1.25, -0.8125}}, {{1.5, -0.625}, {2.0, 0.5}}, {{2.25, 1.25}, {0.0, 1.0}}};
static const double XK[2][4] = {{0, 0.6875, -0.375, 0.875}, {0, -0.3125, 0.8125, 0.25}};
struct Sig { std::vector<double> v; std::vector<int> tag, dep; std::vector<size_t> s; };   // dep: dependent, or -1
template <class A, class T> static void record(const Prog& g, const Pt& pt, CppAD::ADFun<T>& f) {
    typedef CppAD::vector<A> VA; VA x(2), p(2); for (int j = 0; j < 2; j++) { x[j] = A(T(pt.x[j])); p[j] = A(T(pt.p[j])); }
    CppAD::Independent(x, size_t(0), true, p); std::vector<A> v = run<A>(g, x, p); VA y(g.y.size()); for (size_t i = 0; i < y.size(); i++) y[i] = v[g.y[i]]; f.Dependent(x, y); f.check_for_nan(false);
}
// everything that is compared, for an ADFun<T> or (RT differs) a function evaluated in AD<T>
template <class T, class RT> static void observe(CppAD::ADFun<T, RT>& f, const Pt& pt, double d, Sig& s, int K) {
    typedef CppAD::vector<T> V; size_t n = f.Domain(), m = f.Range(); auto put = [&](const T& v, int tag, size_t i) { double t; if constexpr (std::is_same<T, RT>::value) t = D(v); else t = DD(v); s.v.push_back(t); s.tag.push_back(tag); s.dep.push_back((int)i); };
    V p(2), x(2); for (int j = 0; j < 2; j++) { p[j] = T(pt.p[j] * (1 + d)); x[j] = T(pt.x[j] * (1 + d)); } if (f.size_dyn_ind()) f.new_dynamic(p);
    V y = f.Forward(0, x); for (size_t i = 0; i < m; i++) { put(y[i], 0, i); }
    for (int k = 1; k <= K; k++) { V xk(n); for (size_t j = 0; j < n; j++) xk[j] = T(XK[j][k]); y = f.Forward(k, xk); for (size_t i = 0; i < m; i++) put(y[i], k, i); }
    for (size_t i = 0; i < m; i++) for (int q = 1; q <= K + 1; q += K ? K : 1) { V w(m); for (size_t k = 0; k < m; k++) w[k] = T(k == i ? 1.0 : 0.0); V r = f.Reverse(q, w); for (size_t k = 0; k < r.size(); k++) put(r[k], 100 + q, i);
        if (q > 1) { V u(m * q); for (size_t k = 0; k < m; k++) for (int l = 0; l < q; l++) u[k * q + l] = T(k == i ? 1.0 - 0.375 * l : 0.0); r = f.Reverse(q, u); for (size_t k = 0; k < r.size(); k++) put(r[k], 200 + q, i); } }
    f.Forward(0, x); for (int q = 1; q <= K && q < 3; q++) { V xq(2 * n); for (size_t k = 0; k < 2 * n; k++) xq[k] = T(0.5 - 0.25 * k + 0.125 * q); y = f.Forward(q, 2, xq); for (size_t k = 0; k < y.size(); k++) put(y[k], 50 + q, k / 2); }
}
template <class T, class RT> static void drivers(CppAD::ADFun<T, RT>& f, const Pt& pt, double d, Sig& s) {
    typedef CppAD::vector<T> V; typedef CppAD::sparse_rc<CppAD::vector<size_t>> RC; size_t n = f.Domain(), m = f.Range(); auto put = [&](const T& v, int tag, size_t i) { s.v.push_back(D(v)); s.tag.push_back(tag); s.dep.push_back((int)i); };
    V p(2), x(2); for (int j = 0; j < 2; j++) { p[j] = T(pt.p[j] * (1 + d)); x[j] = T(pt.x[j] * (1 + d)); } if (f.size_dyn_ind()) f.new_dynamic(p);
    V J = f.Jacobian(x); for (size_t k = 0; k < J.size(); k++) put(J[k], 300, k / n); for (size_t i = 0; i < m; i++) { V h = f.Hessian(x, i); for (size_t k = 0; k < h.size(); k++) put(h[k], 301, i); }
    RC id(n, n, n), pj, ph; for (size_t j = 0; j < n; j++) id.set(j, j, j); f.for_jac_sparsity(id, false, false, false, pj); CppAD::vector<size_t> ro = pj.row_major();
    RC pp(m, n, pj.nnz()); for (size_t k = 0; k < pj.nnz(); k++) { pp.set(k, pj.row()[ro[k]], pj.col()[ro[k]]); s.s.push_back(pj.row()[ro[k]] * 100 + pj.col()[ro[k]]); }
    for (int w = 0; w < 2; w++) { CppAD::sparse_rcv<CppAD::vector<size_t>, V> a(pp); CppAD::sparse_jac_work wk; if (w) f.sparse_jac_rev(x, a, pp, "cppad", wk); else f.sparse_jac_for(2, x, a, pp, "cppad", wk); for (size_t k = 0; k < a.nnz(); k++) put(a.val()[k], 302 + w, a.row()[k]); }
    CppAD::vector<bool> sd(n, true), sr(m, true); f.for_hes_sparsity(sd, sr, false, ph); ro = ph.row_major(); RC hh(n, n, ph.nnz()); for (size_t k = 0; k < ph.nnz(); k++) { hh.set(k, ph.row()[ro[k]], ph.col()[ro[k]]); s.s.push_back(10000 + ph.row()[ro[k]] * 100 + ph.col()[ro[k]]); }
    { V w(m); for (size_t i = 0; i < m; i++) w[i] = T(i % 2 ? -0.5 : 1.0); CppAD::sparse_rcv<CppAD::vector<size_t>, V> a(hh); CppAD::sparse_hes_work wk; f.sparse_hes(x, w, a, hh, "cppad.symmetric", wk); for (size_t k = 0; k < a.nnz(); k++) put(a.val()[k], 304, 1000); }
    f.Forward(0, x); f.subgraph_reverse(sd); for (size_t i = 0; i < m; i++) { CppAD::vector<size_t> col; V dw; f.subgraph_reverse(1, i, col, dw); std::sort(col.begin(), col.end()); for (size_t c : col) { s.s.push_back(20000 + i * 100 + c); put(dw[c], 305, i); } }
    for (size_t i = 0; i < m; i++) s.s.push_back(30000 + f.Parameter(i)); 
}
template <class A, class T> static Sig full(const Prog& g, const Pt& rp, const std::vector<Pt>& pts, double d, int level) {
    Sig s; CppAD::ADFun<T> f; record<A, T>(g, rp, f); s.s = {f.size_var(), BT == 0 ? f.size_par() : 0, f.size_op(), f.size_dyn_par(), f.size_VecAD()};
    for (auto& pt : pts) observe(f, pt, d, s, 3); drivers(f, pts[0], d, s);
    if (level > 0) { auto af = f.base2ad(); observe(af, pts[0], d, s, 1); CppAD::ADFun<T> c; c = f; c.optimize(); s.s.push_back(40000 + c.size_var()); for (auto& pt : pts) observe(c, pt, d, s, 2); f.swap(c); f.optimize("no_compare_op no_conditional_skip"); observe(f, pts.back(), d, s, 1); CppAD::ADFun<T> e(std::move(f)); observe(e, pts[0], d, s, 0);
#if BT == 0
        CppAD::cpp_graph gr; try { e.to_graph(gr); e.from_graph(gr); e.check_for_nan(false); observe(e, pts[0], d, s, 1); } catch (vf::CppadError&) { s.s.push_back(50000); }
#endif
    }
    return s;
}
static double tol(double ref, double pert, double scale) { return EPS * 600 * (scale + std::fabs(ref)) + 24 * pert; }
static void check(Run& R, const Prog& g, const std::vector<Pt>& pts, int level) {
    uint64_t h = 14695981039346656037ull; string e;
    try {
        const Pt& rp = pts[R.g_idx() % pts.size()];
        { std::vector<double> v = run<double>(g, std::vector<double>(rp.x, rp.x + 2), std::vector<double>(rp.p, rp.p + 2)); for (int i = 0; i < (int)g.ins.size(); i++) if (g.ins[i].op == POW && v[g.ins[i].a[0]] == 0 && !(v[g.ins[i].a[1]] > 0)) return; }
        if (EPS > 0) for (auto& pt : pts) { std::vector<double> v = run<double>(g, std::vector<double>(pt.x, pt.x + 2), std::vector<double>(pt.p, pt.p + 2)); for (auto& i : g.ins) if ((i.op == ASIN || i.op == ACOS || i.op == ACOSH || i.op == ATANH) && std::fabs(std::fabs(v[i.a[0]]) - 1) < 0.02 && std::fabs(v[i.a[0]]) != 1) return; }   // next to a singularity
#if BT == 3
        for (auto& pt : pts) for (double u : run<double>(g, std::vector<double>(pt.x, pt.x + 2), std::vector<double>(pt.p, pt.p + 2))) if (!std::isfinite(u)) return;   // absolute zero matters
#endif
        Sig a = full<AD1, double>(g, rp, pts, 0, level); long l0 = 0;
#if BT == 1 || BT == 2
        l0 = CppAD::num::live(); CppAD::num::broken() = 0;
#endif
        Sig b = full<AB, B>(g, rp, pts, 0, level);
#if BT == 1 || BT == 2
        CppAD::thread_alloc::free_available(0);
        if (CppAD::num::broken()) e = vf::fmt("%ld uses of objects that are not constructed at their address", CppAD::num::broken()); if (CppAD::num::live() != l0) { l0 = CppAD::num::live(); full<AB, B>(g, rp, pts, 0, level); if (CppAD::num::live() != l0 && e.empty()) e = vf::fmt("%ld objects not destroyed", CppAD::num::live() - l0); }   // the first call of an atomic function keeps its work space
#endif
        (void)l0;
        if (e.empty() && a.s != b.s) { size_t k = 0; while (k < a.s.size() && k < b.s.size() && a.s[k] == b.s[k]) k++; e = vf::fmt("sizes and patterns differ at %zu: %ld, for double %ld", k, k < b.s.size() ? (long)b.s[k] : -1, k < a.s.size() ? (long)a.s[k] : -1); }
        if (e.empty() && a.v.size() != b.v.size()) e = "number of results";
        Sig c, d; double sc = 1; for (double u : a.v) if (std::isfinite(u) && std::fabs(u) < 1e6) sc = std::max(sc, std::fabs(u)); if (EPS > 0) { c = full<AD1, double>(g, rp, pts, EPS * 2, level); d = full<AD1, double>(g, rp, pts, -EPS * 2, level); }
        for (size_t k = 0; k < a.v.size() && e.empty(); k++) { double w = a.v[k], t = b.v[k]; R.comparisons++; h = h * 31 + uint64_t(int64_t(std::fabs(t) < 1e9 ? t * 64 : 0));
            if (EPS == 0) { if (!(w == t || (isnan_d(w) && (isnan_d(t) || BT == 3)) || (BT == 3 && !std::isfinite(w)))) e = vf::fmt("%.17g, for double %.17g", t, w); }
            else { if (k >= c.v.size() || k >= d.v.size() || !std::isfinite(w) || std::fabs(w) > 1e5 || !std::isfinite(c.v[k]) || !std::isfinite(d.v[k])) { R.count["skipped"]++; continue; } double pert = std::max(std::fabs(c.v[k] - w), std::fabs(d.v[k] - w)); if (pert > 1e-2 * (1 + std::fabs(w))) { R.count["skipped"]++; continue; }
                 if (sc * EPS > 1e-3) { R.count["skipped"]++; continue; }
                R.case_nontrivial = true; if (!(std::fabs(t - w) <= tol(w, pert, sc))) e = vf::fmt("%.17g, for double %.17g (tolerance %g)", t, w, tol(w, pert, sc)); }
            if (e.size()) e = vf::fmt("observation %zu (kind %d, dependent %d): ", k, a.tag[k], a.dep[k]) + e; else R.case_nontrivial = true; }
#if BT == 1
        // to the precision of long double
        if (e.empty() && g.ins.size() == 1) for (auto& pt : pts) { CppAD::ADFun<B> f; record<AB, B>(g, pt, f); tay::T x[2], p[2]; for (int j = 0; j < 2; j++) { x[j].c[0] = tay::D((tay::L)pt.x[j]); x[j].c[0].d[j] = 1; for (int k = 1; k <= 3; k++) x[j].c[k] = tay::D((tay::L)XK[j][k]); p[j] = tay::T(pt.p[j]); }
            std::vector<tay::T> r = run<tay::T>(g, x, p); std::vector<char> bad = bad_nodes(g, run<double>(g, std::vector<double>(pt.x, pt.x + 2), std::vector<double>(pt.p, pt.p + 2)), true);
            for (int k = 0; k <= 3 && e.empty(); k++) { CppAD::vector<B> xk(2); for (int j = 0; j < 2; j++) xk[j] = k ? XK[j][k] : pt.x[j]; auto y = f.Forward(k, xk); for (size_t i = 0; i < y.size() && e.empty(); i++) { long double w = r[g.y[i]].c[k].v, yi = y[i].get(); if (bad[g.y[i]] || !std::isfinite(w) || fabsl(w) > 1e6) continue; R.comparisons++; if (!(fabsl(yi - w) <= 2e-18L * (fabsl(w) + 1))) e = vf::fmt("order %d of dependent %zu is %.21Lg, reference %.21Lg", k, i, yi, w); } }
            if (e.empty()) for (size_t i = 0; i < g.y.size() && e.empty(); i++) { if (bad[g.y[i]]) continue; CppAD::vector<B> w(g.y.size(), B(0)); w[i] = 1; auto dw = f.Reverse(1, w); for (int j = 0; j < 2 && e.empty(); j++) { long double t = r[g.y[i]].c[0].d[j], dj = dw[j].get(); if (!std::isfinite(t) || fabsl(t) > 1e6) continue; R.comparisons++; if (!(fabsl(dj - t) <= 2e-18L * (fabsl(t) + 1))) e = vf::fmt("derivative of %zu by x%d is %.21Lg, reference %.21Lg", i, j, dj, t); } } }
#endif
    } catch (std::exception& x) { AB::abort_recording(); AD1::abort_recording(); e = x.what(); }
    if (e.size()) R.fail(string(bname) + ": " + e); R.outcome(h);
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler); (void)the_atomB(); (void)the_atom(); (void)the_mix();
        return vf::guarded_main(R, [&] {
        bool th = R.thorough(); Opt o; auto c = [&](const Prog& g) { check(R, g, points, 1); }; auto v = [&](const Prog& g) { check(R, g, vpoints, 1); };
        depth1(R, o, c); shared(R, "all2", th ? all_binary() : std::vector<Op>{ADD, SUB, MUL, DIV, POW, ZMUL, CLT, SIN}, {0, 2, 6}, 2, c, 2);
        { Opt q; q.atom = true; if (EPS == 0) q.y = Y_LAST; /* otherwise the size of the first result decides the tolerance */ if (th) depth2(R, q, c); }
        shared(R, "branch", {CLT, CEQ, EXP, DIV}, {0, 2}, 2, c, 1); vecad(R, o, 2, v, "vec2"); if (th) vecad(R, o, 3, v, "vec3"); sums(R, "sums", th ? 4 : 3, c);
    });
}
