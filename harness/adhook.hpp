// Hooks that let prog::run record on AD<double> and AD< AD<double> >: discrete function and an atomic function.
#ifndef ADHOOK_HPP
#define ADHOOK_HPP
#include "prog.hpp"
namespace adhook {
typedef CppAD::AD<double> AD1; typedef CppAD::AD<AD1> AD2;
typedef CppAD::vector<double> VD; typedef CppAD::vector<AD1> V1; typedef CppAD::vector<AD2> V2;
inline double dis1(const double& x) { return prog::dis_fun(x); }
CPPAD_DISCRETE_FUNCTION(double, dis1)
inline AD1 dis2(const AD1& x) { return dis1(x); }
CPPAD_DISCRETE_FUNCTION(AD1, dis2)

// atomic_four function: (a, b) -> (a*b, a*a/2 + sin(b)), forward to order 4 and its reverse
class atom_t : public CppAD::atomic_four<double> {
public:
    atom_t() : CppAD::atomic_four<double>("atom_t") {}
    template <class B> static void fwd(size_t p, size_t q, const CppAD::vector<B>& tx, CppAD::vector<B>& ty) {
        size_t K = q + 1; const B* a = tx.data(); const B* b = tx.data() + K; B* y0 = ty.data(); B* y1 = ty.data() + K;
        std::vector<B> s(K), c(K);
        s[0] = sin(b[0]); c[0] = cos(b[0]);
        for (size_t k = 1; k < K; k++) { s[k] = B(0.0); c[k] = B(0.0); for (size_t j = 1; j <= k; j++) { B w = B(double(j)) / B(double(k)) * b[j]; s[k] += w * c[k - j]; c[k] -= w * s[k - j]; } }
        for (size_t k = p; k < K; k++) { y0[k] = B(0.0); B q2(0.0); for (size_t j = 0; j <= k; j++) { y0[k] += a[j] * b[k - j]; q2 += a[j] * a[k - j]; } y1[k] = B(0.5) * q2 + s[k]; }
    }
    template <class B> static void rev(size_t q, const CppAD::vector<B>& tx, const CppAD::vector<B>& py, CppAD::vector<B>& px) {
        using CppAD::azmul; size_t K = q + 1; const B* a = tx.data(); const B* b = tx.data() + K; B* pa = px.data(); B* pb = px.data() + K;
        std::vector<B> s(K), c(K);
        s[0] = sin(b[0]); c[0] = cos(b[0]);
        for (size_t k = 1; k < K; k++) { s[k] = B(0.0); c[k] = B(0.0); for (size_t j = 1; j <= k; j++) { B w = B(double(j)) / B(double(k)) * b[j]; s[k] += w * c[k - j]; c[k] -= w * s[k - j]; } }
        for (size_t l = 0; l < K; l++) { pa[l] = B(0.0); pb[l] = B(0.0); }
        // d y^(k) / d x^(l) = (partial f / partial x)^(k-l):  y0_a = b, y0_b = a, y1_a = a, y1_b = cos(b)
        for (size_t k = 0; k < K; k++) for (size_t l = 0; l <= k; l++) {
            pa[l] += azmul(py[k], b[k - l]) + azmul(py[K + k], a[k - l]);
            pb[l] += azmul(py[k], a[k - l]) + azmul(py[K + k], c[k - l]);
        }
    }
    bool for_type(size_t, const CppAD::vector<CppAD::ad_type_enum>& tx, CppAD::vector<CppAD::ad_type_enum>& ty) override {
        ty[0] = std::max(tx[0], tx[1]); ty[1] = ty[0]; return true; }
    bool forward(size_t, const CppAD::vector<bool>&, size_t p, size_t q, const CppAD::vector<double>& tx, CppAD::vector<double>& ty) override { fwd(p, q, tx, ty); return true; }
    bool forward(size_t, const CppAD::vector<bool>&, size_t p, size_t q, const CppAD::vector<AD1>& tx, CppAD::vector<AD1>& ty) override { fwd(p, q, tx, ty); return true; }
    bool reverse(size_t, const CppAD::vector<bool>&, size_t q, const CppAD::vector<double>& tx, const CppAD::vector<double>&, CppAD::vector<double>& px, const CppAD::vector<double>& py) override { rev(q, tx, py, px); return true; }
    bool reverse(size_t, const CppAD::vector<bool>&, size_t q, const CppAD::vector<AD1>& tx, const CppAD::vector<AD1>&, CppAD::vector<AD1>& px, const CppAD::vector<AD1>& py) override { rev(q, tx, py, px); return true; }
    bool jac_sparsity(size_t, bool dependency, const CppAD::vector<bool>&, const CppAD::vector<bool>& sx, const CppAD::vector<bool>& sy, CppAD::sparse_rc< CppAD::vector<size_t> >& pat) override {
        size_t nnz = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (sy[i] && sx[j]) nnz++;
        pat.resize(2, 2, nnz); nnz = 0;
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (sy[i] && sx[j]) pat.set(nnz++, i, j);
        return true; }
    bool hes_sparsity(size_t, const CppAD::vector<bool>&, const CppAD::vector<bool>& sx, const CppAD::vector<bool>& sy, CppAD::sparse_rc< CppAD::vector<size_t> >& pat) override {
        std::vector<std::pair<int,int>> e;
        if (sy[0] && sx[0] && sx[1]) { e.push_back({0, 1}); e.push_back({1, 0}); }
        if (sy[1]) { if (sx[0]) e.push_back({0, 0}); if (sx[1]) e.push_back({1, 1}); }
        pat.resize(2, 2, e.size()); for (size_t k = 0; k < e.size(); k++) pat.set(k, e[k].first, e[k].second);
        return true; }
    bool rev_depend(size_t, CppAD::vector<bool>& dx, const CppAD::vector<bool>& dy) override {
        dx[0] = dy[0] || dy[1]; dx[1] = dx[0]; return true; }
};

// atomic_four function: (a, b) -> (2.5, a*a, sin(a)*b): results of different types in one call
class mix_t : public CppAD::atomic_four<double> {
public:
    mix_t() : CppAD::atomic_four<double>("mix_t") {}
    template <class B> static void sc(const B* a, size_t K, std::vector<B>& s, std::vector<B>& c) {
        s.assign(K, B(0.0)); c.assign(K, B(0.0)); s[0] = sin(a[0]); c[0] = cos(a[0]);
        for (size_t k = 1; k < K; k++) for (size_t j = 1; j <= k; j++) { B w = B(double(j) / double(k)) * a[j]; s[k] += w * c[k - j]; c[k] -= w * s[k - j]; } }
    // only selected results may be computed: a call with select false leaves nan
    template <class B> static void fwd(const CppAD::vector<bool>& sel, size_t p, size_t q, const CppAD::vector<B>& tx, CppAD::vector<B>& ty) {
        size_t K = q + 1; const B* a = tx.data(); const B* b = tx.data() + K; std::vector<B> s, c; if (sel[2]) sc(a, K, s, c);
        for (size_t k = p; k < K; k++) { ty[k] = B(k == 0 ? 2.5 : 0.0);
            if (sel[1]) { B r(0.0); for (size_t j = 0; j <= k; j++) r += a[j] * a[k - j]; ty[K + k] = r; }
            if (sel[2]) { B r(0.0); for (size_t j = 0; j <= k; j++) r += s[j] * b[k - j]; ty[2 * K + k] = r; } }
    }
    template <class B> static void rev(const CppAD::vector<bool>& sel, size_t q, const CppAD::vector<B>& tx, const CppAD::vector<B>& py, CppAD::vector<B>& px) {
        using CppAD::azmul; size_t K = q + 1; const B* a = tx.data(); const B* b = tx.data() + K; B* pa = px.data(); B* pb = px.data() + K; std::vector<B> s, c; sc(a, K, s, c);
        for (size_t l = 0; l < K; l++) { pa[l] = B(0.0); pb[l] = B(0.0); }
        std::vector<B> cb(K, B(0.0)); for (size_t k = 0; k < K; k++) for (size_t j = 0; j <= k; j++) cb[k] += c[j] * b[k - j];
        for (size_t k = 0; k < K; k++) for (size_t l = 0; l <= k; l++) { pa[l] += azmul(py[K + k], B(2.0) * a[k - l]); pa[l] += azmul(py[2 * K + k], cb[k - l]); pb[l] += azmul(py[2 * K + k], s[k - l]); }   // optimize replaces arguments that are not needed by nan
        if (!sel[0]) pa[0] = B(CppAD::numeric_limits<double>::quiet_NaN()); if (!sel[1]) pb[0] = B(CppAD::numeric_limits<double>::quiet_NaN());
    }
    bool for_type(size_t, const CppAD::vector<CppAD::ad_type_enum>& tx, CppAD::vector<CppAD::ad_type_enum>& ty) override { ty[0] = CppAD::constant_enum; ty[1] = tx[0]; ty[2] = std::max(tx[0], tx[1]); return true; }
    bool forward(size_t, const CppAD::vector<bool>& sel, size_t p, size_t q, const CppAD::vector<double>& tx, CppAD::vector<double>& ty) override { fwd(sel, p, q, tx, ty); return true; }
    bool forward(size_t, const CppAD::vector<bool>& sel, size_t p, size_t q, const CppAD::vector<AD1>& tx, CppAD::vector<AD1>& ty) override { fwd(sel, p, q, tx, ty); return true; }
    bool reverse(size_t, const CppAD::vector<bool>& sel, size_t q, const CppAD::vector<double>& tx, const CppAD::vector<double>&, CppAD::vector<double>& px, const CppAD::vector<double>& py) override { rev(sel, q, tx, py, px); return true; }
    bool reverse(size_t, const CppAD::vector<bool>& sel, size_t q, const CppAD::vector<AD1>& tx, const CppAD::vector<AD1>&, CppAD::vector<AD1>& px, const CppAD::vector<AD1>& py) override { rev(sel, q, tx, py, px); return true; }
    bool jac_sparsity(size_t, bool, const CppAD::vector<bool>&, const CppAD::vector<bool>& sx, const CppAD::vector<bool>& sy, CppAD::sparse_rc< CppAD::vector<size_t> >& pat) override {
        std::vector<std::pair<int,int>> e; if (sy[1] && sx[0]) e.push_back({1, 0}); if (sy[2] && sx[0]) e.push_back({2, 0}); if (sy[2] && sx[1]) e.push_back({2, 1});
        pat.resize(3, 2, e.size()); for (size_t k = 0; k < e.size(); k++) pat.set(k, e[k].first, e[k].second); return true; }
    bool hes_sparsity(size_t, const CppAD::vector<bool>&, const CppAD::vector<bool>& sx, const CppAD::vector<bool>& sy, CppAD::sparse_rc< CppAD::vector<size_t> >& pat) override {
        std::vector<std::pair<int,int>> e; if ((sy[1] || sy[2]) && sx[0]) e.push_back({0, 0}); if (sy[2] && sx[0] && sx[1]) { e.push_back({0, 1}); e.push_back({1, 0}); }
        pat.resize(2, 2, e.size()); for (size_t k = 0; k < e.size(); k++) pat.set(k, e[k].first, e[k].second); return true; }
    bool rev_depend(size_t, CppAD::vector<bool>& dx, const CppAD::vector<bool>& dy) override { dx[0] = dy[1] || dy[2]; dx[1] = dy[2]; return true; }
};
inline mix_t& the_mix() { static mix_t a; return a; }
template <class B> void mixcall(const CppAD::AD<B>& a, const CppAD::AD<B>& b, CppAD::AD<B>& r1, CppAD::AD<B>& r2);
template <> inline void mixcall<double>(const AD1& a, const AD1& b, AD1& r1, AD1& r2) {
    V1 x(2), y(3); x[0] = a; x[1] = b; the_mix()(x, y); r1 = y[1]; r2 = y[2]; }
template <> inline void mixcall<AD1>(const AD2& a, const AD2& b, AD2& r1, AD2& r2) { prog::mix_inline(a, b, r1, r2); }
inline atom_t& the_atom() { static atom_t a; return a; }
template <class B> void atomcall(const CppAD::AD<B>& a, const CppAD::AD<B>& b, CppAD::AD<B>& r0, CppAD::AD<B>& r1);
template <> inline void atomcall<double>(const AD1& a, const AD1& b, AD1& r0, AD1& r1) {
    V1 x(2), y(2); x[0] = a; x[1] = b; the_atom()(x, y); r0 = y[0]; r1 = y[1]; }
template <> inline void atomcall<AD1>(const AD2& a, const AD2& b, AD2& r0, AD2& r1) { prog::atom_inline(a, b, r0, r1); }

struct Fun { CppAD::ADFun<double> f; bool ok = false; };
// record a program; x and p are the values used during the recording
inline void record(const prog::Prog& g, const std::vector<double>& x, const std::vector<double>& p, CppAD::ADFun<double>& f, std::vector<AD1>* nodes = nullptr);
}
PROG_AD_HOOK(double, adhook::dis1, adhook::atomcall<double>, adhook::mixcall<double>)
PROG_AD_HOOK(CppAD::AD<double>, adhook::dis2, adhook::atomcall<CppAD::AD<double>>, adhook::mixcall<CppAD::AD<double>>)
namespace adhook {
inline void record(const prog::Prog& g, const std::vector<double>& x, const std::vector<double>& p, CppAD::ADFun<double>& f, std::vector<AD1>* nodes) {
    V1 ax(g.n), ap(g.m); for (int i = 0; i < g.n; i++) ax[i] = x[i]; for (int i = 0; i < g.m; i++) ap[i] = p[i];
    CppAD::Independent(ax, size_t(0), true, ap);
    std::vector<AD1> v = prog::run<AD1>(g, ax, ap);
    V1 ay(g.y.size()); for (size_t i = 0; i < g.y.size(); i++) ay[i] = v[g.y[i]];
    f.Dependent(ax, ay);
    if (nodes) *nodes = v;
}
}
#endif
