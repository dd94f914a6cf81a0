// Six algorithms as atomic_four, atomic_three, atomic_two and atomic_one functions, written from the documentation of the callbacks.
#ifndef ATOMICS_HPP
#define ATOMICS_HPP
#include "families.hpp"
#include "sparsity.hpp"
using namespace vf; using namespace adhook; using namespace sp;
using std::string;
typedef CppAD::ADFun<double> FunD;
typedef CppAD::vector<CppAD::ad_type_enum> VT; typedef CppAD::vector<std::set<size_t>> VSet; typedef CppAD::vectorBool VPack;
static const int NALG = 6; static const size_t alg_n[NALG] = {2, 3, 1, 3, 2, 2}, alg_m[NALG] = {2, 3, 1, 2, 3, 2};
static string g_mon;      // first complaint of a callback monitor
static void mon(const char* s) { if (g_mon.empty()) g_mon = s; }
// truncated Taylor series over B
template <class B> B dis_b(const B& x); template <> double dis_b(const double& x) { return prog::dis_fun(x); } template <> AD1 dis_b(const AD1& x) { return dis1(x); } template <> AD2 dis_b(const AD2& x) { return dis2(x); }
template <class B> struct Ser { std::vector<B> c; Ser() {} Ser(size_t K, double v) : c(K, B(0.0)) { c[0] = B(v); } size_t K() const { return c.size(); } };
template <class B> Ser<B> operator*(const Ser<B>& a, const Ser<B>& b) { Ser<B> r(a.K(), 0); for (size_t k = 0; k < a.K(); k++) { B s(0.0); for (size_t j = 0; j <= k; j++) s += CppAD::azmul(a.c[j], b.c[k - j]); r.c[k] = s; } return r; }
template <class B> Ser<B> operator+(const Ser<B>& a, const Ser<B>& b) { Ser<B> r(a.K(), 0); for (size_t k = 0; k < a.K(); k++) r.c[k] = a.c[k] + b.c[k]; return r; }
template <class B> Ser<B> operator*(double s, const Ser<B>& a) { Ser<B> r(a.K(), 0); for (size_t k = 0; k < a.K(); k++) r.c[k] = B(s) * a.c[k]; return r; }
template <class B> Ser<B> operator+(const Ser<B>& a, double s) { Ser<B> r = a; r.c[0] += B(s); return r; }
template <class B> Ser<B> exp(const Ser<B>& a) { Ser<B> r(a.K(), 0); r.c[0] = exp(a.c[0]); for (size_t k = 1; k < a.K(); k++) { B s(0.0); for (size_t j = 1; j <= k; j++) s += B(double(j) / k) * a.c[j] * r.c[k - j]; r.c[k] = s; } return r; }
template <class B> void sincos(const Ser<B>& a, Ser<B>& s, Ser<B>& c) { s = Ser<B>(a.K(), 0); c = s; s.c[0] = sin(a.c[0]); c.c[0] = cos(a.c[0]);
    for (size_t k = 1; k < a.K(); k++) { B u(0.0), v(0.0); for (size_t j = 1; j <= k; j++) { B w = B(double(j) / k) * a.c[j]; u += w * c.c[k - j]; v -= w * s.c[k - j]; } s.c[k] = u; c.c[k] = v; } }
template <class B> Ser<B> sin(const Ser<B>& a) { Ser<B> s, c; sincos(a, s, c); return s; }
template <class B> Ser<B> cos(const Ser<B>& a) { Ser<B> s, c; sincos(a, s, c); return c; }
template <class B> Ser<B> dis_b(const Ser<B>& a) { Ser<B> r(a.K(), 0); r.c[0] = dis_b(a.c[0]); return r; }
static AD1 con(const AD1&, double v) { return AD1(v); } template <class B> Ser<B> con(const Ser<B>& like, double v) { return Ser<B>(like.K(), v); }
// result i of algorithm
template <class S> S val(int id, int i, const S* x) {
    switch (id) {
    case 0: if (i == 0) return x[0] * x[1]; return 0.5 * (x[0] * x[0]) + sin(x[1]);
    case 1: if (i == 0) return con(x[0], 2.5); if (i == 1) return x[0] * x[2]; return exp(x[1]) + x[0];
    case 2: return x[0] * x[0] * x[0];
    case 3: if (i == 0) return x[0]; return x[0] * x[1] * x[2];
    case 4: if (i < 2) return x[0]; return 3.0 * x[1];
    } if (i == 0) return dis_b(x[0]); return x[1] * x[1];
}
// derivative of result i with respect to argument j: only called when jnz
template <class S> S jac(int id, int i, int j, const S* x) {
    switch (id) {
    case 0: if (i == 0) return x[1 - j]; return j == 0 ? x[0] : cos(x[1]);
    case 1: if (i == 1) return x[2 - j]; return j == 0 ? con(x[0], 1.0) : exp(x[1]);
    case 2: return 3.0 * (x[0] * x[0]);
    case 3: if (i == 0) return con(x[0], 1.0); return j == 0 ? x[1] * x[2] : j == 1 ? x[0] * x[2] : x[0] * x[1];
    case 4: return con(x[0], i < 2 ? 1.0 : 3.0);
    } return 2.0 * x[1];
}
static bool jnz(int id, int i, int j) { switch (id) { case 0: return true; case 1: return i == 1 ? j != 1 : i == 2 ? j != 2 : false; case 2: return true; case 3: return i == 1 || j == 0; case 4: return i < 2 ? j == 0 : j == 1; } return i == 1 && j == 1; }
static bool dnz(int id, int i, int j) { return jnz(id, i, j) || (id == 5 && i == 0 && j == 0); }
static bool hnz(int id, int i, int j, int k) { switch (id) { case 0: return i == 0 ? j != k : j == k; case 1: return i == 1 ? (j != k && j != 1 && k != 1) : i == 2 ? (j == 1 && k == 1) : false; case 2: return true; case 3: return i == 1 && j != k; case 4: return false; } return i == 1 && j == 1 && k == 1; }
template <class V> void inline_call(int id, const V& ax, V& ay) { for (size_t i = 0; i < alg_m[id]; i++) ay[i] = val<AD1>(id, i, ax.data()); }
static const double NaN = std::nan("");
static void (*g_step)() = nullptr;       // called inside forward and reverse
template <class B> std::vector<Ser<B>> series(size_t n, size_t K, const CppAD::vector<B>& tx) { std::vector<Ser<B>> x(n); for (size_t j = 0; j < n; j++) { x[j] = Ser<B>(K, 0); for (size_t k = 0; k < K; k++) x[j].c[k] = tx[j * K + k]; } return x; }
// sel(i): result must be computed; others are set to nan
template <class B, class F> void forward(int id, size_t p, size_t q, F sel, const CppAD::vector<B>& tx, CppAD::vector<B>& ty) {
    size_t K = q + 1; if (g_step) g_step(); auto x = series(alg_n[id], K, tx);
    for (size_t i = 0; i < alg_m[id]; i++) { if (!sel(i)) { for (size_t k = p; k < K; k++) ty[i * K + k] = B(NaN); continue; } auto y = val(id, i, x.data()); for (size_t k = p; k < K; k++) ty[i * K + k] = y.c[k]; } }
template <class B, class F> void reverse(int id, size_t q, F sel, const CppAD::vector<B>& tx, CppAD::vector<B>& px, const CppAD::vector<B>& py) {
    size_t K = q + 1, n = alg_n[id], m = alg_m[id]; if (g_step) g_step(); auto x = series(n, K, tx);
    for (size_t j = 0; j < n; j++) { for (size_t l = 0; l < K; l++) px[j * K + l] = sel(j) ? B(0.0) : B(NaN); if (!sel(j)) continue;
        for (size_t i = 0; i < m; i++) if (jnz(id, i, j)) { auto d = jac(id, i, j, x.data()); for (size_t l = 0; l < K; l++) for (size_t k = l; k < K; k++) px[j * K + l] += CppAD::azmul(py[i * K + k], d.c[k - l]); } } }
static bool yes(size_t) { return true; }
static CppAD::ad_type_enum type_of(int id, size_t i, const VT& tx) { auto t = CppAD::constant_enum; for (size_t j = 0; j < alg_n[id]; j++) if (dnz(id, i, j)) t = std::max(t, tx[j]); return t; }
static void jac_pat(int id, bool dep, const VB& sx, const VB& sy, RC& pat) { Pat p; for (size_t i = 0; i < alg_m[id]; i++) for (size_t j = 0; j < alg_n[id]; j++) if (sy[i] && sx[j] && (dep ? dnz(id, i, j) : jnz(id, i, j))) p.insert({i, j}); pat = from_set(alg_m[id], alg_n[id], p); }
static void hes_pat(int id, const VB& sx, const VB& sy, RC& pat) { size_t n = alg_n[id]; Pat p; for (size_t i = 0; i < alg_m[id]; i++) if (sy[i]) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) if (sx[j] && sx[k] && hnz(id, i, j, k)) p.insert({j, k}); pat = from_set(n, n, p); }
static void dep_pat(int id, VB& dx, const VB& dy) { for (size_t j = 0; j < alg_n[id]; j++) { dx[j] = false; for (size_t i = 0; i < alg_m[id]; i++) dx[j] = dx[j] || (dy[i] && dnz(id, i, j)); } }

class four_t : public CppAD::atomic_four<double> { public: four_t() : CppAD::atomic_four<double>("four_t") {}
    typedef CppAD::vector<bool> vb;
    void size(size_t id, const vb& sx, const vb& sy) { if (id >= NALG) { mon("call_id is not the one of the call"); return; } if (sx.size() && sx.size() != alg_n[id]) mon("atomic_four: size of a selection of arguments"); if (sy.size() && sy.size() != alg_m[id]) mon("atomic_four: size of a selection of results"); }
    bool for_type(size_t id, const VT& tx, VT& ty) override { size(id, vb(), vb()); if (tx.size() != alg_n[id]) mon("for_type size"); for (size_t i = 0; i < ty.size(); i++) ty[i] = type_of(id, i, tx); return true; }
    bool forward(size_t id, const vb& s, size_t p, size_t q, const VD& tx, VD& ty) override { size(id, vb(), s); ::forward(id, p, q, [&](size_t i) { return s[i]; }, tx, ty); return true; }
    bool forward(size_t id, const vb& s, size_t p, size_t q, const V1& tx, V1& ty) override { size(id, vb(), s); ::forward(id, p, q, [&](size_t i) { return s[i]; }, tx, ty); return true; }
    bool reverse(size_t id, const vb& s, size_t q, const VD& tx, const VD&, VD& px, const VD& py) override { size(id, s, vb()); ::reverse(id, q, [&](size_t i) { return s[i]; }, tx, px, py); return true; }
    bool reverse(size_t id, const vb& s, size_t q, const V1& tx, const V1&, V1& px, const V1& py) override { size(id, s, vb()); ::reverse(id, q, [&](size_t i) { return s[i]; }, tx, px, py); return true; }
    bool jac_sparsity(size_t id, bool dep, const vb& z, const vb& sx, const vb& sy, RC& pat) override { size(id, sx, sy); if (z.size() != sx.size()) mon("ident_zero_x size"); for (size_t j = 0; j < z.size(); j++) if (z[j] && !zero_ok) mon("ident_zero_x true for an argument that is not zero"); jac_pat(id, dep, sx, sy, pat); return true; }
    bool hes_sparsity(size_t id, const vb& z, const vb& sx, const vb& sy, RC& pat) override { size(id, sx, sy); if (z.size() != sx.size()) mon("ident_zero_x size"); for (size_t j = 0; j < z.size(); j++) if (z[j] && !zero_ok) mon("ident_zero_x true for an argument that is not zero"); hes_pat(id, sx, sy, pat); return true; }
    bool rev_depend(size_t id, vb& dx, const vb& dy) override { size(id, dx, dy); dep_pat(id, dx, dy); return true; }
    static bool zero_ok;
};
bool four_t::zero_ok = false;
class three_t : public CppAD::atomic_three<double> { public: int id; three_t(int i) : CppAD::atomic_three<double>("three_t"), id(i) {}
    void par(const VD& x, const VT& t) { if (x.size() != alg_n[id] || t.size() != alg_n[id]) { mon("atomic_three: size of parameter_x or type_x"); return; } for (size_t j = 0; j < x.size(); j++) { if (!four_t::zero_ok && t[j] < CppAD::variable_enum && std::isnan(x[j])) mon("parameter_x is nan for a parameter"); } }
    void tay(const VD& x, const VT& t, size_t K, const VD& tx) { for (size_t j = 0; j < x.size(); j++) if (t[j] < CppAD::variable_enum) { if (!same_double(tx[j * K], x[j])) mon("order zero of a parameter is not its value"); for (size_t k = 1; k < K; k++) if (tx[j * K + k] != 0) mon("higher order coefficient of a parameter is not zero"); } }
    std::function<bool(size_t)> need(size_t ny, const VT& t) { if (ny > CppAD::number_ad_type_enum) mon("need_y out of range"); std::vector<bool> s(alg_m[id]); for (size_t i = 0; i < s.size(); i++) s[i] = ny >= CppAD::number_ad_type_enum || size_t(type_of(id, i, t)) == ny; return [s](size_t i) { return s[i]; }; }
    bool for_type(const VD& x, const VT& tx, VT& ty) override { par(x, tx); for (size_t i = 0; i < ty.size(); i++) ty[i] = type_of(id, i, tx); return true; }
    bool forward(const VD& x, const VT& t, size_t ny, size_t p, size_t q, const VD& tx, VD& ty) override { par(x, t); tay(x, t, q + 1, tx); ::forward(id, p, q, need(ny, t), tx, ty); return true; }
    bool forward(const V1& x, const VT& t, size_t ny, size_t p, size_t q, const V1& tx, V1& ty) override { if (x.size() != alg_n[id]) mon("aparameter_x size"); ::forward(id, p, q, need(ny, t), tx, ty); return true; }
    bool reverse(const VD& x, const VT& t, size_t q, const VD& tx, const VD&, VD& px, const VD& py) override { par(x, t); tay(x, t, q + 1, tx); ::reverse(id, q, [&](size_t j) { return t[j] == CppAD::variable_enum; }, tx, px, py); return true; }
    bool reverse(const V1&, const VT& t, size_t q, const V1& tx, const V1&, V1& px, const V1& py) override { ::reverse(id, q, [&](size_t j) { return t[j] == CppAD::variable_enum; }, tx, px, py); return true; }
    bool jac_sparsity(const VD& x, const VT& t, bool dep, const VB& sx, const VB& sy, RC& pat) override { par(x, t); jac_pat(id, dep, sx, sy, pat); return true; }
    bool hes_sparsity(const VD& x, const VT& t, const VB& sx, const VB& sy, RC& pat) override { par(x, t); hes_pat(id, sx, sy, pat); return true; }
    bool rev_depend(const VD& x, const VT& t, VB& dx, const VB& dy) override { par(x, t); dep_pat(id, dx, dy); return true; }
};
// access to a matrix of booleans stored as sets or as bits
template <class V> bool get(const V& v, size_t q, size_t i, size_t k) { return v[i * q + k]; } template <> bool get(const VSet& v, size_t, size_t i, size_t k) { return v[i].count(k) > 0; }
template <class V> void wipe(V&) {} template <> void wipe(VSet& v) { for (size_t i = 0; i < v.size(); i++) v[i].clear(); }
template <class V> void put(V& v, size_t q, size_t i, size_t k, bool b) { v[i * q + k] = b; } template <> void put(VSet& v, size_t, size_t i, size_t k, bool b) { if (b) v[i].insert(k); else v[i].erase(k); }
template <class V> bool two_fj(int id, size_t q, const V& r, V& s) { wipe(s); for (size_t i = 0; i < alg_m[id]; i++) for (size_t k = 0; k < q; k++) { bool b = false; for (size_t j = 0; j < alg_n[id]; j++) b |= dnz(id, i, j) && get(r, q, j, k); put(s, q, i, k, b); } return true; }
template <class V> bool two_rj(int id, size_t q, const V& rt, V& st) { wipe(st); for (size_t j = 0; j < alg_n[id]; j++) for (size_t k = 0; k < q; k++) { bool b = false; for (size_t i = 0; i < alg_m[id]; i++) b |= dnz(id, i, j) && get(rt, q, i, k); put(st, q, j, k, b); } return true; }
template <class V> bool two_fh(int id, const VB& r, const VB& s, V& h) { wipe(h); size_t n = alg_n[id]; for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) { bool b = false; for (size_t i = 0; i < alg_m[id]; i++) b |= s[i] && r[j] && r[k] && hnz(id, i, j, k); put(h, n, j, k, b); } return true; }
template <class V> bool two_rh(int id, const VB& s, VB& t, size_t q, const V& r, const V& u, V& v) { wipe(v); size_t n = alg_n[id], m = alg_m[id];
    for (size_t j = 0; j < n; j++) { t[j] = false; for (size_t i = 0; i < m; i++) t[j] = t[j] || (s[i] && dnz(id, i, j));
        for (size_t k = 0; k < q; k++) { bool b = false; for (size_t i = 0; i < m; i++) { b |= dnz(id, i, j) && get(u, q, i, k); for (size_t l = 0; l < n; l++) b |= s[i] && hnz(id, i, j, l) && get(r, q, l, k); } put(v, q, j, k, b); } } return true; }
template <class B> bool two_fwd(int id, size_t p, size_t q, const VB& vx, VB& vy, const CppAD::vector<B>& tx, CppAD::vector<B>& ty) {
    if (vx.size()) { if (p != 0 || q != 0) mon("vx is not empty for higher orders"); for (size_t i = 0; i < alg_m[id]; i++) { vy[i] = false; for (size_t j = 0; j < alg_n[id]; j++) vy[i] = vy[i] || (vx[j] && dnz(id, i, j)); } }
    ::forward(id, p, q, yes, tx, ty); return true; }
class two_t : public CppAD::atomic_base<double> { public: int id; two_t(int i, option_enum o) : CppAD::atomic_base<double>("two_t", o), id(i) {}
    bool forward(size_t p, size_t q, const VB& vx, VB& vy, const VD& tx, VD& ty) override { return two_fwd(id, p, q, vx, vy, tx, ty); }
    bool forward(size_t p, size_t q, const VB& vx, VB& vy, const V1& tx, V1& ty) override { return two_fwd(id, p, q, vx, vy, tx, ty); }
    bool reverse(size_t q, const VD& tx, const VD&, VD& px, const VD& py) override { ::reverse(id, q, yes, tx, px, py); return true; }
    bool reverse(size_t q, const V1& tx, const V1&, V1& px, const V1& py) override { ::reverse(id, q, yes, tx, px, py); return true; }
#define TWO(V) \
    bool for_sparse_jac(size_t q, const V& r, V& s, const VD&) override { return two_fj(id, q, r, s); } \
    bool rev_sparse_jac(size_t q, const V& r, V& s, const VD&) override { return two_rj(id, q, r, s); } \
    bool for_sparse_hes(const VB&, const VB& r, const VB& s, V& h, const VD&) override { return two_fh(id, r, s, h); } \
    bool rev_sparse_hes(const VB&, const VB& s, VB& t, size_t q, const V& r, const V& u, V& v, const VD&) override { return two_rh(id, s, t, q, r, u, v); }
    TWO(VSet) TWO(VB) TWO(VPack)
};
static bool one_f(size_t id, size_t k, size_t n, size_t m, const VB& vx, VB& vy, const VD& tx, VD& ty) { if (id >= NALG || n != alg_n[id] || m != alg_m[id]) mon("atomic_one: sizes or id");
    // order k is requested, lower orders are in ty
    return two_fwd(int(id), k, k, vx, vy, tx, ty); }
static bool one_r(size_t id, size_t k, size_t n, size_t m, const VD& tx, const VD&, VD& px, const VD& py) { if (id >= NALG || n != alg_n[id] || m != alg_m[id]) mon("atomic_one: sizes or id"); ::reverse(int(id), k, yes, tx, px, py); return true; }
static bool one_fj(size_t id, size_t, size_t, size_t q, const VSet& r, VSet& s) { return two_fj(int(id), q, r, s); }
static bool one_rj(size_t id, size_t, size_t, size_t q, VSet& r, const VSet& s) { return two_rj(int(id), q, s, r); }
static bool one_rh(size_t id, size_t, size_t, size_t q, const VSet& r, const VB& s, VB& t, const VSet& u, VSet& v) { return two_rh(int(id), s, t, q, r, u, v); }
CPPAD_USER_ATOMIC(one_call, CppAD::vector, double, one_f, one_r, one_fj, one_rj, one_rh)
struct Algo { int id; void operator()(const V1& x, V1& y) { inline_call(id, x, y); } };

#endif
