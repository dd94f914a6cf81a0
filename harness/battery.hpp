// What a user can observe of an ADFun<double>: values, Taylor coefficients, adjoints. Used to compare two functions.
#ifndef BATTERY_HPP
#define BATTERY_HPP
#include "adhook.hpp"
namespace battery {
using namespace adhook;
typedef std::vector<double> SV;
struct Point { std::vector<double> x, p; };
inline const std::vector<Point>& std_points() {
    static std::vector<Point> v = {{{0.3, 0.7}, {0.45, -0.8}}, {{1.5, -0.6}, {1.2, 2.0}}, {{-0.4, 1.25}, {0.0, 1.0}}, {{1.25, 1.25}, {1.25, -1.5}}};
    return v;
}
inline const std::vector<Point>& vec_points() {   // x0 and p0 are usable as indices 0, 1, 2
    static std::vector<Point> v = {{{0.3, 0.7}, {1.2, -0.8}}, {{1.5, -0.6}, {2.0, 0.5}}, {{2.25, 1.25}, {0.0, 1.0}}};
    return v;
}
struct Sig { std::vector<double> v; std::vector<int> dep; std::vector<short> what; };   // value, dependent it belongs to, kind
// kind: 0 value, 1..K forward order, 100+q reverse
struct Options { size_t K = 2; bool reverse = true; bool multi = false; size_t Q = 0; };
inline void observe(CppAD::ADFun<double>& f, const Point& pt, Sig& s, const Options& o = Options(), const std::vector<char>* skip_dep = nullptr) {
    size_t n = f.Domain(), m = f.Range();
    if (f.size_dyn_ind()) { VD p(f.size_dyn_ind()); for (size_t i = 0; i < p.size(); i++) p[i] = pt.p[i]; f.new_dynamic(p); }
    VD x(n); for (size_t j = 0; j < n; j++) x[j] = pt.x[j];
    VD y = f.Forward(0, x);
    auto put = [&](double v, size_t i, int w) { s.v.push_back(v); s.dep.push_back((int)i); s.what.push_back((short)w); };
    for (size_t i = 0; i < m; i++) put(y[i], i, 0);
    for (size_t k = 1; k <= o.K; k++) {
        VD xk(n); for (size_t j = 0; j < n; j++) xk[j] = k == 1 ? (j % 2 ? -0.3 : 0.7) + 0.05 * j : (j % 2 ? 0.8 : -0.4) - 0.1 * (k - 2);
        y = f.Forward(k, xk);
        for (size_t i = 0; i < m; i++) put(y[i], i, (int)k);
    }
    if (o.reverse) for (size_t i = 0; i < m; i++) if (!skip_dep || !(*skip_dep)[i]) for (size_t q = 1; q <= (o.Q ? o.Q : o.K + 1); q += o.K) {
        VD w(m); for (size_t k = 0; k < m; k++) w[k] = k == i ? 1.0 : 0.0;
        VD d = f.Reverse(q, w);
        for (size_t k = 0; k < d.size(); k++) put(d[k], i, 100 + (int)q);
        if (q > 1) { w.resize(m * q); for (size_t k = 0; k < m; k++) for (size_t l = 0; l < q; l++) w[k * q + l] = k == i ? 1.0 - 0.4 * l : 0.0; d = f.Reverse(q, w); for (size_t k = 0; k < d.size(); k++) put(d[k], i, 200 + (int)q); }   // all orders weighted
    }
    if (o.multi) {
        f.Forward(0, x);
        for (size_t q = 1; q <= o.K; q++) { VD xq(n * 2); for (size_t k = 0; k < xq.size(); k++) xq[k] = 0.5 - 0.25 * k + 0.1 * q; y = f.Forward(q, 2, xq); for (size_t k = 0; k < y.size(); k++) put(y[k], k / 2, 50 + (int)q); }
    }
}
// compare; want is the trusted one. Dependents with skip are not compared; where the trusted value is not finite only that is checked loosely.
inline std::string diff(const Sig& want, const Sig& got, const std::vector<char>& bad_val, const std::vector<char>& bad_der, vf::Run& R, double rel = 1e-9, double abs = 1e-10) {
    if (want.v.size() != got.v.size()) return vf::fmt("number of observations %zu, expected %zu", got.v.size(), want.v.size());
    for (size_t k = 0; k < want.v.size(); k++) {
        size_t i = want.dep[k];
        if (want.what[k] == 0 ? bad_val[i] : bad_der[i]) continue;
        if (!std::isfinite(want.v[k]) || std::fabs(want.v[k]) > 1e9) { R.count["skipped_nonfinite"]++; continue; }
        R.comparisons++;
        if (!vf::close(got.v[k], want.v[k], rel, abs)) return vf::fmt("dependent %zu, %s%d: %.17g, expected %.17g", i, want.what[k] == 0 ? "value order " : want.what[k] < 50 ? "forward order " : want.what[k] < 100 ? "multi direction order 50+" : "reverse 100+", want.what[k], got.v[k], want.v[k]);
    }
    return "";
}
inline void bad_deps(const prog::Prog& g, const Point& pt, std::vector<char>& bv, std::vector<char>& bd) {
    std::vector<double> v = prog::run<double>(g, pt.x, pt.p);
    auto a = prog::bad_nodes(g, v, false), b = prog::bad_nodes(g, v, true);
    bv.clear(); bd.clear();
    for (int i : g.y) { bv.push_back(a[i]); bd.push_back(b[i]); }
}
// the whole comparison of two functions built from program g
inline std::string compare(vf::Run& R, const prog::Prog& g, CppAD::ADFun<double>& want, CppAD::ADFun<double>& got, const std::vector<Point>& pts, const Options& o = Options(), std::vector<Sig>* cache = nullptr, uint64_t* h = nullptr) {
    for (size_t ip = 0; ip < pts.size(); ip++) {
        std::vector<char> bv, bd; bad_deps(g, pts[ip], bv, bd);
        Sig a, b; Sig* pa = &a;
        if (cache && cache->size() > ip) pa = &(*cache)[ip]; else { observe(want, pts[ip], a, o, &bd); if (cache) { cache->push_back(a); pa = &cache->back(); } }
        observe(got, pts[ip], b, o, &bd);
        std::string e = diff(*pa, b, bv, bd, R);
        if (e.size()) { e += " at x=("; for (double v : pts[ip].x) e += vf::fmt("%g ", v); e += ") p=("; for (double v : pts[ip].p) e += vf::fmt("%g ", v); return e + ")"; }
        if (h) *h = vf::hash_bytes(b.v.data(), b.v.size() * 8, *h);
    }
    return "";
}
}
#endif
