// Derivative drivers. argument: drv | jac | hes | sub
#include "families.hpp"
#include "sparsity.hpp"
#include <valarray>
using namespace prog; using namespace battery; using namespace sp; using vf::Run;
typedef CppAD::ADFun<double> Fun1;
typedef CppAD::sparse_rcv<VS, VD> RCV;
static std::string g_what;
template <class F> void guard(Run& R, F&& f) {
    try { f(); } catch (vf::CppadError& e) { AD1::abort_recording(); R.fail(e.what()); }
    catch (std::exception& e) { AD1::abort_recording(); R.fail(std::string("exception ") + e.what()); } }
// -------------------------------------------------------------------------------------------- C05
// polynomials with known derivatives: F_i = a_i + sum_j b_ij x_j + sum_{j<=k} c_ijk x_j x_k + d_i x_0^3
struct Poly { size_t n, m; uint64_t code; double b(size_t i, size_t j) const { return ((code >> (i + j)) & 1) ? 0.0 : 1.0 + 0.25 * i - 0.5 * j; }
    double c(size_t i, size_t j, size_t k) const { if (j > k) std::swap(j, k); return ((code >> ((i + 2 * j + k) % 5)) & 1) ? 0.5 + 0.125 * i + 0.25 * j - 0.75 * k : 0.0; }
    double d(size_t i) const { return i % 2 ? 0.5 : -0.25; }
    template <class V, class S> S eval(const V& x, size_t i, S) const { S r(0.5 * i); for (size_t j = 0; j < n; j++) { if (b(i, j) != 0) r += S(b(i, j)) * x[j]; for (size_t k = j; k < n; k++) if (c(i, j, k) != 0) r += S(c(i, j, k)) * x[j] * x[k]; } return r + S(d(i)) * x[0] * x[0] * x[0]; }
    template <class V> double jac(const V& x, size_t i, size_t j) const { double r = b(i, j); for (size_t k = 0; k < n; k++) r += c(i, j, k) * x[k] * (j == k ? 2 : 1); return r + (j == 0 ? 3 * d(i) * x[0] * x[0] : 0); }
    template <class V> double hes(const V& x, size_t i, size_t j, size_t k) const { return c(i, j, k) * (j == k ? 2 : 1) + (j == 0 && k == 0 ? 6 * d(i) * x[0] : 0); } };
struct Ref { size_t n, m; std::vector<double> y, J, H; std::vector<char> bad; };
template <class V> bool drivers(Run& R, Fun1& f, const std::vector<double>& x0, const Ref& r, uint64_t rot) {
    size_t n = r.n, m = r.m; V x(n); for (size_t j = 0; j < n; j++) x[j] = x0[j];
    auto eq = [&](const char* what, double got, double want, size_t i, size_t j, size_t k) {
        if (r.bad.size() && r.bad[i]) return true; if (!std::isfinite(want) || std::fabs(want) > 1e8) return true;
        R.comparisons++; R.case_nontrivial = true; if (vf::close(got, want, 1e-10, 1e-11)) return true;
        R.fail(vf::fmt("%s: component (%zu,%zu,%zu) is %.17g, expected %.17g (n=%zu m=%zu)", what, i, j, k, got, want, n, m)); return false; };
    bool anybad = false; for (char c : r.bad) anybad |= c;
    // leave other values in the object first
    { V z(n); for (size_t j = 0; j < n; j++) z[j] = x0[(j + 1) % n] + 0.125; if (!anybad) f.Forward(0, z); }
    V J = f.Jacobian(x); if (J.size() != n * m) { R.fail("size of Jacobian"); return false; }
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (!anybad || std::isfinite(J[i * n + j])) if (!eq("Jacobian", J[i * n + j], r.J[i * n + j], i, j, 0)) return false;
    for (size_t l = 0; l < m; l++) { if (r.bad.size() && r.bad[l]) continue; V H = f.Hessian(x, l); for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) if (!eq("Hessian(x,l)", H[j * n + k], r.H[l * n * n + j * n + k], l, j, k)) return false; }
    if (!anybad) { V w(m); for (size_t i = 0; i < m; i++) w[i] = i % 2 ? -0.5 * i : 1.0 + i; V H = f.Hessian(x, w);
        for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) { double s = 0; for (size_t i = 0; i < m; i++) s += w[i] * r.H[i * n * n + j * n + k]; if (!eq("Hessian(x,w)", H[j * n + k], s, 0, j, k)) return false; } }
    for (size_t j = 0; j < n; j++) { V d = f.ForOne(x, j); for (size_t i = 0; i < m; i++) if (!eq("ForOne", d[i], r.J[i * n + j], i, j, 0)) return false; }
    for (size_t i = 0; i < m; i++) { if (r.bad.size() && r.bad[i]) continue; V d = f.RevOne(x, i); for (size_t j = 0; j < n; j++) if (!eq("RevOne", d[j], r.J[i * n + j], i, j, 0)) return false; }
    // all pairs, in an order that changes, with repeats
    std::vector<size_t> a, b; for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) { a.push_back((j + rot) % n); b.push_back(rot % 2 ? k : n - 1 - k); } for (size_t p = 1 + rot % 3; p < a.size(); p++) { a.push_back(a[p / 2]); b.push_back(b[p / 2]); if (p > 5) break; }
    for (size_t len : {a.size(), size_t(1)}) { VS ja(len), ka(len); for (size_t p = 0; p < len; p++) { ja[p] = a[p]; ka[p] = b[p]; }
        V d = f.ForTwo(x, ja, ka); for (size_t i = 0; i < m; i++) for (size_t p = 0; p < len; p++) if (!eq("ForTwo", d[i * len + p], r.H[i * n * n + a[p] * n + b[p]], i, a[p], b[p])) return false; }
    std::vector<size_t> ri, rj; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { size_t q = (i + rot) % m; if (r.bad.size() && r.bad[q]) continue; ri.push_back(q); rj.push_back((j + rot / 2) % n); } if (ri.size()) { ri.push_back(ri[0]); rj.push_back(rj[0]);
        VS ia(ri.size()), ja(ri.size()); for (size_t p = 0; p < ri.size(); p++) { ia[p] = ri[p]; ja[p] = rj[p]; }
        V d = f.RevTwo(x, ia, ja); size_t len = ri.size(); for (size_t k = 0; k < n; k++) for (size_t p = 0; p < len; p++) if (!eq("RevTwo", d[k * len + p], r.H[ri[p] * n * n + rj[p] * n + k], ri[p], rj[p], k)) return false; }
    return true;
}
static void polys(Run& R) {
    if (!R.family("shapes")) return;
    size_t N = R.thorough() ? 7 : 5; for (size_t n = 1; n <= N; n++) for (size_t m = 1; m <= N; m++) for (uint64_t code = 0; code < 32; code++) {
        Poly p{n, m, code}; if (!R.next([=] { return vf::fmt("polynomials n=%zu m=%zu code=%lu", n, m, code); })) continue;
        guard(R, [&] { V1 ax(n), ay(m); for (size_t j = 0; j < n; j++) ax[j] = 0.5; CppAD::Independent(ax); for (size_t i = 0; i < m; i++) ay[i] = p.eval(ax, i, AD1()); Fun1 f(ax, ay);
            if (code % 3 == 1) f.optimize();
            for (int t = 0; t < 3; t++) { std::vector<double> x(n); for (size_t j = 0; j < n; j++) x[j] = t == 2 ? 0.0 : 0.3 + 0.4 * j - (t ? 1.1 : 0);
                Ref r{n, m}; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r.J.push_back(p.jac(x, i, j)); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) r.H.push_back(p.hes(x, i, j, k));
                if (!(t == 0 ? drivers<VD>(R, f, x, r, code) : t == 1 ? drivers<std::vector<double>>(R, f, x, r, code) : drivers<std::valarray<double>>(R, f, x, r, code))) return; R.outcome(vf::hash_bytes(r.J.data(), r.J.size() * 8)); } });
    }
}
struct Drv { Run& R; void operator()(const Prog& g) { guard(R, [&] { body(g); }); }
    void body(const Prog& g) { auto& pts = std_points(); Fun1 f, f0; record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false); f0 = f; uint64_t rot = R.g_idx() / 8; if (rot % 3 == 1) f.optimize(); f.check_for_nan(false);
        for (size_t ip = 0; ip < 2; ip++) { auto& pt = pts[(rot + ip) % 4]; VD p(2), x(2); for (int j = 0; j < 2; j++) { p[j] = pt.p[j]; x[j] = pt.x[j]; } f.new_dynamic(p); f0.new_dynamic(p);
            Ref r{2, g.y.size()}; std::vector<char> bv; bad_deps(g, pt, bv, r.bad); r.J = num_jac(f0, x); r.H = num_hes(f0, x); for (size_t i = 0; i < r.m; i++) { bool fin = true; for (size_t k = 0; k < 2; k++) fin &= std::isfinite(r.J[i * 2 + k]); for (size_t k = 0; k < 4; k++) fin &= std::isfinite(r.H[i * 4 + k]); if (!fin) r.bad[i] = 1; } if (!drivers<VD>(R, f, pt.x, r, rot)) return; R.outcome(vf::hash_bytes(r.J.data(), r.J.size() * 8)); } } };
// V(x) = min_y F(x,y), with F = phi(x) + sum over blocks of (y - g(x))' C (y - g(x)) / 2, so that V = phi
struct ValueFun { size_t n, m, nell; int code; size_t ell() const { return nell; } typedef CppAD::vector<AD1> ad_vector;
    double C(size_t i, size_t j) const { return i == j ? 2.0 + i : ((code >> ((i + j) % 3)) & 1) ? 0.5 : 0.0; } double sgn() const { return code & 4 ? -1 : 1; }
    template <class V, class S> S gfun(const V& x, size_t i, S) const { S r(0.25 * i); for (size_t j = 0; j < n; j++) r += S(0.5 + 0.25 * i - 0.5 * j) * x[j] + (((i + j + code) % 2) ? S(0.75) * x[j] * x[0] : S(0.0)); return r; }
    template <class V, class S> S phi(const V& x, S) const { using CppAD::sin; using std::sin; S r(1.0); for (size_t j = 0; j < n; j++) r += S(0.5 * (j + 1)) * x[j] * x[(j + 1) % n] + (code & 1 ? sin(x[j]) : S(0.0)); return r; }
    AD1 s(size_t k, const ad_vector& x, const ad_vector& y) const { AD1 r = k == 0 ? phi(x, AD1()) : AD1(0.0); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) if ((i + j) % nell == k) r += (y[i] - gfun(x, i, AD1())) * (y[j] - gfun(x, j, AD1())) * (0.5 * sgn() * C(i, j)); return r; }
    ad_vector sy(size_t k, const ad_vector& x, const ad_vector& y) const { ad_vector r(m); for (size_t i = 0; i < m; i++) { r[i] = 0.0; for (size_t j = 0; j < m; j++) if ((i + j) % nell == k) r[i] += (y[j] - gfun(x, j, AD1())) * (sgn() * C(i, j)); } return r; }
    // BenderQuad
    ad_vector f(const ad_vector& x, const ad_vector& y) const { ad_vector r(1); r[0] = 0.0; for (size_t k = 0; k < nell; k++) r[0] += s(k, x, y); return r; }
    ad_vector h(const ad_vector& x, const VD& y) const { ad_vector ay(m); for (size_t i = 0; i < m; i++) ay[i] = y[i]; ad_vector r(m); for (size_t i = 0; i < m; i++) r[i] = 0.0; for (size_t k = 0; k < nell; k++) { ad_vector t = sy(k, x, ay); for (size_t i = 0; i < m; i++) r[i] += t[i]; } return r; }
    ad_vector dy(const VD&, const VD&, const ad_vector& h) const { std::vector<std::vector<double>> A(m, std::vector<double>(2 * m, 0)); for (size_t i = 0; i < m; i++) { for (size_t j = 0; j < m; j++) A[i][j] = sgn() * C(i, j); A[i][m + i] = 1; }
        for (size_t i = 0; i < m; i++) { double p = A[i][i]; for (auto& v : A[i]) v /= p; for (size_t k = 0; k < m; k++) if (k != i) { double q = A[k][i]; for (size_t j = 0; j < 2 * m; j++) A[k][j] -= q * A[i][j]; } }
        ad_vector r(m); for (size_t i = 0; i < m; i++) { r[i] = 0.0; for (size_t j = 0; j < m; j++) r[i] -= A[i][m + j] * h[j]; } return r; } };
static double det(std::vector<std::vector<double>> A) { double d = 1; for (size_t i = 0; i < A.size(); i++) { d *= A[i][i]; for (size_t k = i + 1; k < A.size(); k++) { double q = A[k][i] / A[i][i]; for (size_t j = i; j < A.size(); j++) A[k][j] -= q * A[i][j]; } } return d; }
static void values(Run& R) {
    if (!R.family("optval")) return;
    for (size_t n = 1; n <= 4; n++) for (size_t m = 1; m <= 4; m++) for (size_t ell = 1; ell <= 3; ell++) for (int code = 0; code < 8; code++) for (int t = 0; t < 2; t++) {
        ValueFun v{n, m, ell, code}; if (!R.next([=] { return vf::fmt("value function n=%zu m=%zu ell=%zu code=%d point %d", n, m, ell, code, t); })) continue;
        guard(R, [&] { VD x(n), y(m), g(1), gx(n), gxx(n * n); for (size_t j = 0; j < n; j++) x[j] = 0.3 + 0.4 * j - (t ? 1.25 : 0); for (size_t i = 0; i < m; i++) y[i] = v.gfun(x, i, double());
            V1 ax(n), ay(1); for (size_t j = 0; j < n; j++) ax[j] = x[j]; CppAD::Independent(ax); ay[0] = v.phi(ax, AD1()); Fun1 f(ax, ay); auto J = num_jac(f, x); auto H = num_hes(f, x); double val = f.Forward(0, x)[0];
            auto eq = [&](const char* what, double got, double want, size_t k) { R.comparisons++; if (!vf::close(got, want, 1e-9, 1e-10)) R.fail(vf::fmt("%s[%zu] is %.17g, expected %.17g", what, k, got, want)); };
            if (!(code & 4)) { CppAD::BenderQuad(x, y, v, g, gx, gxx); eq("BenderQuad g", g[0], val, 0); for (size_t j = 0; j < n; j++) eq("BenderQuad gx", gx[j], J[j], j); for (size_t j = 0; j < n * n; j++) eq("BenderQuad gxx", gxx[j], H[j], j); }
            for (int which = 0; which < 4; which++) { VD jac(which & 1 ? n : 0), hes(which & 2 ? n * n : 0); int sd = CppAD::opt_val_hes(x, y, v, jac, hes); if (jac.size() != (which & 1 ? n : 0) || hes.size() != (which & 2 ? n * n : 0)) R.fail("opt_val_hes changed a size");
                for (size_t j = 0; j < jac.size(); j++) eq("opt_val_hes jac", jac[j], J[j], j); for (size_t j = 0; j < hes.size(); j++) eq("opt_val_hes hes", hes[j], H[j], j);
                if (which & 2) { std::vector<std::vector<double>> A(m, std::vector<double>(m)); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) A[i][j] = v.sgn() * v.C(i, j); double d = det(A); eq("opt_val_hes signdet", sd, d > 0 ? 1 : -1, 0); } }
            R.outcome(vf::hash_bytes(H.data(), H.size() * 8) ^ vf::hash_bytes(J.data(), J.size() * 8)); });
    }
}
// -------------------------------------------------------------------------------------------- C18
// F_i = sum over pattern of a_ij x_j^2 + b_ij x_j (+ products) with distinct values everywhere
struct Mat { size_t m, n; uint64_t bits; bool has(size_t i, size_t j) const { return bits >> (i * n + j) & 1; }
    double a(size_t i, size_t j) const { return 1.0 + 0.37 * i + 0.11 * j * j; } double b(size_t i, size_t j) const { return -0.5 + 0.83 * j + 0.07 * i * i; }
    void rec(Fun1& f) const { V1 x(n), y(m); for (size_t j = 0; j < n; j++) x[j] = 0.5; CppAD::Independent(x); for (size_t i = 0; i < m; i++) { y[i] = 0.25 * i; for (size_t j = 0; j < n; j++) if (has(i, j)) y[i] += (a(i, j) * x[j] + b(i, j)) * x[j]; } f.Dependent(x, y); }
    template <class V> double jac(const V& x, size_t i, size_t j) const { return has(i, j) ? 2 * a(i, j) * x[j] + b(i, j) : 0.0; } };
// the same explorer with ColPack (drivers_colpack)
#if CPPAD_HAS_COLPACK
extern "C" void omp_set_num_threads(int);   // with more threads ColPack itself corrupts the heap for small graphs
static const int one_thread = (omp_set_num_threads(1), 1);
static const char *const CJ = "colpack", *const CH[2] = {"colpack.symmetric", "colpack.general"};
#else
static const char *const CJ = "cppad", *const CH[2] = {"cppad.symmetric", "cppad.general"};
#endif
static RC rc_of(size_t nr, size_t nc, const std::vector<std::pair<size_t, size_t>>& e) { RC p(nr, nc, e.size()); for (size_t k = 0; k < e.size(); k++) p.set(k, e[k].first, e[k].second); return p; }
static void reorder(std::vector<std::pair<size_t, size_t>>& e, int how) { if (how == 1) std::sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.second != b.second ? a.second < b.second : a.first < b.first; }); if (how == 2) std::reverse(e.begin(), e.end()); if (how == 3 && e.size() > 2) std::rotate(e.begin(), e.begin() + e.size() / 2, e.end()); }
template <class SetVec> SetVec old_pattern(const std::vector<std::pair<size_t, size_t>>& e, size_t nr, size_t nc);
template <> std::vector<bool> old_pattern(const std::vector<std::pair<size_t, size_t>>& e, size_t nr, size_t nc) { std::vector<bool> p(nr * nc, false); for (auto& q : e) p[q.first * nc + q.second] = true; return p; }
template <> std::vector<std::set<size_t>> old_pattern(const std::vector<std::pair<size_t, size_t>>& e, size_t nr, size_t) { std::vector<std::set<size_t>> p(nr); for (auto& q : e) p[q.first].insert(q.second); return p; }
struct JacCase { Run& R; Fun1 f; Mat A; std::vector<std::pair<size_t, size_t>> pat; VD x, x2;
    JacCase(Run& r, const Mat& a) : R(r), A(a), x(a.n), x2(a.n) { A.rec(f); for (size_t j = 0; j < A.n; j++) { x[j] = 0.3 + 0.45 * j; x2[j] = 1.75 - 0.6 * j; } }
    bool val(const char* what, const RCV& s, const VD& at, const std::vector<std::pair<size_t, size_t>>& e) { if (s.nnz() != e.size()) { R.fail(std::string(what) + ": number of entries changed"); return false; }
        for (size_t k = 0; k < e.size(); k++) { if (s.row()[k] != e[k].first || s.col()[k] != e[k].second) { R.fail(std::string(what) + ": position of an entry changed"); return false; } double w = A.jac(at, e[k].first, e[k].second); R.comparisons++; if (!vf::close(s.val()[k], w, 1e-12, 1e-13)) { R.fail(vf::fmt("%s: entry (%zu,%zu) is %.17g, expected %.17g", what, e[k].first, e[k].second, s.val()[k], w)); return false; } } return true; }
    bool run(const std::vector<std::pair<size_t, size_t>>& P, const std::vector<std::pair<size_t, size_t>>& S, uint64_t rot, bool full) {
        RC rp = rc_of(A.m, A.n, P), rs = rc_of(A.m, A.n, S), junk(1, 1, 0); RCV s(rs); CppAD::sparse_jac_work w;
        for (int meth = 0; meth < 5; meth++) { if (!full && meth < 4 && int(rot % 4) != meth && int((rot + 2) % 4) != meth) continue; size_t gm = meth == 0 ? 1 : meth == 1 ? 2 : meth == 2 ? A.n : 0;
            for (size_t k = 0; k < S.size(); k++) s.set(k, -7e77);
            const char* nm = meth < 3 ? "sparse_jac_for" : meth == 3 ? "sparse_jac_rev" : "subgraph_jac_rev"; w.clear();
            if (meth < 3) f.sparse_jac_for(gm, x, s, rp, CJ, w); else if (meth == 3) f.sparse_jac_rev(x, s, rp, CJ, w); else f.subgraph_jac_rev(x, s);
            if (!val(nm, s, x, S)) return false;
            if (meth < 4) { if (meth < 3) f.sparse_jac_for(gm, x2, s, junk, "", w); else f.sparse_jac_rev(x2, s, junk, "", w); if (!val((std::string(nm) + " with saved work").c_str(), s, x2, S)) return false; } }
        if (full || rot % 3 == 0) {
            std::vector<double> sx(x.data(), x.data() + A.n), jac(S.size()); VS row(S.size()), col(S.size()); for (size_t k = 0; k < S.size(); k++) { row[k] = S[k].first; col[k] = S[k].second; }
            for (int meth = 0; meth < 4; meth++) { CppAD::sparse_jacobian_work ow; for (int again = 0; again < 2; again++) { std::fill(jac.begin(), jac.end(), -7e77); VD& at = again ? x2 : x; std::vector<double> sv(at.data(), at.data() + A.n);
                if (meth & 1) { auto p = old_pattern<std::vector<std::set<size_t>>>(P, A.m, A.n); if (meth & 2) f.SparseJacobianReverse(sv, p, row, col, jac, ow); else f.SparseJacobianForward(sv, p, row, col, jac, ow); }
                else { auto p = old_pattern<std::vector<bool>>(P, A.m, A.n); if (meth & 2) f.SparseJacobianReverse(sv, p, row, col, jac, ow); else f.SparseJacobianForward(sv, p, row, col, jac, ow); }
                for (size_t k = 0; k < S.size(); k++) { double want = A.jac(at, S[k].first, S[k].second); R.comparisons++; if (!vf::close(jac[k], want, 1e-12, 1e-13)) { R.fail(vf::fmt("SparseJacobian %s %s%s: entry (%zu,%zu) is %.17g, expected %.17g", meth & 2 ? "Reverse" : "Forward", meth & 1 ? "sets" : "bools", again ? " with saved work" : "", S[k].first, S[k].second, jac[k], want)); return false; } } } }
        }
        return true; }
    bool dense(const std::vector<std::pair<size_t, size_t>>& P) { std::vector<double> sx(x.data(), x.data() + A.n); std::vector<double> r[3] = {f.SparseJacobian(sx), f.SparseJacobian(sx, old_pattern<std::vector<bool>>(P, A.m, A.n)), f.SparseJacobian(sx, old_pattern<std::vector<std::set<size_t>>>(P, A.m, A.n))};
        for (int t = 0; t < 3; t++) for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) { R.comparisons++; double w = A.jac(x, i, j); if (!vf::close(r[t][i * A.n + j], w, 1e-12, 1e-13)) { R.fail(vf::fmt("SparseJacobian(x%s): (%zu,%zu) is %.17g, expected %.17g", t == 0 ? "" : t == 1 ? ",bools" : ",sets", i, j, r[t][i * A.n + j], w)); return false; } }
        // all selections of the second syntax of subgraph_jac_rev
        for (uint64_t d = 0; d < 1ull << A.n; d++) for (uint64_t q = 0; q < 1ull << A.m; q++) { VB sd(A.n), sr(A.m); for (size_t j = 0; j < A.n; j++) sd[j] = d >> j & 1; for (size_t i = 0; i < A.m; i++) sr[i] = q >> i & 1; RCV out; f.subgraph_jac_rev(sd, sr, x, out); std::set<std::pair<size_t, size_t>> seen;
            for (size_t k = 0; k < out.nnz(); k++) { size_t i = out.row()[k], j = out.col()[k]; R.comparisons++; if (!sd[j] || !sr[i] || !seen.insert({i, j}).second || !vf::close(out.val()[k], A.jac(x, i, j), 1e-12, 1e-13)) { R.fail(vf::fmt("subgraph_jac_rev selections %lu,%lu: entry (%zu,%zu) = %.17g", d, q, i, j, out.val()[k])); return false; } }
            for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) if (sd[j] && sr[i] && A.has(i, j) && !seen.count({i, j})) { R.fail(vf::fmt("subgraph_jac_rev selections %lu,%lu: entry (%zu,%zu) missing", d, q, i, j)); return false; } }
        return true; } };
static std::vector<std::pair<size_t, size_t>> ent(uint64_t bits, size_t m, size_t n) { std::vector<std::pair<size_t, size_t>> e; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (bits >> (i * n + j) & 1) e.push_back({i, j}); return e; }
static void jac(Run& R) {
    bool th = R.thorough();
    static const size_t sh[][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 5}, {5, 1}, {2, 4}, {4, 2}};
    // every true pattern, every pattern that contains it (up to six places) or {true, full}, every subset of entries
    for (auto& d : sh) { size_t m = d[0], n = d[1], mn = m * n; if (!R.family(vf::fmt("sub%zux%zu", m, n))) continue; uint64_t top = (1ull << mn) - 1;
        for (uint64_t t = 0; t <= top; t++) { if (!R.next([=] { return vf::fmt("Jacobian %zu by %zu pattern %lx, all subsets", m, n, t); })) continue;
            guard(R, [&] { JacCase c(R, Mat{m, n, t}); uint64_t rot = 0; if (!c.dense(ent(t, m, n)) || !c.dense(ent(top, m, n))) return; R.outcome(t * 100 + mn);
                for (uint64_t p = t;; p = (p + 1) | t) { if (mn <= 6 || p == t || p == top || (th && mn <= 9)) { auto P = ent(p, m, n); reorder(P, p % 4);
                    for (uint64_t s = p;; s = (s - 1) & p) { auto S = ent(s, m, n); reorder(S, (s + p) % 4); if (!c.run(P, S, ++rot, mn <= 4 || (th && mn <= 8))) return; if (s == 0) break; } }
                    if (p == top) break; } }); } }
    // every true pattern of larger shapes: subsets all, one row, one column, diagonal
    for (int k = 0; k < (th ? 4 : 2); k++) { static const size_t big[][2] = {{4, 4}, {3, 5}, {5, 3}, {2, 8}}; size_t m = big[k][0], n = big[k][1]; if (!R.family(vf::fmt("pat%zux%zu", m, n))) continue;
        for (uint64_t t = 1; t < 1ull << (m * n); t++) { if (!R.next([=] { return vf::fmt("Jacobian %zu by %zu pattern %lx", m, n, t); })) continue;
            guard(R, [&] { JacCase c(R, Mat{m, n, t}); uint64_t rot = t / 8; R.outcome(t * 100 + m * n); auto P = ent(t, m, n); reorder(P, rot % 4); auto S = ent(t, m, n); reorder(S, rot / 4 % 4); if (!c.run(P, S, rot, th)) return;
                std::vector<std::pair<size_t, size_t>> q; for (auto& e : S) if ((e.first + e.second + rot) % 2) q.push_back(e); if (!c.run(P, q, rot + 1, th)) return;
                q.clear(); for (auto& e : S) if (e.first == rot % m || e.second == rot % n) q.push_back(e); if (!c.run(P, q, rot + 2, th)) return; }); } }
    // the program families: sparsity from the library itself
    struct B { Run& R; bool vec; void operator()(const Prog& g) { guard(R, [&] { body(g); }); }
        void body(const Prog& g) { auto& pts = vec ? vec_points() : std_points(); Fun1 f; record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false); Fun1 f0; f0 = f; uint64_t rot = R.g_idx() / 8; if (rot % 3 == 1) f.optimize(); size_t m = g.y.size(), n = 2; RC in(n, n, n), out; for (size_t j = 0; j < n; j++) in.set(j, j, j); f.for_jac_sparsity(in, false, false, rot % 2, out); RCV s(out);
            for (size_t ip = 0; ip < pts.size(); ip++) { auto& pt = pts[(ip + rot) % pts.size()]; VD p(2), x(2); for (int j = 0; j < 2; j++) { p[j] = pt.p[j]; x[j] = pt.x[j]; } std::vector<char> bv, bd; bad_deps(g, pt, bv, bd); bool any = false; for (char c : bd) any |= c; f.new_dynamic(p); f0.new_dynamic(p); auto J = num_jac(f0, x); if (any) continue; bool fin = true; for (double v : J) fin &= std::isfinite(v) && std::fabs(v) < 1e8; if (!fin) continue; CppAD::sparse_jac_work w;
                for (int meth = 0; meth < 4; meth++) { for (size_t k = 0; k < s.nnz(); k++) s.set(k, 1e99); w.clear(); if (meth < 2) f.sparse_jac_for(1 + meth, x, s, out, CJ, w); else if (meth == 2) f.sparse_jac_rev(x, s, out, CJ, w); else f.subgraph_jac_rev(x, s);
                    std::vector<double> D(m * n, 0.0); for (size_t k = 0; k < s.nnz(); k++) D[s.row()[k] * n + s.col()[k]] = s.val()[k]; R.case_nontrivial = true;
                    for (size_t k = 0; k < m * n; k++) { R.comparisons++; if (!vf::close(D[k], J[k], 1e-10, 1e-11)) { R.fail(vf::fmt("method %d entry %zu is %.17g, expected %.17g", meth, k, D[k], J[k])); return; } } } R.outcome(vf::hash_bytes(J.data(), J.size() * 8)); } } };
    Opt o; B b{R, false}, v{R, true}; depth1(R, o, b); depth2(R, o, b); vecad(R, o, 3, v, "vec3"); nests(R, "nest1", 1, th, b); mixed(R, th, b); shared(R, "cse_atom", {ATA, ATB, ADD, MUL}, {0, 1, 2}, th ? 3 : 2, b, 2);
}
// -------------------------------------------------------------------------------------------- C19
struct Sym { size_t n; uint64_t bits; // upper triangle bit index
    static size_t pos(size_t n, size_t i, size_t j) { if (i > j) std::swap(i, j); return i * n - i * (i + 1) / 2 + j; }
    bool has(size_t i, size_t j) const { return bits >> pos(n, i, j) & 1; }
    double a(size_t i, size_t j) const { if (i > j) std::swap(i, j); return 1.0 + 0.37 * i + 0.71 * j * j; }
    void rec(Fun1& f) const { V1 x(n), y(2); for (size_t j = 0; j < n; j++) x[j] = 0.5; CppAD::Independent(x); y[0] = 1.0; y[1] = x[0]; for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) if (has(i, j)) { y[0] += a(i, j) * x[i] * x[j]; if (i == j) y[1] += x[i] * x[i] * x[i]; else y[1] += 0.3 * x[i] * x[j]; } f.Dependent(x, y); }
    template <class V> double hes(const V& x, const V& w, size_t i, size_t j) const { if (!has(i, j)) return 0; return w[0] * a(i, j) * (i == j ? 2 : 1) + w[1] * (i == j ? 6 * x[i] : 0.3); } };
struct HesCase { Run& R; Fun1 f; Sym A; VD x, x2, w, w2;
    HesCase(Run& r, const Sym& a) : R(r), A(a), x(a.n), x2(a.n), w(2), w2(2) { A.rec(f); for (size_t j = 0; j < A.n; j++) { x[j] = 0.3 + 0.45 * j; x2[j] = 1.75 - 0.6 * j; } w[0] = 1.5; w[1] = -0.25; w2[0] = -0.75; w2[1] = 2; }
    typedef std::vector<std::pair<size_t, size_t>> E;
    bool val(const char* what, const char* col, const RCV& s, const VD& at, const VD& wt, const E& e) { for (size_t k = 0; k < e.size(); k++) { double v = A.hes(at, wt, e[k].first, e[k].second); R.comparisons++; if (s.row()[k] != e[k].first || s.col()[k] != e[k].second || !vf::close(s.val()[k], v, 1e-12, 1e-13)) { R.fail(vf::fmt("%s %s: entry (%zu,%zu) is %.17g, expected %.17g", what, col, e[k].first, e[k].second, s.val()[k], v)); return false; } } return true; }
    bool run(const E& P, const E& S, uint64_t rot, bool full) {
        RC rp = rc_of(A.n, A.n, P), rs = rc_of(A.n, A.n, S), junk(1, 1, 0); RCV s(rs); CppAD::sparse_hes_work hw; static const char* col[2] = {CH[0], CH[1]};
        for (int c = 0; c < 2; c++) { hw.clear(); for (size_t k = 0; k < S.size(); k++) s.set(k, 3e77); f.sparse_hes(x, w, s, rp, col[c], hw); if (!val("sparse_hes", col[c], s, x, w, S)) return false; if (full || rot % 2 == 0) { f.sparse_hes(x2, w2, s, junk, "", hw); if (!val("sparse_hes with saved work", col[c], s, x2, w2, S)) return false; } }
        if (full || rot % 3 == 0) { VS row(S.size()), cl(S.size()); for (size_t k = 0; k < S.size(); k++) { row[k] = S[k].first; cl[k] = S[k].second; } VD h(S.size());
            for (int meth = 0; meth < 4; meth++) { CppAD::sparse_hessian_work ow; ow.color_method = col[meth & 1]; for (int again = 0; again < 2; again++) { VD &at = again ? x2 : x, &wt = again ? w2 : w; for (size_t k = 0; k < h.size(); k++) h[k] = 3e77;
                if (meth & 2) f.SparseHessian(at, wt, old_pattern<std::vector<std::set<size_t>>>(P, A.n, A.n), row, cl, h, ow); else f.SparseHessian(at, wt, old_pattern<std::vector<bool>>(P, A.n, A.n), row, cl, h, ow);
                for (size_t k = 0; k < S.size(); k++) { double v = A.hes(at, wt, S[k].first, S[k].second); R.comparisons++; if (!vf::close(h[k], v, 1e-12, 1e-13)) { R.fail(vf::fmt("SparseHessian %s %s%s: entry (%zu,%zu) is %.17g, expected %.17g", meth & 2 ? "sets" : "bools", col[meth & 1], again ? " with saved work" : "", S[k].first, S[k].second, h[k], v)); return false; } } } } }
        return true; }
    bool dense(const E& P) { VD r[3] = {f.SparseHessian(x, w), f.SparseHessian(x, w, old_pattern<std::vector<bool>>(P, A.n, A.n)), f.SparseHessian(x, w, old_pattern<std::vector<std::set<size_t>>>(P, A.n, A.n))};
        for (int t = 0; t < 3; t++) for (size_t i = 0; i < A.n; i++) for (size_t j = 0; j < A.n; j++) { R.comparisons++; double v = A.hes(x, w, i, j); if (!vf::close(r[t][i * A.n + j], v, 1e-12, 1e-13)) { R.fail(vf::fmt("SparseHessian(x,w%s): (%zu,%zu) is %.17g, expected %.17g", t == 0 ? "" : t == 1 ? ",bools" : ",sets", i, j, r[t][i * A.n + j], v)); return false; } } return true; }
    E full_of(uint64_t bits) const { Sym b{A.n, bits}; E e; for (size_t i = 0; i < A.n; i++) for (size_t j = 0; j < A.n; j++) if (b.has(i, j)) e.push_back({i, j}); return e; } };
// drop from the pattern the rows and columns that do not matter: index i such that neither row i nor column i is in the subset
static HesCase::E reduce(const HesCase::E& P, const HesCase::E& S) { std::set<size_t> u; for (auto& e : S) { u.insert(e.first); u.insert(e.second); } HesCase::E r; for (auto& e : P) if (u.count(e.first) && u.count(e.second)) r.push_back(e); return r; }
static void hes(Run& R) {
    bool th = R.thorough();
    for (size_t n = 1; n <= 3; n++) { if (!R.family(vf::fmt("sub%zu", n))) continue; size_t nb = n * (n + 1) / 2; uint64_t top = (1ull << nb) - 1;
        for (uint64_t t = 0; t <= top; t++) { if (!R.next([=] { return vf::fmt("Hessian n=%zu pattern %lx, all subsets of entries", n, t); })) continue;
            guard(R, [&] { HesCase c(R, Sym{n, t}); uint64_t rot = 0; R.outcome(t * 10 + n); if (!c.dense(c.full_of(t)) || !c.dense(c.full_of(top))) return;
                for (uint64_t p = t;; p = (p + 1) | t) { auto P = c.full_of(p); size_t np = P.size(); for (uint64_t s = 0; s < 1ull << np; s++) { HesCase::E S; for (size_t k = 0; k < np; k++) if (s >> k & 1) S.push_back(P[k]); reorder(S, (s + p) % 4); auto Q = P; reorder(Q, s % 3); if (!c.run(Q, S, ++rot, th || n < 3)) return; if (rot % 3 == 1) if (!c.run(reduce(P, S), S, rot, false)) return; } if (p == top) break; } }); } }
    for (size_t n = 4; n <= (th ? 6 : 5); n++) { if (!R.family(vf::fmt("pat%zu", n))) continue; size_t nb = n * (n + 1) / 2;
        for (uint64_t t = 1; t < 1ull << nb; t++) { if (n == 6 && t % 16 != 1 && (t >> 6) % 2) continue; if (!R.next([=] { return vf::fmt("Hessian n=%zu pattern %lx", n, t); })) continue;
            guard(R, [&] { HesCase c(R, Sym{n, t}); uint64_t rot = t / 8; R.outcome(t * 10 + n); auto P = c.full_of(t); auto Q = P; reorder(Q, rot % 4); HesCase::E S;
                if (!c.run(Q, P, rot, n == 4)) return; if (n == 4 && !c.dense(P)) return;
                S.clear(); for (auto& e : P) if (e.first >= e.second) S.push_back(e); reorder(S, rot / 4 % 4); if (!c.run(Q, S, rot + 1, n == 4)) return;
                S.clear(); for (auto& e : P) if (e.first <= e.second) S.push_back(e); reorder(S, rot / 4 % 4); if (!c.run(Q, S, rot + 2, n == 4)) return;
                S.clear(); for (auto& e : P) if ((e.first * 2 + e.second + rot) % 3) S.push_back(e); if (!c.run(n == 4 ? reduce(Q, S) : Q, S, rot, n == 4)) return;
                if (n == 4) for (uint64_t s = 0; s < (1ull << P.size()); s += 1 + (th ? 0 : (1ull << P.size()) / 67)) { S.clear(); for (size_t k = 0; k < P.size(); k++) if (s >> k & 1) S.push_back(P[k]); if (!c.run(Q, S, s, false)) return; } }); } }
    struct B { Run& R; void operator()(const Prog& g) { guard(R, [&] { body(g); }); }
        void body(const Prog& g) { auto& pts = std_points(); Fun1 f; record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false); Fun1 f0; f0 = f; uint64_t rot = R.g_idx() / 8; if (rot % 3 == 1) f.optimize(); size_t m = g.y.size(), n = 2; RC out; f.for_hes_sparsity(all(n), all(m), rot % 2, out); RCV s(out); VD w(m); for (size_t i = 0; i < m; i++) w[i] = 1.0 - 0.75 * i;
            for (size_t ip = 0; ip < 2; ip++) { auto& pt = pts[(ip + rot) % 4]; VD p(2), x(2); for (int j = 0; j < 2; j++) { p[j] = pt.p[j]; x[j] = pt.x[j]; } auto sn = singular_nodes(g, run<double>(g, pt.x, pt.p), true); bool any = false; for (int i : g.y) any |= sn[i]; if (any) continue; f.new_dynamic(p); f0.new_dynamic(p); auto H = num_hes(f0, x); bool fin = true; for (double v : H) fin &= std::isfinite(v) && std::fabs(v) < 1e8; if (!fin) continue; CppAD::sparse_hes_work hw;
                for (int meth = 0; meth < 2; meth++) { for (size_t k = 0; k < s.nnz(); k++) s.set(k, 1e99); hw.clear(); f.sparse_hes(x, w, s, out, CH[meth], hw); std::vector<double> D(n * n, 0.0); for (size_t k = 0; k < s.nnz(); k++) D[s.row()[k] * n + s.col()[k]] = s.val()[k]; R.case_nontrivial = true;
                    for (size_t k = 0; k < n * n; k++) { double v = 0; for (size_t i = 0; i < m; i++) v += w[i] * H[i * n * n + k]; R.comparisons++; if (!vf::close(D[k], v, 1e-9, 1e-9)) { R.fail(vf::fmt("coloring %d entry %zu is %.17g, expected %.17g", meth, k, D[k], v)); return; } } } R.outcome(vf::hash_bytes(H.data(), H.size() * 8)); } } };
    Opt o; B b{R}; depth1(R, o, b); depth2(R, o, b); nests(R, "nest1", 1, th, b); mixed(R, th, b);
}
// -------------------------------------------------------------------------------------------- C20
struct Sub { Run& R; bool vec; void operator()(const Prog& g) { guard(R, [&] { body(g); }); }
    void body(const Prog& g) {
        auto& pts = vec ? vec_points() : std_points(); Fun1 f, f0; record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false); f0 = f; uint64_t rot = R.g_idx() / 8; if (rot % 3 == 1) f.optimize(); size_t m = g.y.size(), n = 2, K = 3; bool th = R.thorough();
        std::vector<std::vector<size_t>> perms; { std::vector<size_t> p(m); for (size_t i = 0; i < m; i++) p[i] = i; do perms.push_back(p); while (std::next_permutation(p.begin(), p.end())); }
        for (uint64_t d = 0; d < 4; d++) for (size_t ip = 0; ip < pts.size(); ip++) {
            if (!th && (ip + d + rot) % 2) continue;
            auto& pt = pts[ip]; VD p(2); for (int j = 0; j < 2; j++) p[j] = pt.p[j]; f.new_dynamic(p); f0.new_dynamic(p); std::vector<char> bv, bd; bad_deps(g, pt, bv, bd);
            { auto s = singular_nodes(g, run<double>(g, pt.x, pt.p)); for (size_t i = 0; i < m; i++) bd[i] |= s[g.y[i]]; }
            VB sel(n); for (size_t j = 0; j < n; j++) sel[j] = d >> j & 1;
            VD xq(n * K); for (size_t j = 0; j < n; j++) for (size_t k = 0; k < K; k++) xq[j * K + k] = k == 0 ? pt.x[j] : sel[j] ? (k == 1 ? 0.7 - j : 0.4 + 0.5 * j) : 0.0;
            f.Forward(K - 1, xq); f0.Forward(K - 1, xq);
            std::vector<VD> want(m * 3); 
            const auto& perm = perms[(rot + d * 7 + ip * 3) % perms.size()];
            f.subgraph_reverse(sel);
            for (size_t pos = 0; pos < m; pos++) { size_t ell = perm[pos]; size_t q = 1 + (rot + pos + ip) % K;
                switch ((rot + pos * 3 + d) % 6) { // something else in between: none of these starts another subgraph calculation
                    case 1: { VD w(m); for (size_t i = 0; i < m; i++) w[i] = 1.0; bool any = false; for (char c : bd) any |= c; if (!any) f.Reverse(2, w); break; }
                    case 2: for_jac(f, identity(n), n, false, false, false); f.size_forward_set(0); break;
                    case 3: { f.capacity_order(K + 1); break; }
                    case 4: f.Forward(K - 1, xq); break;
                    case 5: if (pos) { CppAD::ADFun<double> h; h = f; f.swap(h); f.subgraph_reverse(sel); } break;   // a copy has no selection: select again
                    default: break; }
                VS col; VD dw; f.subgraph_reverse(q, ell, col, dw);
                if (bd[ell]) continue;
                VD w(m * q); for (size_t k = 0; k < m * q; k++) w[k] = 0; w[ell * q + q - 1] = 1; VD ref = f0.Reverse(q, w);
                if (dw.size() != n * q) { R.fail("subgraph_reverse: size of dw"); return; }
                std::vector<char> in(n, 0); for (size_t c = 0; c < col.size(); c++) { if (col[c] >= n || !sel[col[c]] || in[col[c]] || (c && col[c] < col[c - 1])) { R.fail(vf::fmt("subgraph_reverse: column list is wrong for dependent %zu", ell)); return; } in[col[c]] = 1; }
                for (size_t j = 0; j < n; j++) if (sel[j]) for (size_t k = 0; k < q; k++) { double v = ref[j * q + k], got = in[j] ? dw[j * q + k] : 0.0; if (!std::isfinite(v) || std::fabs(v) > 1e8) continue; R.comparisons++; R.case_nontrivial = true; if (!vf::close(got, v, 1e-10, 1e-11)) { R.fail(vf::fmt("subgraph_reverse(%zu, %zu) selection %lu: partial for x%zu order %zu is %.17g%s, expected %.17g", q, ell, d, j, k, got, in[j] ? "" : " (not in col)", v)); return; } }
                R.outcome(vf::hash_bytes(dw.data(), 0) ^ vf::hash_bytes(ref.data(), ref.size() * 8));
            }
        }
    } };
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler); the_atom(); the_mix();
    std::string mode = R.args.size() ? R.args[0] : ""; bool th = R.thorough();
    return vf::guarded_main(R, [&] {
        Opt o, l; l.y = Y_LAST;
        if (mode == "drv") { polys(R); values(R); Drv d{R}; depth1(R, o, d); depth2(R, o, d); if (th) depth3(R, o, d); depth4(R, o, d); nests(R, "nest1", 1, th, d); mixed(R, th, d); }
        if (mode == "jac") jac(R);
        if (mode == "hes") hes(R);
        if (mode == "sub") { Sub c{R, false}, v{R, true}; depth1(R, o, c); depth2(R, o, c); if (th) depth3(R, o, c); depth4(R, o, c); vecad(R, o, 2, v, "vec2"); vecad(R, o, 3, v, "vec3"); vecad(R, l, 4, v, "vec4"); nests(R, "nest1", 1, th, c); if (th) nests(R, "nest2", 2, false, c);
            for (int k = 1; k <= 3; k++) sums(R, vf::fmt("sums%d", k).c_str(), k, c); shared(R, "cse_atom", {ATA, ATB, ADD, MUL}, {0, 1, 2}, th ? 3 : 2, c, 2); shared(R, "share3", {MUL, SIN, ADD}, {0, 1}, 3, c, 2); mixed(R, th, c); }
    });
}
