// C39: the Ipopt interfaces, ipopt::solve (solve_callback) and cppad_ipopt_nlp: every sequence of calls that Ipopt may make.
// argument: solve | nlp | run
#include "vfc.hpp"
#include <cppad/cppad.hpp>
#include <cppad/ipopt/solve.hpp>
#include "../cppad_ipopt/src/cppad_ipopt_nlp.hpp"
using vf::Run; using std::string; using std::vector; using Ipopt::TNLP; using Ipopt::Index; using Ipopt::Number;
typedef CppAD::AD<double> A; typedef CppAD::vector<double> DV; typedef CppAD::vector<A> AV;
// value, gradient and Hessian with respect to at most 4 arguments
enum { N = 4 };
struct H2 { double v, g[N], h[N][N]; H2(double a = 0) : v(a) { for (int i = 0; i < N; i++) { g[i] = 0; for (int j = 0; j < N; j++) h[i][j] = 0; } } };
static H2 operator+(const H2& a, const H2& b) { H2 r(a.v + b.v); for (int i = 0; i < N; i++) { r.g[i] = a.g[i] + b.g[i]; for (int j = 0; j < N; j++) r.h[i][j] = a.h[i][j] + b.h[i][j]; } return r; }
static H2 operator*(const H2& a, const H2& b) { H2 r(a.v * b.v); for (int i = 0; i < N; i++) { r.g[i] = a.g[i] * b.v + a.v * b.g[i]; for (int j = 0; j < N; j++) r.h[i][j] = a.h[i][j] * b.v + a.v * b.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i]; } return r; }
static H2 sin(const H2& a) { H2 r(std::sin(a.v)); for (int i = 0; i < N; i++) { r.g[i] = std::cos(a.v) * a.g[i]; for (int j = 0; j < N; j++) r.h[i][j] = std::cos(a.v) * a.h[i][j] - std::sin(a.v) * a.g[i] * a.g[j]; } return r; }
static H2 CondExpLt(const H2& l, const H2& r, const H2& t, const H2& f) { return l.v < r.v ? t : f; }
// component functions; hi: which branch the recording contains (kind 7)
enum { NK = 9 };
template <class S, class V> S comp(int k, const V& x, size_t n, bool hi) {
    using std::sin; using CppAD::sin; using CppAD::CondExpLt; const S &a = x[0], &b = x[n - 1]; size_t m = n > 1 ? 1 : 0;
    switch (k) {
        case 0: return a; case 1: return b * b; case 2: return a * b; case 3: return a * a * a + S(2.0) * x[m]; case 4: return S(2.5);
        case 5: { S s = S(0.0); for (size_t j = 0; j < n; j++) s = s + x[j] * x[j] * x[(j + 1) % n]; return s; }
        case 6: return sin(a * x[m]) + b; case 7: return hi ? a * a * b : S(3.0) * x[m]; default: return CondExpLt(a, S(0.5), b * b * S(0.5), a * b);
    }
}
static const double PT[3][N] = {{0.75, -0.5, 1.25, 2.0}, {0.25, 1.5, -0.75, 0.5}, {-1.25, 0.5, 0.625, -1.5}};
static const double LAM[3][5] = {{1.0, 0.5, -1.25, 2.0, 0.75}, {0.0, -2.0, 0.0, 1.0, 1.5}, {-0.75, 0.0, 3.0, -0.5, 0.0}};
typedef std::function<vector<H2>(const double* x)> Ref;   // f, g_0, g_1, ...
static H2 var(double v, int j) { H2 r(v); r.g[j] = 1; return r; }

// one problem under every sequence of calls
struct Drive {
    Run& R; TNLP& t; size_t n, m; Ref ref; bool dense; Index nj, nh; vector<Index> jr, jc, hr, hc; string err;
    Drive(Run& R, TNLP& t, size_t n, size_t m, Ref ref, bool dense) : R(R), t(t), n(n), m(m), ref(ref), dense(dense) {}
    bool bad(const string& s) { if (err.empty()) err = s; return false; }
    bool same(const char* what, size_t i, size_t j, double got, double want) { R.comparisons++; return vf::close(got, want, 1e-11, 1e-12) || bad(vf::fmt("%s (%zu,%zu) is %.17g, expected %.17g", what, i, j, got, want)); }
    bool start(const DV& xi, const DV& xl, const DV& xu, const DV& gl, const DV& gu) {
        Index a = -1, b = -1; TNLP::IndexStyleEnum st; nj = nh = -1; if (!t.get_nlp_info(a, b, nj, nh, st)) return bad("get_nlp_info returns false");
        if (a != (Index)n || b != (Index)m || nj < 0 || nh < 0 || st != TNLP::C_STYLE) return bad("get_nlp_info: wrong sizes");
        if (dense && (nj != (Index)(n * m) || nh != (Index)(n * (n + 1) / 2))) return bad("get_nlp_info: number of entries of full matrices");
        vector<double> l(n + 1, 7), u(n + 1, 7), c(m + 1, 7), d(m + 1, 7), x(n + 1, 7); if (!t.get_bounds_info(n, l.data(), u.data(), m, c.data(), d.data())) return bad("get_bounds_info returns false");
        if (!t.get_starting_point(n, true, x.data(), false, nullptr, nullptr, m, false, nullptr)) return bad("get_starting_point returns false");
        for (size_t j = 0; j < n; j++) if (l[j] != xl[j] || u[j] != xu[j] || x[j] != xi[j]) return bad("bounds or starting point of x");
        for (size_t i = 0; i < m; i++) if (c[i] != gl[i] || d[i] != gu[i]) return bad("bounds of g");
        if (l[n] != 7 || u[n] != 7 || c[m] != 7 || d[m] != 7 || x[n] != 7) return bad("write past the end of a vector");
        jr.assign(nj + 1, -5); jc = jr; hr.assign(nh + 1, -5); hc = hr; return true; }
    bool structure(bool hes) {
        vector<Index> r((hes ? nh : nj) + 1, -5), c = r; R.transitions++;
        bool ok = hes ? t.eval_h(n, nullptr, false, 1.0, m, nullptr, false, nh, r.data(), c.data(), nullptr) : t.eval_jac_g(n, nullptr, false, m, nj, r.data(), c.data(), nullptr);
        if (!ok) return bad("structure call returns false"); if (r.back() != -5 || c.back() != -5) return bad("structure: write past the end");
        r.pop_back(); c.pop_back(); 
        for (size_t k = 0; k < r.size(); k++) { if (r[k] < 0 || c[k] < 0 || c[k] >= (Index)n || r[k] >= (Index)(hes ? n : m)) return bad(vf::fmt("%s structure: entry (%d,%d)", hes ? "Hessian" : "Jacobian", (int)r[k], (int)c[k])); if (hes && c[k] > r[k]) std::swap(r[k], c[k]); /* Ipopt takes either triangle */ }
        if (hr.size() && hes && hr[0] != -5 && (hr != r || hc != c)) return bad("Hessian structure changes"); if (!hes && jr.size() && jr[0] != -5 && (jr != r || jc != c)) return bad("Jacobian structure changes");
        if (hes) { hr = r; hc = c; } else { jr = r; jc = c; } return true; }
    // method 0..4; k: step for the multipliers
    bool eval(int what, const double* x, bool nw, int k) {
        vector<H2> f = ref(x); R.transitions++; vector<double> o; bool ok = true;
        if (what == 0) { double v = -99; ok = t.eval_f(n, x, nw, v); same("eval_f", 0, 0, v, f[0].v); }
        else if (what == 1) { o.assign(n + 1, -99); ok = t.eval_grad_f(n, x, nw, o.data()); for (size_t j = 0; j < n; j++) same("eval_grad_f", 0, j, o[j], f[0].g[j]); }
        else if (what == 2) { o.assign(m + 1, -99); ok = t.eval_g(n, x, nw, m, o.data()); for (size_t i = 0; i < m; i++) same("eval_g", i, 0, o[i], f[1 + i].v); }
        else if (what == 3) { o.assign(nj + 1, -99); ok = t.eval_jac_g(n, x, nw, m, nj, nullptr, nullptr, o.data()); vector<double> J(n * m, 0);   // Ipopt adds entries that occur more than once
            for (int e = 0; e < nj; e++) J[jr[e] * n + jc[e]] += o[e]; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) same("eval_jac_g", i, j, J[i * n + j], f[1 + i].g[j]); }
        else { o.assign(nh + 1, -99); const double* lam = LAM[k % 3]; double sg = k % 4 == 3 ? 0.0 : 1.0 + 0.5 * (k % 4); ok = t.eval_h(n, x, nw, sg, m, lam, true, nh, nullptr, nullptr, o.data()); vector<double> W(n * n, 0);
            auto H = [&](size_t i, size_t j) { double s = sg * f[0].h[i][j]; for (size_t q = 0; q < m; q++) s += lam[q] * f[1 + q].h[i][j]; return s; };
            for (int e = 0; e < nh; e++) W[hr[e] * n + hc[e]] += o[e]; for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) same("eval_h", i, j, W[i * n + j], H(i, j)); }
        if (!ok) bad("evaluation returns false"); if (o.size() && o.back() != -99) bad("evaluation writes past the end"); return err.empty(); }
    // operations: 0..4 evaluation at the same point, 5..9 at the next point, 10, 11 structure
    bool sequence(long code, int len) {
        int ip = -1; double x[N]; string w;
        for (int k = 0; k < len; k++, code /= 12) { int op = code % 12; w += vf::fmt(" %d", op); bool ok;
            if (op >= 10) ok = structure(op == 11); else { bool nw = op >= 5 || ip < 0; if (nw) { ip++; for (size_t j = 0; j < n; j++) x[j] = PT[ip % 3][j]; } ok = eval(op % 5, x, nw, k + ip); }
            R.states++; if (!ok) { err += " after the calls" + w; return false; } }
        return true; }
    bool all(int len) { long c = 1; for (int i = 0; i < len; i++) c *= 12; if (!structure(false) || !structure(true)) return false; for (long k = 0; k < c; k++) if (!sequence(k, len)) return false; return true; }
};
static void limits(size_t n, size_t m, DV& xi, DV& xl, DV& xu, DV& gl, DV& gu) { xi.resize(n); xl.resize(n); xu.resize(n); gl.resize(m); gu.resize(m); for (size_t j = 0; j < n; j++) { xi[j] = PT[0][j % N] + j / N; xl[j] = -10.0 - j; xu[j] = 10.5 + j; } for (size_t i = 0; i < m; i++) { gl[i] = -20.0 - i; gu[i] = i % 2 ? 1e19 : 3.0 * i; } }
// ---- ipopt::solve
struct FG { typedef AV ADvector; vector<int> k; size_t n; int calls = 0; void operator()(AV& fg, const AV& x) { calls++; bool hi = x[0] > 0.5; for (size_t i = 0; i < k.size(); i++) fg[i] = comp<A>(k[i], x, n, hi); } };
typedef CppAD::ipopt::solve_callback<DV, AV, FG> SCB; typedef CppAD::ipopt::solve_result<DV> SR;
static string names(const vector<int>& k) { string s; for (int i : k) s += vf::fmt("%s%d", s.empty() ? "" : ",", i); return s; }
static string solve_case(Run& R, const vector<int>& ks, size_t n, int opt, int len) {
    size_t m = ks.size() - 1; DV xi, xl, xu, gl, gu; limits(n, m, xi, xl, xu, gl, gu); FG fg; fg.k = ks; fg.n = n; SR sol; bool retape = opt == 1;
    SCB cb(1, n, m, xi, xl, xu, gl, gu, fg, retape, opt == 2, opt == 3, sol); R.case_nontrivial = true;
    Ref ref = [&](const double* x) { vector<H2> v; for (size_t j = 0; j < n; j++) v.push_back(var(x[j], j)); vector<H2> r; bool hi = retape ? x[0] > 0.5 : xi[0] > 0.5; for (int k : ks) r.push_back(comp<H2>(k, v, n, hi)); return r; };
    Drive d(R, cb, n, m, ref, opt < 2); if (!d.start(xi, xl, xu, gl, gu) || !d.all(len)) return d.err;
    if (!retape && fg.calls != 1) return vf::fmt("fg_eval was called %d times", fg.calls); return ""; }
static void final_status(Run& R) {
    if (!R.family("final")) return; typedef Ipopt::SolverReturn S;
    static const std::vector<std::pair<S, SR::status_type>> tab = {{Ipopt::SUCCESS, SR::success}, {Ipopt::MAXITER_EXCEEDED, SR::maxiter_exceeded}, {Ipopt::STOP_AT_TINY_STEP, SR::stop_at_tiny_step}, {Ipopt::STOP_AT_ACCEPTABLE_POINT, SR::stop_at_acceptable_point}, {Ipopt::LOCAL_INFEASIBILITY, SR::local_infeasibility}, {Ipopt::USER_REQUESTED_STOP, SR::user_requested_stop}, {Ipopt::DIVERGING_ITERATES, SR::diverging_iterates}, {Ipopt::RESTORATION_FAILURE, SR::restoration_failure}, {Ipopt::ERROR_IN_STEP_COMPUTATION, SR::error_in_step_computation}, {Ipopt::INVALID_NUMBER_DETECTED, SR::invalid_number_detected}, {Ipopt::INTERNAL_ERROR, SR::internal_error}, {Ipopt::CPUTIME_EXCEEDED, SR::unknown}, {Ipopt::OUT_OF_MEMORY, SR::unknown}, {Ipopt::INVALID_OPTION, SR::unknown}};
    typedef cppad_ipopt::cppad_ipopt_solution OS;
    static const OS::solution_status old[] = {OS::success, OS::maxiter_exceeded, OS::stop_at_tiny_step, OS::stop_at_acceptable_point, OS::local_infeasibility, OS::user_requested_stop, OS::diverging_iterates, OS::restoration_failure, OS::error_in_step_computation, OS::invalid_number_detected, OS::internal_error, OS::unknown, OS::unknown, OS::unknown};
    struct FI : cppad_ipopt::cppad_ipopt_fg_info { cppad_ipopt::ADVector eval_r(size_t, const cppad_ipopt::ADVector& u) override { cppad_ipopt::ADVector r(3); r[0] = u[0]; r[1] = u[1]; r[2] = u[0] * u[1]; return r; } bool retape(size_t) override { return false; } };
    for (size_t k = 0; k < tab.size(); k++) for (int o = 0; o < 2; o++) { if (!R.next([&] { return vf::fmt("finalize_solution status %d, %s", (int)tab[k].first, o ? "cppad_ipopt_nlp" : "ipopt::solve"); })) continue;
        R.case_nontrivial = true; DV xi, xl, xu, gl, gu; limits(2, 2, xi, xl, xu, gl, gu); double x[] = {1, 2}, zl[] = {3, 4}, zu[] = {5, 6}, g[] = {7, 8}, la[] = {9, 10}; auto eq = [&](const auto& v, const double* p) { return v.size() == 2 && v[0] == p[0] && v[1] == p[1]; };
        if (!o) { FG fg; fg.k = {0, 1, 2}; fg.n = 2; SR s; SCB cb(1, 2, 2, xi, xl, xu, gl, gu, fg, false, false, false, s); if (s.status != SR::not_defined) R.fail("status before the end"); cb.finalize_solution(tab[k].first, 2, x, zl, zu, 2, g, la, 11.5, nullptr, nullptr); R.comparisons++;
            if (s.status != tab[k].second) R.fail(vf::fmt("status is %d", (int)s.status)); if (!eq(s.x, x) || !eq(s.zl, zl) || !eq(s.zu, zu) || !eq(s.g, g) || !eq(s.lambda, la) || s.obj_value != 11.5) R.fail("solution"); }
        else { FI fi; OS s; cppad_ipopt::cppad_ipopt_nlp p(2, 2, xi, xl, xu, gl, gu, &fi, &s); if (s.status != OS::not_defined) R.fail("status before the end"); p.finalize_solution(tab[k].first, 2, x, zl, zu, 2, g, la, 11.5, nullptr, nullptr); R.comparisons++;
            if (s.status != old[k]) R.fail(vf::fmt("status is %d", (int)s.status)); if (!eq(s.x, x) || !eq(s.z_l, zl) || !eq(s.z_u, zu) || !eq(s.g, g) || !eq(s.lambda, la) || s.obj_value != 11.5) R.fail("solution"); } }
}
// sizes around the words of packed patterns: f = sum x_j^2 x_{j+1}, g_i = x_a x_b + x_c with a, b, c that depend on i
struct FGW { typedef AV ADvector; size_t n, m; template <class S, class V> S g(size_t i, const V& x) const { return x[i % n] * x[(3 * i + 1) % n] + S(2.0) * x[(5 * i + n - 1) % n]; }
    void operator()(AV& fg, const AV& x) { A s = 0.0; for (size_t j = 0; j + 1 < n; j++) s += x[j] * x[j] * x[j + 1]; fg[0] = s; for (size_t i = 0; i < m; i++) fg[1 + i] = g<A>(i, x); } };
static string wide_case(Run& R, size_t n, size_t m, int opt) {
    DV xi, xl, xu, gl, gu; limits(n, m, xi, xl, xu, gl, gu); FGW fg; fg.n = n; fg.m = m; SR sol; CppAD::ipopt::solve_callback<DV, AV, FGW> cb(1, n, m, xi, xl, xu, gl, gu, fg, opt == 1, opt == 2, opt == 3, sol); R.case_nontrivial = true;
    Index a, b, nj, nh; TNLP::IndexStyleEnum st; cb.get_nlp_info(a, b, nj, nh, st); vector<Index> jr(nj), jc(nj), hr(nh), hc(nh); cb.eval_jac_g(n, nullptr, false, m, nj, jr.data(), jc.data(), nullptr); cb.eval_h(n, nullptr, false, 1, m, nullptr, false, nh, hr.data(), hc.data(), nullptr);
    for (int ip = 0; ip < 2; ip++) { vector<double> x(n), la(m); for (size_t j = 0; j < n; j++) x[j] = 0.5 + 0.25 * ((j * 7 + ip * 3) % 11) - (j % 3); for (size_t i = 0; i < m; i++) la[i] = (int)((i * 5 + ip) % 7) - 3.0;
        vector<double> J(n * m, 0), H(n * n, 0), gr(n, 0); const double sg = 1.5; double f = 0;
        for (size_t j = 0; j + 1 < n; j++) { f += x[j] * x[j] * x[j + 1]; gr[j] += 2 * x[j] * x[j + 1]; gr[j + 1] += x[j] * x[j]; H[j * n + j] += sg * 2 * x[j + 1]; H[j * n + j + 1] += sg * 2 * x[j]; H[(j + 1) * n + j] += sg * 2 * x[j]; }
        for (size_t i = 0; i < m; i++) { size_t p = i % n, q = (3 * i + 1) % n, c = (5 * i + n - 1) % n; J[i * n + p] += x[q]; J[i * n + q] += x[p]; J[i * n + c] += 2; H[p * n + q] += la[i]; H[q * n + p] += la[i]; }
        double v; vector<double> o(std::max<size_t>({n, m, (size_t)nj, (size_t)nh}) + 1); auto cl = [&](double u, double w) { R.comparisons++; return vf::close(u, w, 1e-10, 1e-10); };
        cb.eval_h(n, x.data(), true, sg, m, la.data(), true, nh, nullptr, nullptr, o.data()); vector<char> s(n * n, 0); for (int e = 0; e < nh; e++) { if (hc[e] > hr[e] || s[hr[e] * n + hc[e]]) return "Hessian structure"; s[hr[e] * n + hc[e]] = 1; if (!cl(o[e], H[hr[e] * n + hc[e]])) return vf::fmt("eval_h (%d,%d) is %g, expected %g", (int)hr[e], (int)hc[e], o[e], H[hr[e] * n + hc[e]]); } for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) if (!s[i * n + j] && H[i * n + j] != 0) return vf::fmt("Hessian entry (%zu,%zu) is missing", i, j);
        if (opt >= 2) for (int e = 0; e < nh; e++) { size_t i = hr[e], j = hc[e]; bool in = false; for (size_t k = 0; k + 1 < n; k++) in |= (i == k && j == k) || (i == k + 1 && j == k); for (size_t k = 0; k < m; k++) { size_t p = k % n, q = (3 * k + 1) % n; in |= (i == p && j == q) || (i == q && j == p); } if (!in) return vf::fmt("Hessian structure has (%zu,%zu), an entry that is always zero", i, j); }
        cb.eval_jac_g(n, x.data(), false, m, nj, nullptr, nullptr, o.data()); s.assign(n * m, 0); for (int e = 0; e < nj; e++) { if (s[jr[e] * n + jc[e]]) return "Jacobian structure"; s[jr[e] * n + jc[e]] = 1; if (!cl(o[e], J[jr[e] * n + jc[e]])) return vf::fmt("eval_jac_g (%d,%d) is %g, expected %g", (int)jr[e], (int)jc[e], o[e], J[jr[e] * n + jc[e]]); } for (size_t k = 0; k < n * m; k++) if (!s[k] && J[k] != 0) return "a Jacobian entry is missing";
        cb.eval_grad_f(n, x.data(), false, o.data()); for (size_t j = 0; j < n; j++) if (!cl(o[j], gr[j])) return "eval_grad_f"; cb.eval_f(n, x.data(), false, v); if (!cl(v, f)) return "eval_f"; cb.eval_g(n, x.data(), false, m, o.data()); for (size_t i = 0; i < m; i++) if (!cl(o[i], fg.g<double>(i, x))) return "eval_g"; }
    return ""; }
static const char* ON[] = {"full", "retape", "sparse forward", "sparse reverse"};
static void solve_main(Run& R) {
    bool th = R.thorough(); auto one = [&](const char* fam, auto&& desc, auto&& body) { if (!R.next(desc)) return; string e; try { e = body(); } catch (vf::CppadError& x) { A::abort_recording(); e = x.what(); } if (e.size()) R.fail(e); };
    if (R.family("problems")) for (size_t n = 1; n <= 3; n++) for (size_t m = 0; m <= 3; m++) { long c = 1; for (size_t i = 0; i <= m; i++) c *= NK; for (long q = 0; q < c; q++) { if (m == 3 && !th && q % 5) continue; vector<int> ks; long t = q; for (size_t i = 0; i <= m; i++, t /= NK) ks.push_back(t % NK);
        for (int o = 0; o < 4; o++) one("", [&] { return vf::fmt("n=%zu m=%zu components %s %s", n, m, names(ks).c_str(), ON[o]); }, [&] { return solve_case(R, ks, n, o, m == 3 ? 1 : 2); }); } }
    static const vector<vector<int>> P = {{5, 2, 3}, {7, 8, 1, 6}, {2, 4}, {1, 5, 0, 2, 3}, {4, 4, 4}, {6}, {3, 7}};
    if (R.family("sequences")) for (auto& ks : P) for (size_t n = 1; n <= (th ? 4u : 3u); n++) for (int o = 0; o < 4; o++) one("", [&] { return vf::fmt("n=%zu components %s %s", n, names(ks).c_str(), ON[o]); }, [&] { return solve_case(R, ks, n, o, th ? 5 : 4); });
    if (R.family("wide")) for (size_t n : {1, 2, 63, 64, 65, 128, 129}) for (size_t m : {0, 1, 62, 63, 64, 65, 127, 129}) for (int o = 0; o < 4; o++) { if (!th && o < 2 && (n > 65 || m > 65)) continue; one("", [&] { return vf::fmt("wide n=%zu m=%zu %s", n, m, ON[o]); }, [&] { return wide_case(R, n, m, o); }); }
    final_status(R);
}
// ---- cppad_ipopt_nlp: sums of terms r_k with index vectors
struct Rep { size_t n, m; struct Fun { vector<int> comps; size_t q; bool retape; vector<vector<size_t>> I, J; }; vector<Fun> f;
    string str() const { string s = vf::fmt("n=%zu m=%zu", n, m); for (auto& k : f) { s += "; r=" + names(k.comps) + vf::fmt(" q=%zu%s", k.q, k.retape ? " retape" : ""); for (size_t l = 0; l < k.I.size(); l++) { s += " I="; for (auto i : k.I[l]) s += vf::fmt("%zu", i); s += " J="; for (auto j : k.J[l]) s += vf::fmt("%zu", j); } } return s; } };
struct FI : cppad_ipopt::cppad_ipopt_fg_info { const Rep& r; FI(const Rep& r) : r(r) {}
    size_t number_functions() override { return r.f.size(); } bool retape(size_t k) override { return r.f[k].retape; } size_t domain_size(size_t k) override { return r.f[k].q; } size_t range_size(size_t k) override { return r.f[k].comps.size(); } size_t number_terms(size_t k) override { return r.f[k].I.size(); }
    void index(size_t k, size_t l, cppad_ipopt::SizeVector& I, cppad_ipopt::SizeVector& J) override { for (size_t i = 0; i < r.f[k].I[l].size(); i++) I[i] = r.f[k].I[l][i]; for (size_t j = 0; j < r.f[k].q; j++) J[j] = r.f[k].J[l][j]; }
    cppad_ipopt::ADVector eval_r(size_t k, const cppad_ipopt::ADVector& u) override { auto& f = r.f[k]; cppad_ipopt::ADVector y(f.comps.size()); bool hi = f.retape ? u[0] > 0.5 : true; for (size_t i = 0; i < f.comps.size(); i++) y[i] = comp<A>(f.comps[i], u, f.q, hi); return y; } };
static string nlp_case(Run& R, const Rep& r, int len) {
    DV xi, xl, xu, gl, gu; limits(r.n, r.m, xi, xl, xu, gl, gu); FI fi(r); cppad_ipopt::cppad_ipopt_solution s; cppad_ipopt::cppad_ipopt_nlp p(r.n, r.m, xi, xl, xu, gl, gu, &fi, &s); R.case_nontrivial = true;
    Ref ref = [&](const double* x) { vector<H2> o(r.m + 1, H2(0.0)); for (auto& f : r.f) for (size_t l = 0; l < f.I.size(); l++) { vector<H2> u; for (size_t j : f.J[l]) u.push_back(var(x[j], j)); for (size_t i = 0; i < f.comps.size(); i++) o[f.I[l][i]] = o[f.I[l][i]] + comp<H2>(f.comps[i], u, f.q, f.retape ? u[0].v > 0.5 : true); } return o; };
    Drive d(R, p, r.n, r.m, ref, false); if (!d.start(xi, xl, xu, gl, gu) || !d.all(len)) return d.err; return ""; }
static vector<vector<size_t>> arrange(size_t k, size_t n) { vector<vector<size_t>> r; vector<size_t> c; std::function<void()> go = [&] { if (c.size() == k) { r.push_back(c); return; } for (size_t i = 0; i < n; i++) if (std::find(c.begin(), c.end(), i) == c.end()) { c.push_back(i); go(); c.pop_back(); } }; go(); return r; }
static void nlp_main(Run& R) {
    bool th = R.thorough(); auto one = [&](const Rep& r, int len) { if (!R.next([&] { return r.str(); })) return; string e; try { e = nlp_case(R, r, len); } catch (vf::CppadError& x) { A::abort_recording(); e = x.what(); } if (e.size()) R.fail(e); };
    static const vector<vector<int>> C1 = {{0}, {2}, {3}, {5}, {7}, {8}}, C2 = {{1, 2}, {5, 0}, {4, 6}, {7, 2}, {8, 3}};
    // one function, one or two terms, all index vectors
    if (R.family("terms")) for (size_t n = 1; n <= 3; n++) for (size_t m = 0; m <= 2; m++) for (size_t q = 1; q <= std::min<size_t>(n, 2 + th); q++) for (size_t p = 1; p <= 2; p++) { if (p > m + 1) continue; auto I = arrange(p, m + 1), J = arrange(q, n);
        for (auto& c : p == 1 ? C1 : C2) for (int rt = 0; rt < 2; rt++) for (auto& i1 : I) for (auto& j1 : J) { one({n, m, {{c, q, (bool)rt, {i1}, {j1}}}}, 2); for (auto& i2 : I) for (auto& j2 : J) { if (!th && n == 3 && m == 2 && p == 2 && q == 2 && c[0] != 5) continue; one({n, m, {{c, q, (bool)rt, {i1, i2}, {j1, j2}}}}, 1); } } }
    // two functions
    if (R.family("functions")) for (size_t n = 2; n <= (th ? 3u : 2u); n++) for (size_t m = 0; m <= 2; m++) { auto I1 = arrange(1, m + 1), J1 = arrange(1, n), I2 = arrange(std::min<size_t>(2, m + 1), m + 1), J2 = arrange(2, n);
        for (int rt = 0; rt < 4; rt++) for (auto& c : C1) for (auto& i1 : I1) for (auto& j1 : J1) for (auto& i2 : I2) for (auto& j2 : J2) for (int swap = 0; swap < 2; swap++) { Rep::Fun a{c, 1, bool(rt & 1), {i1}, {j1}}, b{m ? vector<int>{5, 2} : vector<int>{6}, 2, bool(rt & 2), {i2}, {j2}}; one({n, m, swap ? vector<Rep::Fun>{b, a} : vector<Rep::Fun>{a, b}}, 1); } }
    // all sequences of calls
    if (R.family("sequences")) { vector<Rep> v; for (int rt = 0; rt < 2; rt++) { v.push_back({2, 1, {{{5, 2}, 2, (bool)rt, {{0, 1}}, {{0, 1}}}}}); v.push_back({3, 2, {{{3}, 2, (bool)rt, {{0}, {1}, {2}}, {{0, 1}, {2, 0}, {1, 2}}}, {{1, 8}, 2, !rt, {{2, 0}}, {{1, 0}}}}}); v.push_back({3, 1, {{{7, 6}, 3, (bool)rt, {{1, 0}}, {{2, 0, 1}}}, {{4}, 1, (bool)rt, {{0}}, {{0}}}}}); v.push_back({2, 2, {{{7}, 1, true, {{1}, {2}}, {{0}, {1}}}, {{2}, 2, (bool)rt, {{0}}, {{0, 1}}}}}); v.push_back({1, 0, {{{3}, 1, (bool)rt, {{0}}, {{0}}}}}); }
        for (auto& r : v) one(r, th ? 5 : 4); }
    // the simple representation by the default members of cppad_ipopt_fg_info
    if (R.family("simple")) for (size_t n = 1; n <= 3; n++) for (size_t m = 0; m <= 2; m++) for (int k = 0; k < NK; k++) for (int rt = 0; rt < 2; rt++) { if (!R.next([&] { return vf::fmt("simple representation n=%zu m=%zu component %d retape %d", n, m, k, rt); })) continue;
        struct SI : cppad_ipopt::cppad_ipopt_fg_info { size_t n, m; int k, rt; cppad_ipopt::ADVector eval_r(size_t, const cppad_ipopt::ADVector& u) override { cppad_ipopt::ADVector y(m + 1); for (size_t i = 0; i <= m; i++) y[i] = comp<A>((k + i) % NK, u, n, rt ? u[0] > 0.5 : true); return y; } bool retape(size_t z) override { return rt ? cppad_ipopt::cppad_ipopt_fg_info::retape(z) : false; } } si; si.n = n; si.m = m; si.k = k; si.rt = rt;
        try { DV xi, xl, xu, gl, gu; limits(n, m, xi, xl, xu, gl, gu); cppad_ipopt::cppad_ipopt_solution s; cppad_ipopt::cppad_ipopt_nlp p(n, m, xi, xl, xu, gl, gu, &si, &s); R.case_nontrivial = true;
            Ref ref = [&](const double* x) { vector<H2> u, o; for (size_t j = 0; j < n; j++) u.push_back(var(x[j], j)); for (size_t i = 0; i <= m; i++) o.push_back(comp<H2>((k + i) % NK, u, n, rt ? x[0] > 0.5 : true)); return o; };
            Drive d(R, p, n, m, ref, false); if (!d.start(xi, xl, xu, gl, gu) || !d.all(3)) R.fail(d.err); } catch (vf::CppadError& x) { A::abort_recording(); R.fail(x.what()); } }
}
// ---- ipopt::solve with the real optimizer: options, and optimality conditions of small problems
struct FGQ { typedef AV ADvector; double a[2]; int g; int calls = 0; void operator()(AV& fg, const AV& x) { calls++; fg[0] = (x[0] - a[0]) * (x[0] - a[0]) + 2.0 * (x[1] - a[1]) * (x[1] - a[1]) + 0.5 * x[0] * x[1]; if (g >= 0) fg[1] = g == 0 ? x[0] + x[1] : x[0] - 2.0 * x[1]; } };
static void run_main(Run& R) {
    static const double AA[] = {-1, 0.5, 2}, BL[][2] = {{-1, 1}, {0, 3}, {-1e19, 1e19}, {0.25, 0.25}}, GB[][2] = {{-1e19, 0.5}, {0, 1e19}, {0.75, 0.75}, {-0.5, 0.5}};
    static const char* OPT[] = {"", "Retape true\n", "Sparse true forward\n", "Sparse  true   reverse \nRetape false\n"};
    bool th = R.thorough(); const string quiet = "Integer print_level  0\nString sb yes\nNumeric tol 1e-9\n";
    if (R.family("optimum")) for (double a0 : AA) for (double a1 : AA) for (int b0 = 0; b0 < 4; b0++) for (int b1 = 0; b1 < 4; b1++) for (int g = -1; g < 2; g++) for (int gb = 0; gb < (g < 0 ? 1 : 4); gb++) { if ((b0 == 3 && b1 == 3)) continue; if (g >= 0 && (b0 == 3 || b1 == 3)) continue; int o = R.g_idx() / 8 % 4; (void)o;
        if (!R.next([&] { return vf::fmt("a=(%g,%g) x0 in [%g,%g] x1 in [%g,%g] constraint %d [%g,%g]", a0, a1, BL[b0][0], BL[b0][1], BL[b1][0], BL[b1][1], g, GB[gb][0], GB[gb][1]); })) continue;
        try { for (int o = 0; o < 4; o++) { if (!th && o != (int)((R.g_idx() / 8 + g + gb) % 4)) continue; size_t m = g >= 0; DV xi(2), xl(2), xu(2), gl(m), gu(m); const double* B[2] = {BL[b0], BL[b1]}; for (int j = 0; j < 2; j++) { xl[j] = B[j][0]; xu[j] = B[j][1]; xi[j] = 0.25 + 0.0 * j; } if (m) { gl[0] = GB[gb][0]; gu[0] = GB[gb][1]; }
            FGQ fg; fg.a[0] = a0; fg.a[1] = a1; fg.g = g; SR s; CppAD::ipopt::solve<DV, FGQ>(OPT[o] + quiet, xi, xl, xu, gl, gu, fg, s); R.case_nontrivial = true; R.comparisons++;
            auto no = [&](const string& t) { R.fail(t + vf::fmt(" with option %d at x=(%g,%g)", o, s.x.size() ? s.x[0] : 0, s.x.size() ? s.x[1] : 0)); };
            if (s.status != SR::success) { no(vf::fmt("status %d", (int)s.status)); break; } if (s.x.size() != 2 || s.zl.size() != 2 || s.zu.size() != 2 || s.g.size() != m || s.lambda.size() != m) { no("sizes of the solution"); break; }
            double x0 = s.x[0], x1 = s.x[1], gr[2] = {2 * (x0 - a0) + 0.5 * x1, 4 * (x1 - a1) + 0.5 * x0}, gg[2] = {1, g == 0 ? 1.0 : -2.0}, gv = g == 0 ? x0 + x1 : x0 - 2 * x1; double f = (x0 - a0) * (x0 - a0) + 2 * (x1 - a1) * (x1 - a1) + 0.5 * x0 * x1; const double E = 1e-5;
            if (std::fabs(s.obj_value - f) > E) no("obj_value"); if (m && std::fabs(s.g[0] - gv) > E) no("g"); if (m && (gv < gl[0] - E || gv > gu[0] + E)) no("constraint is not satisfied"); if (m) { double la = s.lambda[0]; if ((la > E && gu[0] - gv > 1e-3 && la * (gu[0] - gv) > 1e-4) || (la < -E && gv - gl[0] > 1e-3 && -la * (gv - gl[0]) > 1e-4)) no("multiplier of a constraint that is not active"); }
            for (int j = 0; j < 2; j++) { if (s.x[j] < xl[j] - E || s.x[j] > xu[j] + E) no("bound is not satisfied"); if (s.zl[j] < -E || s.zu[j] < -E) no("negative multiplier"); if (B[j][0] == B[j][1]) continue; if ((s.x[j] - xl[j]) * s.zl[j] > 1e-4 || (xu[j] - s.x[j]) * s.zu[j] > 1e-4) no("multiplier of a bound that is not active"); if (std::fabs(gr[j] + (m ? s.lambda[0] * gg[j] : 0) - s.zl[j] + s.zu[j]) > 1e-4) no("gradient of the Lagrangian is not zero"); }
            if (o == 1 ? fg.calls < 2 : fg.calls != 1) no(vf::fmt("fg_eval called %d times", fg.calls)); } }
        catch (vf::CppadError& e) { A::abort_recording(); R.fail(e.what()); } }
    // option texts: every sequence of up to 2 lines; an error is reported exactly for what is not documented
    struct L { const char* t; bool ok; int retape, sparse, iter; };   // -1: not set
    static const L ls[] = {{"Retape true\n", true, 1, -1, -1}, {"Retape false\n", true, 0, -1, -1}, {"  Retape   true   \n", true, 1, -1, -1}, {"Sparse true forward\n", true, -1, 1, -1}, {"Sparse true reverse\n", true, -1, 1, -1}, {"Sparse false forward\n", true, -1, 0, -1}, {"Sparse false  reverse \n", true, -1, 0, -1}, {"Integer max_iter 0\n", true, -1, -1, 0}, {"Integer max_iter 50\n", true, -1, -1, 50}, {"Numeric tol 1e-8\n", true, -1, -1, -1}, {"String sb yes\n", true, -1, -1, -1},
        {"Retape yes\n", false}, {"Retape\n", false}, {"Sparse true\n", false}, {"Sparse maybe forward\n", false}, {"Sparse true backward\n", false}, {"String sb\n", false}, {"Numeric tol\n", false}, {"Integer\n", false}, {"Optimize true\n", false}, {"retape true\n", false}, {"Integer max_iter 5 5\n", false}, {"Sparse true forward now\n", false}, {"\n", false}, {" \n", false},
        {"Retape", false}, {"Retape true", false}, {"Sparse true forward", false}, {"Sparse true", false}, {"Integer max_iter 5", false}, {"Integer print_level 0 ", false}, {"String", false}, {" ", false}};
    const int NL = sizeof(ls) / sizeof(ls[0]);
    if (R.family("options")) for (int a = -1; a < NL; a++) for (int b = -1; b < NL; b++) { if (a < 0 && b >= 0) continue; auto open = [&](int i) { return i >= 0 && ls[i].t[strlen(ls[i].t) - 1] != '\n'; }; if (open(a) && b >= 0) continue; string t = quiet + (a < 0 ? "" : ls[a].t) + (b < 0 ? "" : ls[b].t);
        if (!R.next([&] { string q; for (char c : t.substr(quiet.size())) q += c == '\n' ? string("\\n") : string(1, c); return "options '" + q + "'"; })) continue; R.case_nontrivial = true;
        int rt = 0, sp = 0, it = -1; bool ok = true; for (int i : {a, b}) if (i >= 0) { ok &= ls[i].ok; if (ls[i].retape >= 0 && ls[i].ok) rt = ls[i].retape; if (ls[i].sparse >= 0 && ls[i].ok) sp = ls[i].sparse; if (ls[i].iter >= 0 && ls[i].ok) it = ls[i].iter; } ok &= !(rt && sp);
        DV xi(2), xl(2), xu(2), gl(1), gu(1); for (int j = 0; j < 2; j++) { xi[j] = 0.25; xl[j] = -2; xu[j] = 2; } gl[0] = -1; gu[0] = 1; FGQ fg; fg.a[0] = 1; fg.a[1] = -0.5; fg.g = 0; SR s; R.comparisons++;
        try { CppAD::ipopt::solve<DV, FGQ>(t, xi, xl, xu, gl, gu, fg, s); if (!ok) R.fail("no error is reported"); else if (s.status != (it == 0 ? SR::maxiter_exceeded : SR::success)) R.fail(vf::fmt("status %d", (int)s.status)); else if (rt ? it != 0 && fg.calls < 2 : fg.calls != 1) R.fail(vf::fmt("fg_eval called %d times", fg.calls)); }
        catch (vf::CppadError& e) { A::abort_recording(); if (ok || !e.known) R.fail(e.what()); } }
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler);
    string mode = R.args.size() ? R.args[0] : "";
    return vf::guarded_main(R, [&] { if (mode == "solve") solve_main(R); if (mode == "nlp") nlp_main(R); if (mode == "run") run_main(R); });
}
