// C30: every argument size, order and index around the valid ones, in every state of the object; misuse while recording,
// of containers and in simulated parallel mode; nesting of error handlers.
#include "vfc.hpp"
#include <memory>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
using namespace vf; using CppAD::AD; using CppAD::ADFun; using std::string; using std::vector; typedef AD<double> A; typedef ADFun<double> F;
typedef vector<double> dv; typedef vector<bool> bv; typedef vector<std::set<size_t>> sv; typedef vector<size_t> zv; typedef CppAD::sparse_rc<zv> RC; typedef CppAD::sparse_rcv<zv, dv> RCV;
static const size_t N = 3, M = 2;
static dv X(size_t k, double s = 0.5) { dv v(k); for (size_t i = 0; i < k; i++) v[i] = s + 0.25 * double(i); return v; }
static void make(F& f) { vector<A> x(N), p(1), y(M); for (size_t j = 0; j < N; j++) x[j] = 1.0 + double(j); p[0] = 2; CppAD::Independent(x, size_t(0), false, p); y[0] = p[0] * x[0] * x[1]; y[1] = sin(x[2]) * x[0]; f.Dependent(x, y); }
// the documented state of a function object
struct St { size_t ord = 0, dir = 0; int fjs = 0; size_t fq = 0; bool sel = false; bool done[M] = {false, false}; };
struct Call { string name; std::function<int(const St&)> ok; std::function<void(F&)> run; std::function<void(St&)> eff; bool loose; };   // loose: stored orders after the call are observed
static vector<Call> calls;
static void add(const string& n, std::function<int(const St&)> ok, std::function<void(F&)> run, std::function<void(St&)> eff, bool loose = false) { calls.push_back({n, ok, run, eff, loose}); }
static void none(St&) {}
static std::function<int(const St&)> is(bool b) { return [b](const St&) { return b; }; }
static RC rc(size_t nr, size_t nc) { size_t m = std::min(nr, nc); RC p(nr, nc, m); for (size_t k = 0; k < m; k++) p.set(k, k, k); return p; }
static RC full(size_t nr, size_t nc) { RC p(nr, nc, nr * nc); for (size_t k = 0; k < nr * nc; k++) p.set(k, k / nc, k % nc); return p; }
static void build() {
    for (size_t q = 0; q < 3; q++) for (size_t k = 0; k <= 10; k++) { if (k > N * (q + 1) + 1) continue; bool one = k == N && q > 0, all = k == N * (q + 1);
        add(fmt("Forward(%zu, size %zu)", q, k), [=](const St& s) { return all || (one && s.ord >= q && (q < 2 || s.dir == 1)); }, [=](F& f) { dv y = f.Forward(q, X(k)); if (y.size() != M * k / N) throw std::runtime_error("size of result"); }, [=](St& s) { s.ord = q + 1; s.dir = 1; }); }
    for (size_t q = 0; q < 3; q++) for (size_t r = 1; r <= 2; r++) for (int d = -1; d <= 1; d++) { size_t k = r * N + d;
        add(fmt("Forward(%zu, %zu, size %zu)", q, r, k), [=](const St& s) { return q > 0 && d == 0 && s.ord >= q && (q == 1 || s.dir == r); }, [=](F& f) { dv y = f.Forward(q, r, X(k)); if (y.size() != M * r) throw std::runtime_error("size of result"); }, [=](St& s) { s.ord = q + 1; s.dir = r; }); }
    for (size_t q = 0; q < 4; q++) for (size_t k = 0; k <= 7; k++) { if (k > M * std::max<size_t>(q, 1) + 1) continue;
        add(fmt("Reverse(%zu, size %zu)", q, k), [=](const St& s) { return q > 0 && (k == M || k == M * q) && s.ord >= q && (q == 1 || s.dir == 1); }, [=](F& f) { dv y = f.Reverse(q, X(k)); if (y.size() != N * q) throw std::runtime_error("size of result"); }, [=](St& s) { if (q == 1 && s.dir > 1) { s.ord = 1; s.dir = 1; } }); }
    for (size_t c : {0, 1, 3}) add(fmt("capacity_order(%zu)", c), is(true), [=](F& f) { f.capacity_order(c); }, [=](St& s) { s.ord = std::min(s.ord, c); if (c < 2) s.dir = c; else if (!s.dir) s.dir = 1; });
    for (size_t k = 0; k <= 2; k++) add(fmt("new_dynamic(size %zu)", k), is(k == 1), [=](F& f) { f.new_dynamic(X(k)); }, [](St& s) { s.ord = 0; });
    for (size_t k = 2; k <= 4; k++) add(fmt("subgraph_reverse(select size %zu)", k), is(k == N), [=](F& f) { f.subgraph_reverse(bv(k, true)); }, [](St& s) { s.sel = true; s.done[0] = s.done[1] = false; });
    for (size_t q = 0; q < 3; q++) for (size_t l = 0; l <= M; l++) add(fmt("subgraph_reverse(%zu, %zu)", q, l), [=](const St& s) { return q > 0 && l < M && s.ord >= q && s.dir == 1 && s.sel && !s.done[l]; }, [=](F& f) { zv col; dv dw; f.subgraph_reverse(q, l, col, dw); if (dw.size() != N * q) throw std::runtime_error("size of result"); }, [=](St& s) { s.done[l] = true; });
    add("clear_subgraph", is(true), [](F& f) { f.clear_subgraph(); }, [](St& s) { s.sel = false; });
    for (int tr = 0; tr < 2; tr++) for (size_t q = 0; q <= 2; q++) for (int d = -1; d <= 1; d++) { size_t k = N * q + d, kr = M * q + d; if (q == 0 && d) continue; const char* t = tr ? ", transpose" : "";
        add(fmt("ForSparseJac(%zu, bool size %zu%s)", q, k, t), is(q > 0 && d == 0), [=](F& f) { f.ForSparseJac(q, bv(k, true), tr); }, [=](St& s) { s.fjs = 1; s.fq = q; });
        add(fmt("RevSparseJac(%zu, bool size %zu%s)", q, kr, t), is(q > 0 && d == 0), [=](F& f) { f.RevSparseJac(q, bv(kr, true), tr); }, none); }
    for (int tr = 0; tr < 2; tr++) for (size_t q = 0; q <= 2; q++) for (int d = -1; d <= 1; d++) for (size_t e = 0; e <= N; e++) { if (q == 0 && (d || e)) continue; size_t nf = (tr ? q : N) + d, nr = (tr ? M : q) + d; size_t lf = tr ? N : q, lr = tr ? q : M; const char* t = tr ? ", transpose" : ""; if (!(d == 0 || e == 0)) continue;
        add(fmt("ForSparseJac(%zu, sets %zu, element %zu%s)", q, nf, e, t), is(q > 0 && d == 0 && e < lf), [=](F& f) { sv s(nf); if (nf) s[nf - 1].insert(e); f.ForSparseJac(q, s, tr); }, [=](St& s) { s.fjs = 2; s.fq = q; });
        add(fmt("RevSparseJac(%zu, sets %zu, element %zu%s)", q, nr, e, t), is(q > 0 && d == 0 && e < lr), [=](F& f) { sv s(nr); if (nr) s[nr - 1].insert(e); f.RevSparseJac(q, s, tr); }, none); }
    for (int tr = 0; tr < 2; tr++) for (size_t q = 0; q <= 2; q++) for (size_t k = 1; k <= 3; k++) add(fmt("RevSparseHes(%zu, bool size %zu, %d)", q, k, tr), [=](const St& s) { return s.fjs == 3 && k == M ? 2 : s.fjs == 1 && s.fq == q && k == M; }, [=](F& f) { f.RevSparseHes(q, bv(k, true), tr); }, none);
    for (int tr = 0; tr < 2; tr++) for (size_t q = 0; q <= 2; q++) for (size_t k = 0; k <= 2; k++) for (size_t e = 0; e <= M; e++) { if (k != 1 && e) continue; add(fmt("RevSparseHes(%zu, sets %zu, element %zu, %d)", q, k, e, tr), [=](const St& s) { return s.fjs == 3 && k == 1 && e < M ? 2 : s.fjs == 2 && s.fq == q && k == 1 && e < M; }, [=](F& f) { sv s(k); if (k) s[0].insert(e); f.RevSparseHes(q, s, tr); }, none); }
    for (size_t a = N - 1; a <= N + 1; a++) for (size_t b = M - 1; b <= M + 1; b++) { add(fmt("ForSparseHes(bool %zu, bool %zu)", a, b), is(a == N && b == M), [=](F& f) { f.ForSparseHes(bv(a, true), bv(b, true)); }, none);
        for (int ib = 0; ib < 2; ib++) { add(fmt("for_hes_sparsity(%zu, %zu, %d)", a, b, ib), is(a == N && b == M), [=](F& f) { RC o; f.for_hes_sparsity(bv(a, true), bv(b, true), ib, o); }, none); }
        add(fmt("Hessian(size %zu, weight size %zu)", a, b), is(a == N && b == M), [=](F& f) { f.Hessian(X(a), X(b)); }, none, true);
        add(fmt("SparseHessian(size %zu, weight size %zu)", a, b), is(a == N && b == M), [=](F& f) { f.SparseHessian(X(a), X(b)); }, [](St& s) { s.fjs = 3; }, true); }
    for (size_t a = 0; a <= 2; a++) for (size_t b = 0; b <= 2; b++) for (size_t e = 0; e <= N; e++) for (size_t g = 0; g <= M; g++) { if ((a != 1 || b != 1) && (e || g)) continue; add(fmt("ForSparseHes(sets %zu with %zu, sets %zu with %zu)", a, e, b, g), is(a == 1 && b == 1 && e < N && g < M), [=](F& f) { sv r(a), s(b); if (a) r[0].insert(e); if (b) s[0].insert(g); f.ForSparseHes(r, s); }, none); }
    for (size_t a = N - 1; a <= N + 1; a++) for (int tr = 0; tr < 2; tr++) for (int ib = 0; ib < 2; ib++) add(fmt("for_jac_sparsity(%zu rows, transpose %d, bool %d)", a, tr, ib), is(a == N), [=](F& f) { RC o; f.for_jac_sparsity(tr ? rc(2, a) : rc(a, 2), tr, false, ib, o); }, [=](St& s) { s.fjs = ib ? 1 : 2; s.fq = 2; });
    for (size_t a = M - 1; a <= M + 1; a++) for (int tr = 0; tr < 2; tr++) for (int ib = 0; ib < 2; ib++) add(fmt("rev_jac_sparsity(%zu columns, transpose %d, bool %d)", a, tr, ib), is(a == M), [=](F& f) { RC o; f.rev_jac_sparsity(tr ? rc(a, 2) : rc(2, a), tr, false, ib, o); }, none);
    for (size_t a = M - 1; a <= M + 1; a++) for (int ib = 0; ib < 2; ib++) add(fmt("rev_hes_sparsity(%zu, bool %d)", a, ib), [=](const St& s) { return s.fjs == 3 && a == M ? 2 : a == M && s.fjs == (ib ? 1 : 2); }, [=](F& f) { RC o; f.rev_hes_sparsity(bv(a, true), false, ib, o); }, none);
    for (size_t a = N - 1; a <= N + 1; a++) for (size_t b = M - 1; b <= M + 1; b++) add(fmt("subgraph_sparsity(%zu, %zu)", a, b), is(a == N && b == M), [=](F& f) { RC o; f.subgraph_sparsity(bv(a, true), bv(b, true), false, o); }, [](St& s) { s.sel = false; });
    for (size_t a = N - 1; a <= N + 1; a++) {
        add(fmt("Jacobian(size %zu)", a), is(a == N), [=](F& f) { f.Jacobian(X(a)); }, none, true);
        add(fmt("SparseJacobian(size %zu)", a), is(a == N), [=](F& f) { f.SparseJacobian(X(a)); }, [](St& s) { s.fjs = 3; }, true);
        for (size_t j = 0; j <= N; j++) { add(fmt("ForOne(size %zu, %zu)", a, j), is(a == N && j < N), [=](F& f) { f.ForOne(X(a), j); }, none, true); add(fmt("RevOne(size %zu, %zu)", a, j), is(a == N && j < M), [=](F& f) { f.RevOne(X(a), j); }, none, true); add(fmt("Hessian(size %zu, %zu)", a, j), is(a == N && j < M), [=](F& f) { f.Hessian(X(a), j); }, none, true); }
        for (size_t kj = 0; kj <= 2; kj++) for (size_t kk = 0; kk <= 2; kk++) for (size_t j = 0; j <= N; j++) for (size_t k = 0; k <= N; k++) { if ((a != N || kj != 1 || kk != 1) && (j || k)) continue; if (kj != kk && !(kj + kk == 3)) continue;
            add(fmt("ForTwo(size %zu, %zu of %zu, %zu of %zu)", a, kj, j, kk, k), is(a == N && kj == kk && (kj == 0 || (j < N && k < N))), [=](F& f) { f.ForTwo(X(a), zv(kj, j), zv(kk, k)); }, none, true); add(fmt("RevTwo(size %zu, %zu of %zu, %zu of %zu)", a, kj, j, kk, k), is(a == N && kj == kk && (kj == 0 || (j < M && k < N))), [=](F& f) { f.RevTwo(X(a), zv(kj, j), zv(kk, k)); }, none, true); }
    }
    for (int w = 0; w < 9; w++) for (int fwd = 0; fwd < 2; fwd++) { static const char* wn[] = {"valid", "x size", "row size", "column size", "row range", "column range", "color size", "color value", "color_method"};
        add(fmt("SparseJacobian%s, %s", fwd ? "Forward" : "Reverse", wn[w]), is(w == 0), [=](F& f) { dv jac(2); zv r{0, 1}, c{0, 2}; sv p(M); p[0] = {0, 1}; p[1] = {0, 2}; CppAD::sparse_jacobian_work wk; if (w == 2) r.push_back(0); if (w == 3) c.pop_back(); if (w == 4) r[1] = M; if (w == 5) c[0] = N; if (w == 6) wk.color.resize(4); if (w == 7) { wk.color.resize(fwd ? N : M); for (size_t i = 0; i < wk.color.size(); i++) wk.color[i] = 7; } if (w == 8) wk.color_method = "bad"; if (fwd) f.SparseJacobianForward(X(w == 1 ? 2 : 3), p, r, c, jac, wk); else f.SparseJacobianReverse(X(w == 1 ? 2 : 3), p, r, c, jac, wk); }, none, true);
        if (fwd) continue;
        add(fmt("SparseHessian, %s", wn[w]), is(w == 0), [=](F& f) { dv hes(2); zv r{0, 1}, c{1, 0}; sv p(N); p[0] = {0, 1, 2}; p[1] = {0}; p[2] = {0, 2}; CppAD::sparse_hessian_work wk; if (w == 2) r.push_back(0); if (w == 3) c.pop_back(); if (w == 4) r[1] = N; if (w == 5) c[0] = N; if (w == 6) wk.color.resize(2); if (w == 7) { wk.color.resize(N); for (size_t i = 0; i < N; i++) wk.color[i] = 7; } if (w == 8) wk.color_method = "bad"; f.SparseHessian(X(w == 1 ? 2 : 3), X(M), p, r, c, hes, wk); }, none, true); }
    for (int w = 0; w < 9; w++) for (int fwd = 0; fwd < 2; fwd++) { static const char* wn[] = {"valid", "subset rows", "subset columns", "pattern rows", "pattern columns", "coloring", "colpack missing", "used work", "x size"};
        if (w == 8 && true) continue;
        add(fmt("sparse_jac_%s, %s", fwd ? "for" : "rev", wn[w]), is(w == 0), [=](F& f) { RCV sub(full(w == 1 ? 3 : M, w == 2 ? 2 : N)); RC p = full(w == 3 ? 3 : M, w == 4 ? 2 : N); CppAD::sparse_jac_work wk; string c = w == 5 ? "bad" : w == 6 ? "colpack" : "cppad"; if (w == 7) { F g; vector<A> x(4), y(5); CppAD::Independent(x); for (int i = 0; i < 5; i++) y[i] = x[i % 4] * x[0]; g.Dependent(x, y); RCV s2(full(5, 4)); if (fwd) g.sparse_jac_for(1, X(4), s2, full(5, 4), c, wk); else g.sparse_jac_rev(X(4), s2, full(5, 4), c, wk); } if (fwd) f.sparse_jac_for(1, X(3), sub, p, c, wk); else f.sparse_jac_rev(X(3), sub, p, c, wk); }, none, true);
        if (fwd) continue;
        add(fmt("sparse_hes, %s", wn[w]), is(w == 0), [=](F& f) { RCV sub(full(w == 1 ? 2 : N, w == 2 ? 2 : N)); RC p = full(w == 3 ? 4 : N, w == 4 ? 2 : N); CppAD::sparse_hes_work wk; string c = w == 5 ? "bad" : w == 6 ? "colpack.symmetric" : "cppad.symmetric"; if (w == 7) { F g; vector<A> x(4), y(1); CppAD::Independent(x); y[0] = x[0] * x[1] * x[2] * x[3]; g.Dependent(x, y); RCV s2(full(4, 4)); g.sparse_hes(X(4), X(1), s2, full(4, 4), c, wk); } f.sparse_hes(X(3), X(M), sub, p, c, wk); }, none, true);
        if (w < 3) add(fmt("subgraph_jac_rev, %s", wn[w]), is(w == 0), [=](F& f) { RCV sub(full(w == 1 ? 3 : M, w == 2 ? 2 : N)); f.subgraph_jac_rev(X(3), sub); }, [](St& s) { s.sel = false; }, true); }
    for (size_t a = 2; a <= 4; a++) for (size_t b = 1; b <= 3; b++) add(fmt("sparse_hes(size %zu, weight %zu)", a, b), is(a == N && b == M), [=](F& f) { RCV sub(full(N, N)); CppAD::sparse_hes_work wk; f.sparse_hes(X(a), X(b), sub, full(N, N), "cppad.symmetric", wk); }, none, true);
    for (size_t k = 0; k < 3; k++) { add(fmt("size_forward_bool(%zu)", k), is(k == 0), [=](F& f) { f.size_forward_bool(k); }, [](St& s) { if (s.fjs == 1) s.fjs = 0; }); add(fmt("size_forward_set(%zu)", k), is(k == 0), [=](F& f) { f.size_forward_set(k); }, [](St& s) { if (s.fjs == 2) s.fjs = 0; }); }
    for (size_t k = 0; k <= M + 1; k++) add(fmt("Parameter(%zu)", k), is(k < M), [=](F& f) { f.Parameter(k); }, none);
    add("to_csrc(bad type)", is(false), [](F& f) { std::ostringstream o; f.to_csrc(o, "int"); }, none);
    add("from_json(bad)", is(false), [](F& f) { f.from_json("{ \"function_name\" : 3 }"); }, [](St&) {});
    add("Dependent without recording", is(false), [](F& f) { vector<A> y(1); y[0] = 1.0; f.Dependent(y); }, none);
    add("Dependent of constants", is(false), [](F& f) { vector<A> x(2), y(1); x[0] = x[1] = y[0] = 1.0; f.Dependent(x, y); }, none);
}
static string final_check(F& f, const St& s) {
    if (f.size_order() != s.ord || f.size_direction() != s.dir) return fmt("size_order %zu, size_direction %zu, expected %zu, %zu", f.size_order(), f.size_direction(), s.ord, s.dir);
    f.new_dynamic(dv{2.0}); dv x{0.5, 0.25, 1.0}, y = f.Forward(0, x), w{1.0, 2.0}, d = f.Reverse(1, w);
    double want[] = {2 * 0.5 * 0.25, std::sin(1.0) * 0.5}, wd[] = {0.5 + 2 * std::sin(1.0), 1.0, 2 * 0.5 * std::cos(1.0)};
    for (size_t i = 0; i < M; i++) if (!(std::fabs(y[i] - want[i]) < 1e-14)) return fmt("value %zu is %g, expected %g", i, y[i], want[i]);
    for (size_t j = 0; j < N; j++) if (!(std::fabs(d[j] - wd[j]) < 1e-14)) return fmt("derivative %zu is %g, expected %g", j, d[j], wd[j]); return "";
}
static string step(Run& R, F& f, St& s, const Call& c, uint64_t& h) {
    int ok = c.ok(s); bool err = false; string msg; R.transitions++;
    try { c.run(f); } catch (CppadError& e) { err = true; A::abort_recording(); if (!e.known) return c.name + (ok ? " (correct use)" : "") + " is reported as an unknown error: " + e.what(); msg = e.what(); } catch (std::exception& e) { return c.name + ": " + e.what(); }
    R.comparisons++; h = hash_bytes(&err, 1, h); if (err && ok == 1) return c.name + " is correct here but reports " + msg; if (!err && !ok) return c.name + " is not reported";
    if (!err) c.eff(s); else if (c.name.compare(0, 4, "ForS") == 0 || c.name.compare(0, 7, "for_jac") == 0 || c.name.compare(0, 6, "Sparse") == 0) s.fjs = 3; if (c.loose) { s.ord = f.size_order(); s.dir = f.size_direction(); s.sel = false; f.clear_subgraph(); } return "";
}
// ---- one misuse at a time while recording
static double table(const double& x) { return x < 0 ? 0 : 1; }
CPPAD_DISCRETE_FUNCTION(double, table)
struct Atom : CppAD::atomic_four<double> { Atom() : CppAD::atomic_four<double>("misuse_atom") {}
    bool for_type(size_t id, const CppAD::vector<CppAD::ad_type_enum>& tx, CppAD::vector<CppAD::ad_type_enum>& ty) override { if (id == 1 || tx.size() != 1) return false; ty[0] = id == 2 ? CppAD::ad_type_enum(77) : tx[0]; return true; }
    bool forward(size_t id, const CppAD::vector<bool>&, size_t, size_t q, const CppAD::vector<double>& x, CppAD::vector<double>& y) override { if (id == 3 || (id == 4 && q > 0)) return false; for (size_t k = 0; k <= q; k++) y[k] = x[k]; return true; } };
static const int NR = 30;
static const char* rname[NR] = {"Independent again", "Independent with abort_op_index and no record_compare", "Dependent(x with a changed element)", "Dependent(x permuted)", "Dependent(x too short)", "Dependent(x too long)", "Dependent(empty x)", "Dependent(x, empty y)", "Value(variable)", "Value(dynamic)",
    "VecAD[size_t] of a variable VecAD", "VecAD[size_t] out of range", "VecAD[-1]", "VecAD[length]", "PrintFor text too long", "VecAD reference +=", "Value(AD of expression)", "atomic: for_type returns false", "atomic: for_type returns an invalid type", "atomic: forward returns false", "ADFun(x with changed element, y)", "ADFun(empty x, y)",
    "discrete index error name", "Dependent(y) empty", "chkpoint new_dynamic size", "Independent(vector with size zero)", "PrintFor after too long", "parallel_ad while recording", "Value(VecAD element)", "no misuse"};
struct Recd { vector<A> x, p, y; CppAD::VecAD<double> v; Recd() : x(2), p(1), y(1), v(2) { x[0] = 1; x[1] = 2; p[0] = 3; } };
static bool applicable(int k) { return k != 22 && k != 24 && k != 25; }
static void misuse(int k, Recd& r) {
    static Atom at;
    switch (k) {
        case 0: { vector<A> z(1); z[0] = 1; CppAD::Independent(z); break; } case 1: { vector<A> z(1); z[0] = 1; CppAD::Independent(z, size_t(5), false); break; }
        case 2: { F f; vector<A> z = r.x; z[1] = z[0] + 1.0; f.Dependent(z, r.y); break; } case 3: { F f; vector<A> z{r.x[1], r.x[0]}; f.Dependent(z, r.y); break; } case 4: { F f; vector<A> z{r.x[0]}; f.Dependent(z, r.y); break; }
        case 5: { F f; vector<A> z = r.x; z.push_back(r.x[1]); f.Dependent(z, r.y); break; } case 6: { F f; vector<A> z; f.Dependent(z, r.y); break; } case 7: { F f; vector<A> y; f.Dependent(r.x, y); break; }
        case 8: (void)Value(r.x[1]); break; case 9: (void)Value(r.p[0]); break; case 10: (void)r.v[size_t(0)]; break; case 11: { CppAD::VecAD<double> w(2); (void)w[size_t(2)]; break; } case 12: { A i = A(0) * r.x[0] - 1.0; A a = r.v[i]; break; } case 13: { A i = r.x[0] + 1.0; A a = r.v[i]; break; }
        case 14: CppAD::PrintFor(A(0), string(1001, 'a').c_str(), r.x[0], ""); break; case 15: r.v[A(0)] += r.x[0]; break; case 16: (void)Value(r.x[0] * r.p[0]); break;
        case 17: case 18: case 19: { CppAD::vector<A> ax(1), ay(1); ax[0] = r.x[0]; at(size_t(k - 16), ax, ay); break; }
        case 20: { vector<A> z = r.x; z[0] = 5.0; F f(z, r.y); break; } case 21: { vector<A> z; F f(z, r.y); break; } case 23: { F f; vector<A> y; f.Dependent(y); break; }
        case 26: CppAD::PrintFor(A(0), "a", r.x[0], string(1001, 'a').c_str()); break; case 27: CppAD::parallel_ad<double>(); break; case 28: { A a = r.v[A(1)]; (void)Value(a); break; }
        default: break; }
}
static string record_case(Run& R, int k1, int k2, bool cont) {
    try { Recd r; CppAD::Independent(r.x, size_t(0), false, r.p); r.v[A(0)] = r.x[0]; r.v[A(1)] = r.x[1] * r.p[0]; r.y[0] = r.v[A(1)] + sin(r.x[0]);
        for (int k : {k1, k2}) { bool rep = false; try { misuse(k, r); } catch (CppadError& e) { rep = true; if (!e.known) { A::abort_recording(); return string(rname[k]) + " is reported as unknown error: " + e.what(); } } R.transitions++; R.comparisons++; if (rep != (k != 29)) { A::abort_recording(); return string(rname[k]) + (rep ? " is reported" : " is not reported"); } if (!Variable(r.x[0]) || !Dynamic(r.p[0])) return string(rname[k]) + " ended the recording"; }
        F f; Recd q; Recd* u = &r;
        if (!cont) { A::abort_recording(); for (auto& a : r.x) if (Variable(a)) return "still a variable after abort_recording"; u = &q; CppAD::Independent(q.x, size_t(0), false, q.p); q.v[A(0)] = q.x[0]; q.v[A(1)] = q.x[1] * q.p[0]; q.y[0] = q.v[A(1)] + sin(q.x[0]); }
        f.Dependent(u->x, u->y); f.new_dynamic(dv{2.0}); dv y = f.Forward(0, dv{0.5, 0.25}), d = f.Reverse(1, dv{1.0}); R.comparisons += 3; double w = 0.5 + std::sin(0.5);
        if (std::fabs(y[0] - w) > 1e-14 || std::fabs(d[0] - std::cos(0.5)) > 1e-14 || d[1] != 2.0) return fmt("later result is %g %g %g", y[0], d[0], d[1]); { vector<A> z(1); z[0] = 1; CppAD::Independent(z); A::abort_recording(); } return "";
    } catch (std::exception& e) { A::abort_recording(); return string("afterwards: ") + e.what(); }
}
// ---- handlers
static vector<string> g_log; struct Ret {};
template <int K> static void hand(bool known, int line, const char* file, const char* exp, const char* msg) { g_log.push_back(fmt("%d %d %d %s %s %s", K, known, line, file, exp, msg)); throw Ret(); }
static CppAD::ErrorHandler::Handler H[3] = {hand<0>, hand<1>, hand<2>};
static void g_default_child(int kind) {
    if (kind == 0) CppAD::ErrorHandler::Call(true, 77, "the_file", "the_exp", "the_msg"); else if (kind == 1) CppAD::ErrorHandler::Call(false, 77, "the_file", "the_exp", "the_msg"); else { CppAD::vector<double> v(1); v[1] = 0; } }
static string default_case(int kind) {
    int fd[2]; if (pipe(fd)) return "pipe"; pid_t p = fork(); if (p == 0) { dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); signal(SIGABRT, SIG_DFL); g_default_child(kind); _exit(0); }
    close(fd[1]); string out; char b[512]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, k); close(fd[0]); int st; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "the default handler returns";
    vector<string> need = kind < 2 ? vector<string>{"the_file", "the_exp", "the_msg", "77"} : vector<string>{"vector.hpp", "vector: index greater than or equal vector size"}; for (auto& s : need) if (out.find(s) == string::npos) return "the default handler does not print " + s + ": " + out; if ((out.find("a known source") != string::npos) != (kind != 1)) return "the default handler does not say whether the error is known: " + out; return "";
}
// ---- simulated threads
static bool g_par = false; static size_t g_thr = 0; static bool inpar() { return g_par; } static size_t thrn() { return g_thr; }
static void expect(Run& R, const char* what, bool want, std::function<void()> g) {
    bool rep = false; string m; try { g(); } catch (CppadError& e) { rep = true; m = e.what(); if (!e.known) { R.fail(string(what) + " is reported as an unknown error: " + m); return; } } catch (std::exception& e) { R.fail(string(what) + ": " + e.what()); return; }
    R.comparisons++; R.transitions++; if (rep != want) R.fail(string(what) + (rep ? " is correct use but reports " + m : " is not reported")); }
int main(int argc, char** argv) {
    Run R(argc, argv);
    return guarded_main(R, [&] {
        bool th = R.thorough();
        if (R.family("default")) for (int k = 0; k < 3; k++) if (R.next([&] { return fmt("default handler, %d", k); })) { string e = default_case(k); if (e.size()) R.fail(e); R.outcome(k); }
        if (R.family("handlers")) { // operations: push 0..2, pop, raise known/unknown, misuse of a vector, scope left by exception
            int depth = th ? 8 : 6; uint64_t tot = 1; for (int i = 0; i < depth; i++) tot *= 7;
            for (uint64_t c = 0; c < tot; c++) { if (!R.next([&] { string s; uint64_t q = c; for (int i = 0; i < depth; i++) { static const char* on[] = {"push 0", "push 1", "push 2", "pop", "raise known", "raise unknown", "vector misuse"}; s += string(i ? "; " : "") + on[q % 7]; q /= 7; } return s; })) continue;
                CppAD::ErrorHandler base(hand<0>); vector<int> ref{0}; vector<std::unique_ptr<CppAD::ErrorHandler>> st; uint64_t q = c; string e; uint64_t h = 0;
                for (int i = 0; i < depth && e.empty(); i++) { int o = q % 7; q /= 7; g_log.clear(); R.transitions++;
                    if (o < 3) { st.emplace_back(new CppAD::ErrorHandler(H[o])); ref.push_back(o); } else if (o == 3) { if (st.size()) { st.pop_back(); ref.pop_back(); } }
                    else { bool ret = false; string want; int line = 10 + i; try { if (o < 6) { want = fmt("%d %d %d file%d exp%d msg%d", ref.back(), o == 4, line, i, i, i); CppAD::ErrorHandler::Call(o == 4, line, fmt("file%d", i).c_str(), fmt("exp%d", i).c_str(), fmt("msg%d", i).c_str()); } else { CppAD::vector<double> v(1); v[1] = 0; } } catch (Ret&) { ret = true; }
                        R.comparisons++; if (!ret || g_log.size() != 1) e = "handler not called once"; else if (o < 6 ? g_log[0] != want : g_log[0][0] != char('0' + ref.back()) || g_log[0][2] != '1') e = "reported " + g_log[0] + ", expected handler " + fmt("%d", ref.back()) + " " + want; }
                    h = h * 4 + ref.back(); }
                while (st.size()) { st.pop_back(); ref.pop_back(); g_log.clear(); try { CppAD::ErrorHandler::Call(true, 1, "f", "e", "m"); } catch (Ret&) {} if (e.empty() && (g_log.size() != 1 || g_log[0][0] != char('0' + ref.back()))) e = "not restored"; }
                // a scope left by an exception restores the handler
                g_log.clear(); try { CppAD::ErrorHandler in(hand<2>); CppAD::ErrorHandler::Call(true, 1, "f", "e", "m"); } catch (Ret&) {} try { CppAD::ErrorHandler::Call(true, 1, "f", "e", "m"); } catch (Ret&) {} if (e.empty() && (g_log.size() != 2 || g_log[0][0] != '2' || g_log[1][0] != '0')) e = "not restored when a scope is left by an exception";
                if (e.size()) R.fail(e); R.outcome(h); } }
        CppAD::ErrorHandler eh(throw_handler);
        if (R.family("calls")) { build(); size_t K = calls.size(); F base; make(base); vector<std::pair<string, vector<string>>> pre = {{"new", {}}, {"order 0", {"Forward(0, size 3)"}}, {"order 1", {"Forward(1, size 6)"}}, {"order 2", {"Forward(2, size 9)", "subgraph_reverse(select size 3)"}}, {"2 directions", {"Forward(0, size 3)", "Forward(1, 2, size 6)"}}, {"bool patterns", {"ForSparseJac(2, bool size 6)", "Forward(0, size 3)"}}, {"set patterns", {"ForSparseJac(1, sets 3, element 0)", "Forward(1, size 6)", "subgraph_reverse(select size 3)", "subgraph_reverse(1, 1)"}}};
            auto find = [&](const string& n) -> const Call& { for (auto& c : calls) if (c.name == n) return c; throw std::runtime_error("no call " + n); };
            
            for (size_t p = 0; p < pre.size(); p++) for (size_t a = 0; a < K; a++) { if (!R.next([&] { return pre[p].first + ": " + calls[a].name + " and then every call"; })) continue; uint64_t h = 1469598103934665603ull;
                for (size_t b = 0; b < K; b++) { size_t c0 = 0, c1 = 1; if (th) c1 = K; bool stop = false; for (size_t c = c0; c < c1 && !stop; c++) { if (th && c % 7 != (a + b) % 7 && !calls[b].loose) continue; F f; f = base; St s; string e;
                    try { for (auto& n : pre[p].second) { uint64_t h0 = 0; e = step(R, f, s, find(n), h0); if (e.size()) break; } if (e.empty()) e = step(R, f, s, calls[a], h); if (e.empty()) e = step(R, f, s, calls[b], h); if (e.empty() && th) e = step(R, f, s, calls[c], h); if (e.empty()) { e = final_check(f, s); if (e.size()) e = "afterwards: " + e; } } catch (std::exception& x) { A::abort_recording(); e = string("afterwards: ") + x.what(); }
                    R.states++; if (e.size()) { R.fail("then " + calls[b].name + (th ? ", then " + calls[c].name : "") + ": " + e); stop = true; } } }
                R.outcome(h); } }
        if (R.family("recording")) for (int a = 0; a < NR; a++) for (int b = 0; b < NR; b++) for (int c = 0; c < 2; c++) { if (!applicable(a) || !applicable(b)) continue; if (!R.next([&] { return string(rname[a]) + "; " + rname[b] + (c ? "; recording continued" : "; abort_recording and a new recording"); })) continue; string e = record_case(R, a, b, c); if (e.size()) R.fail(e); R.outcome(a * 100 + b); }
        if (R.family("containers")) {
            for (size_t n = 0; n <= 3; n++) for (size_t k = 0; k <= 5; k++) { if (!R.next([&] { return fmt("vectors of size %zu, index or size %zu", n, k); })) continue; R.outcome(n * 10 + k); typedef CppAD::vector<double> cv; typedef CppAD::vectorBool cb; cv v(n), w(k); for (size_t i = 0; i < n; i++) v[i] = 1.0; for (size_t i = 0; i < k; i++) w[i] = 2.0; const cv& cvr = v; cb u(n); for (size_t i = 0; i < n; i++) u[i] = true; const cb& cu = u;
                expect(R, "vector[i]", k >= n, [&] { v[k] = 1.0; }); expect(R, "const vector[i]", k >= n, [&] { (void)cvr[k]; }); expect(R, "vector[int]", k >= n, [&] { (void)v[int(k)]; }); expect(R, "vectorBool[i]", k >= n, [&] { u[k] = true; }); expect(R, "const vectorBool[i]", k >= n, [&] { (void)bool(cu[k]); }); 
                expect(R, "vector == vector", k != n, [&] { (void)(v == w); }); expect(R, "vector < vector", k != n, [&] { (void)(v < w); }); expect(R, "vector >= vector", k != n, [&] { (void)(v >= w); }); expect(R, "vector != vector", k != n, [&] { (void)(v != w); }); expect(R, "vector > vector", k != n, [&] { (void)(v > w); }); expect(R, "vector <= vector", k != n, [&] { (void)(v <= w); });
                expect(R, "vector = vector", false, [&] { cv a(n); a = w; if (a.size() != k) throw std::runtime_error("size"); }); expect(R, "vector(int)", false, [&] { cv a((int(k))); }); expect(R, "vector(-int)", k > 0, [&] { cv a(-int(k)); }); expect(R, "vectorBool(-int)", k > 0, [&] { cb a(-int(k)); });
                expect(R, "index_sort", k != n, [&] { CppAD::vector<size_t> ind(k); CppAD::index_sort(v, ind); });
                expect(R, "discrete_name", false, [&] { if (string(CppAD::discrete<double>::name(0)) != "table") throw std::runtime_error("name"); }); 
                RC p(n, n, n); for (size_t i = 0; i < n; i++) p.set(i, i, n - 1 - i);
                for (size_t r = 0; r <= 4; r++) for (size_t c = 0; c <= 4; c++) { expect(R, "sparse_rc::set", k >= n || r >= n || c >= n, [&] { RC q = p; q.set(k, r, c); }); if (k == 0) expect(R, "sparse_rc::push_back", r >= n || c >= n, [&] { RC q = p; q.push_back(r, c); if (q.nnz() != n + 1) throw std::runtime_error("nnz"); }); bool dup = false; if (r < n && c < n && k < n) { RC q = p; q.set(k, r, c); std::set<std::pair<size_t, size_t>> s; for (size_t i = 0; i < n; i++) dup |= !s.insert({q.row()[i], q.col()[i]}).second; expect(R, "sparse_rc::row_major", dup, [&] { q.row_major(); }); expect(R, "sparse_rc::col_major", dup, [&] { q.col_major(); }); } }
                expect(R, "sparse_rcv::set", k >= n, [&] { RCV m(p); m.set(k, 1.0); });
                for (size_t j = 0; j <= 5; j++) { if (n == 0) break; expect(R, "LuFactor", !(k == n && j == n * n), [&] { zv ip(n), jp(k); dv lu(j, 0.0); if (j == n * n) for (size_t i = 0; i < n; i++) lu[i * n + i] = 1.0; CppAD::LuFactor(ip, jp, lu); });}
            }
            for (int a = 0; a < 4; a++) for (int r = 0; r < 4; r++) { if (!R.next([&] { return fmt("NearEqual %d %d", a, r); })) continue; double t[] = {-1.0, 0.0, 1e-10, 1.0}; expect(R, "NearEqual", t[a] < 0 || t[r] < 0, [&] { CppAD::NearEqual(1.0, 1.0, t[r], t[a]); }); expect(R, "NearEqual complex", t[a] < 0 || t[r] < 0, [&] { CppAD::NearEqual(std::complex<double>(1, 1), 1.0, t[r], t[a]); }); R.outcome(a * 4 + r); }
            for (size_t n = 1; n <= 2; n++) for (size_t m = 0; m <= 2; m++) for (int da = -1; da <= 1; da++) for (int db = -1; db <= 1; db++) for (int dx = -1; dx <= 1; dx++) { if (m == 0 && (db < 0 || dx < 0)) continue; if (!R.next([&] { return fmt("LuSolve(%zu, %zu) sizes %d %d %d", n, m, da, db, dx); })) continue; R.outcome(m); expect(R, "LuSolve", da || db || dx, [&] { dv Am(n * n + da, 0.0), B(n * m + db, 1.0), Xm(n * m + dx), lx; if (!da) for (size_t i = 0; i < n; i++) Am[i * n + i] = 1.0; double ld; CppAD::LuSolve(n, m, Am, B, Xm, ld); });
                if (!m) continue; expect(R, "LuInvert", da || dx || (db && n * m + db != n * ((n * m + db) / n)), [&] { zv ip(n), jp(n + dx); for (size_t i = 0; i < n; i++) ip[i] = i; for (size_t i = 0; i < jp.size(); i++) jp[i] = std::min(i, n - 1); dv lu(n * n + da, 0.0), B(n * m + db, 1.0); if (!da) for (size_t i = 0; i < n; i++) lu[i * n + i] = 1.0; CppAD::LuInvert(ip, jp, lu, B); }); }
        }
        if (R.family("ode")) for (size_t Ms = 0; Ms <= 2; Ms++) for (size_t ne = 0; ne <= 3; ne++) { if (!R.next([&] { return fmt("ODE steps %zu, size of e %zu", Ms, ne); })) continue; R.outcome(Ms * 4 + ne);
            struct Fun { void Ode(const double&, const dv& x, dv& f) { f = x; } void Ode_ind(const double&, const dv& x, dv& t) { t.assign(x.size(), 0.0); } void Ode_dep(const double&, const dv& x, dv& g) { g.assign(x.size() * x.size(), 0.0); for (size_t i = 0; i < x.size(); i++) g[i * x.size() + i] = 1.0; } void Ode(const double&, const dv& x, dv& f, dv& g) { f = x; dv y = x; Ode_dep(0, y, g); } };
            expect(R, "Runge45", Ms == 0 || ne != 2, [&] { Fun F1; double a = 0, b = 1; dv e(ne); CppAD::Runge45(F1, Ms, a, b, dv(2, 1.0), e); }); expect(R, "Rosen34", Ms == 0 || ne != 2, [&] { Fun F1; double a = 0, b = 1; dv e(ne); CppAD::Rosen34(F1, Ms, a, b, dv(2, 1.0), e); });
            for (size_t nT = 0; nT <= 3; nT++) for (size_t nX = 0; nX <= 4; nX++) for (int mono = 0; mono < 2; mono++) { bool bad = Ms < 1 || ne == 0 || nT < Ms + 1 || nX < (Ms + 1) * ne || mono; expect(R, "OdeGear", bad, [&] { struct G { void Ode(const double&, const dv& x, dv& f) { f.assign(x.size(), 1.0); } void Ode_dep(const double&, const dv& x, dv& g) { g.assign(x.size() * x.size(), 0.0); } } F1; dv T(nT), Xv(nX, 0.0), e(ne); for (size_t i = 0; i < nT; i++) T[i] = 0.125 * double(i); if (mono && nT > Ms) T[Ms] = 0.0; CppAD::OdeGear(F1, Ms, ne, T, Xv, e); }); }
            for (int sm = 0; sm < 2; sm++) for (size_t me = 0; me <= 3; me++) for (size_t od = 0; od <= 3; od++) expect(R, "OdeErrControl", sm || ne != 2 || me != 2 || od < 2, [&] { struct Me { size_t o; void step(double ta, double tb, dv& xa, dv& xb, dv& eb) { xb = xa; for (auto& x : xb) x += tb - ta; eb.assign(xa.size(), 0.0); } size_t order() { return o; } } m{od}; dv maxabs(me), ef(2), eabs(ne, 1.0); double s = 0.25; CppAD::OdeErrControl(m, 0.0, 1.0, dv(2, 1.0), sm ? 2.0 : 0.125, 1.0, s, eabs, 0.0, ef, maxabs); });
            for (int sm = 0; sm < 3; sm++) for (size_t me = 0; me <= 3; me++) expect(R, "OdeGearControl", Ms < 1 || sm || ne != 2 || me != 2, [&] { struct G { void Ode(const double&, const dv& x, dv& f) { f.assign(x.size(), 1.0); } void Ode_dep(const double&, const dv& x, dv& g) { g.assign(x.size() * x.size(), 0.0); } } F1; dv maxabs(me), ef(2), eabs(ne, 1.0); size_t ns; double sini = sm == 2 ? 2.0 : 0.25; CppAD::OdeGearControl(F1, Ms, 0.0, 1.0, dv(2, 1.0), sm == 1 ? 2.0 : 0.125, 1.0, sini, eabs, 0.0, ef, maxabs, ns); });
            expect(R, "RombergOne", Ms + ne < 2, [&] { double e; struct S { double operator()(double x) { return x; } } s; CppAD::RombergOne(s, 0.0, 1.0, Ms + ne, size_t(2), e); }); }
        if (R.family("threads")) { CppAD::thread_alloc::hold_memory(false);
            for (int par = 0; par < 2; par++) for (size_t nt = 1; nt <= 3; nt++) for (size_t t = 0; t <= 4; t++) { if (!par && t) continue; if (!R.next([&] { return fmt("%s mode, %zu threads, thread %zu", par ? "parallel" : "sequential", nt, t); })) continue; R.outcome(nt * 10 + t); g_par = false; g_thr = 0; CppAD::thread_alloc::parallel_setup(nt, inpar, thrn); size_t cap; void* mine = CppAD::thread_alloc::get_memory(8, cap); bool bad = t >= nt;
                if (nt == 1) { CppAD::thread_alloc::return_memory(mine); continue; }   // one thread: the functions are not used
                g_par = par; g_thr = t; expect(R, "thread_num", bad, [] { CppAD::thread_alloc::thread_num(); });
                if (!bad) { void* here = nullptr; expect(R, "get_memory", false, [&] { size_t c; here = CppAD::thread_alloc::get_memory(8, c); }); expect(R, "return_memory", false, [&] { CppAD::thread_alloc::return_memory(here); });
                    expect(R, "return_memory of thread 0", par && t != 0, [&] { CppAD::thread_alloc::return_memory(mine); mine = nullptr; }); for (size_t k = 0; k <= CPPAD_MAX_NUM_THREADS; k += k < 3 ? 1 : CPPAD_MAX_NUM_THREADS - 3) expect(R, "free_available", k >= CPPAD_MAX_NUM_THREADS || (par && k != t), [&] { CppAD::thread_alloc::free_available(k); });
                    expect(R, "free_all", par, [] { CppAD::thread_alloc::free_all(); }); expect(R, "memory_leak", par, [] { CppAD::memory_leak(); }); expect(R, "parallel_ad", par, [] { CppAD::parallel_ad<float>(); }); expect(R, "atomic constructor", par, [] { Atom a; }); expect(R, "discrete constructor", par, [] { static vector<CppAD::discrete<double>*> keep; keep.push_back(new CppAD::discrete<double>("again", table)); });
                    expect(R, "TrackNewVec", par, [] { double* p = CPPAD_TRACK_NEW_VEC(3, p); CPPAD_TRACK_DEL_VEC(p); }); struct V1 : vector<double> { using vector<double>::vector; }; static size_t once = 0; (void)once; }
                g_par = false; g_thr = 0; if (mine) CppAD::thread_alloc::return_memory(mine); }
            g_par = false; g_thr = 0; 
            for (size_t nt : {size_t(0), size_t(1), size_t(2), size_t(CPPAD_MAX_NUM_THREADS), size_t(CPPAD_MAX_NUM_THREADS) + 1}) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { if (!R.next([&] { return fmt("parallel_setup(%zu, %d, %d)", nt, a, b); })) continue; R.outcome(nt); expect(R, "parallel_setup", nt == 0 || nt > CPPAD_MAX_NUM_THREADS || (nt > 1 && !(a && b)), [&] { CppAD::thread_alloc::parallel_setup(nt, a ? inpar : nullptr, b ? thrn : nullptr); }); }
            CppAD::thread_alloc::parallel_setup(1, nullptr, nullptr); }
    });
}
