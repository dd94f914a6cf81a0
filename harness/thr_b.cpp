#include "thr.hpp"
// sparsity, sparse derivatives, graphs, source code
namespace thr { namespace {
void make(Fun& f, int t) { V1 x = aat(t, 4), y(4), p(1); p[0] = 1.0; CppAD::Independent(x, size_t(0), true, p); y[0] = x[0] * x[1]; y[1] = sin(x[2]) * p[0]; y[2] = CondExpLt(x[0], x[3], x[3] * x[3], x[2]); y[3] = x[0] + x[3]; CppAD::VecAD<double> v(2); v[0] = 1.0; v[1] = 2.0; v[x[3] - x[3]] = x[1]; y[3] += v[A1(0.0)]; f.Dependent(x, y); }
RC ident(size_t n) { RC p(n, n, n); for (size_t k = 0; k < n; k++) p.set(k, k, k); return p; }
void pattern(int t) {
    Fun f; make(f, t); S(); for (int b = 0; b < 2; b++) { RC o; f.for_jac_sparsity(ident(4), false, false, b, o); lgp(o); S(); f.rev_jac_sparsity(ident(4), true, true, b, o); lgp(o); S(); VB s(4); s[0] = s[1] = s[2] = true; s[3] = false; f.rev_hes_sparsity(s, false, b, o); lgp(o); S(); VB d(4); d[0] = d[1] = d[2] = d[3] = true; f.for_hes_sparsity(d, s, b, o); lgp(o); f.subgraph_sparsity(d, s, false, o); lgp(o); lg(double(f.size_forward_bool())); lg(double(f.size_forward_set())); S(); }
}
void old_pattern(int t) {
    Fun f; make(f, t); S(); VB r(16); for (size_t k = 0; k < 16; k++) r[k] = k % 5 == 0; lgv(f.ForSparseJac(4, r)); S(); lgv(f.RevSparseJac(4, r)); S(); VB s(4); s[0] = true; s[1] = s[2] = s[3] = true; lgv(f.RevSparseHes(4, s)); S();
    CppAD::vector<std::set<size_t>> R(4), Q; for (size_t k = 0; k < 4; k++) R[k].insert(k); Q = f.ForSparseJac(4, R); S(); for (auto& q : Q) for (size_t k : q) num(double(k)); CppAD::vector<std::set<size_t>> Z(1); Z[0].insert(0); Z[0].insert(2); Q = f.RevSparseHes(4, Z); for (auto& q : Q) for (size_t k : q) num(double(k)); S(); CppAD::vector<std::set<size_t>> D(1); for (size_t k = 0; k < 4; k++) D[0].insert(k); Q = f.ForSparseHes(D, Z); for (auto& q : Q) for (size_t k : q) num(double(k)); S(); Q = f.RevSparseJac(4, R); for (auto& q : Q) for (size_t k : q) num(double(k)); lg("");
}
void jac(int t) {
    Fun f; make(f, t); RC p; f.for_jac_sparsity(ident(4), false, false, false, p); S(); VD x = at(t, 4); RCV m(p); CppAD::sparse_jac_work w; lg(double(f.sparse_jac_for(2, x, m, p, "cppad", w))); lgm(m); S(); lg(double(f.sparse_jac_for(2, x, m, p, "cppad", w))); S(); CppAD::sparse_jac_work u; lg(double(f.sparse_jac_rev(x, m, p, "cppad", u))); lgm(m); S(); VB d(4), r(4); for (int k = 0; k < 4; k++) d[k] = r[k] = k != 1; f.subgraph_jac_rev(d, r, x, m); lgm(m); S(); f.clear_subgraph();
}
void hes(int t) {
    Fun f; make(f, t); RC q; VB s(4); s[0] = s[1] = s[2] = s[3] = true; f.for_hes_sparsity(s, s, true, q); S(); VD x = at(t, 4), w(4); for (int k = 0; k < 4; k++) w[k] = 1.0 + k; RCV m(q); for (const char* c : {"cppad.symmetric", "cppad.general"}) { CppAD::sparse_hes_work k; lg(double(f.sparse_hes(x, w, m, q, c, k))); lgm(m); S(); lg(double(f.sparse_hes(x, w, m, q, c, k))); S(); }
}
void subgraph(int t) {
    Fun f; make(f, t); VB d(4); d[0] = d[1] = d[2] = true; d[3] = false; S(); f.subgraph_reverse(d); f.Forward(0, at(t, 4)); f.Forward(1, at(t, 4)); S(); for (size_t i = 0; i < 4; i++) { VS c; VD dw; f.subgraph_reverse(2, i, c, dw); for (size_t k = 0; k < c.size(); k++) { num(double(c[k])); num(dw[c[k] * 2]); num(dw[c[k] * 2 + 1]); } S(); } lg("");
}
double dis_b(const double& x) { return x < 0.6 ? 1.0 : 3.0; }
CPPAD_DISCRETE_FUNCTION(double, dis_b)
void graph(int t) {
    V1 x = aat(t, 2), y(2), p(1); p[0] = 0.5; CppAD::Independent(x, size_t(0), true, p); y[0] = x[0] * exp(x[1]) + dis_b(x[0]); y[1] = CondExpLe(x[0], p[0], x[1], x[0] + x[1] + p[0]); CppAD::PrintFor(x[0], "a ", x[1], "b"); Fun f(x, y); f.function_name_set("g"); S();
    CppAD::cpp_graph g; f.to_graph(g); S(); Fun h; h.from_graph(g); VD q(1); q[0] = 0.45; h.new_dynamic(q); S(); lgv(h.Forward(0, at(t, 2))); S(); std::string j = h.to_json(); lg(j); S(); Fun k; k.from_json(j); k.new_dynamic(q); S(); lgv(k.Forward(0, at(t, 2))); lgv(k.Forward(1, at(t, 2))); S();
}
void source(int t) {
    V1 x = aat(t, 2), y(2); CppAD::Independent(x); y[0] = x[0] * exp(x[1]) + x[0] + x[1] + 1.0; y[1] = CondExpLe(x[0], A1(0.5), x[1], x[0]) + abs(x[0]); Fun f(x, y); f.function_name_set("s"); S(); std::stringstream s; f.to_csrc(s, "double"); lg(s.str()); S(); f.optimize(); std::stringstream u; f.to_csrc(u, "float"); lg(u.str());
}
void abs_normal(int t) {
    V1 x = aat(t, 2), y(1); CppAD::Independent(x); y[0] = abs(x[0] - x[1]) + abs(abs(x[0]) - 0.5); Fun f(x, y), g, a; S(); f.abs_normal_fun(g, a); S(); orders(a, t); lg(double(g.Domain())); lg(double(g.Range()));
}
}
void setup_b() { dis_b(A1(0.0)); CppAD::cpp_graph g; std::set<size_t> a, b; a.insert(0); b.insert(1); CppAD::CheckSimpleVector<std::set<size_t>, CppAD::vector<std::set<size_t>>>(a, b); CppAD::CheckSimpleVector<bool, VB>(); CppAD::CheckSimpleVector<A2, V2>(); }
void teardown_b() {}
void reg_b(std::vector<Program>& p) {
    p.insert(p.end(), {{"pattern", pattern}, {"old_pattern", old_pattern}, {"jac", jac}, {"hes", hes}, {"subgraph", subgraph}, {"graph", graph}, {"source", source}, {"abs_normal", abs_normal}});
} }
