#pragma once
// Patterns computed by every sparsity routine, as sets of (row, column), and numerical derivatives.
#ifndef SPARSITY_HPP
#define SPARSITY_HPP
#include "battery.hpp"
namespace sp {
using namespace adhook;
typedef std::set<std::pair<size_t, size_t>> Pat;
typedef CppAD::vector<size_t> VS; typedef CppAD::vector<bool> VB;
typedef CppAD::sparse_rc<VS> RC;
template <class V> Pat to_set(const CppAD::sparse_rc<V>& p, bool tr = false) { Pat s; for (size_t k = 0; k < p.nnz(); k++) s.insert(tr ? std::make_pair(p.col()[k], p.row()[k]) : std::make_pair(p.row()[k], p.col()[k])); return s; }
inline RC from_set(size_t nr, size_t nc, const Pat& s, bool tr = false) { RC p(tr ? nc : nr, tr ? nr : nc, s.size()); size_t k = 0; for (auto& e : s) { tr ? p.set(k, e.second, e.first) : p.set(k, e.first, e.second); k++; } return p; }
inline Pat identity(size_t n) { Pat s; for (size_t i = 0; i < n; i++) s.insert({i, i}); return s; }
// pattern of J * R, R is n by l
inline Pat for_jac(CppAD::ADFun<double>& f, const Pat& r, size_t l, bool tr, bool dep, bool ib) {
    RC in = from_set(f.Domain(), l, r, tr), out; f.for_jac_sparsity(in, tr, dep, ib, out); return to_set(out, tr); }
// pattern of R * J, R is l by m
inline Pat rev_jac(CppAD::ADFun<double>& f, const Pat& r, size_t l, bool tr, bool dep, bool ib) {
    RC in = from_set(l, f.Range(), r, tr), out; f.rev_jac_sparsity(in, tr, dep, ib, out); return to_set(out, tr); }
inline Pat sub_jac(CppAD::ADFun<double>& f, const VB& dom, const VB& ran, bool tr) { RC out; f.subgraph_sparsity(dom, ran, tr, out); return to_set(out, tr); }
inline Pat old_for_jac_bool(CppAD::ADFun<double>& f, const Pat& r, size_t q, bool tr, bool dep) {
    size_t n = f.Domain(), m = f.Range(); VB in(n * q); for (size_t i = 0; i < n * q; i++) in[i] = false;
    for (auto& e : r) in[tr ? e.second * n + e.first : e.first * q + e.second] = true;
    VB s = f.ForSparseJac(q, in, tr, dep); Pat o;
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < q; j++) if (s[tr ? j * m + i : i * q + j]) o.insert({i, j}); return o; }
inline Pat old_for_jac_set(CppAD::ADFun<double>& f, const Pat& r, size_t q, bool tr, bool dep) {
    size_t n = f.Domain(); CppAD::vector<std::set<size_t>> in(tr ? q : n); for (auto& e : r) tr ? in[e.second].insert(e.first) : in[e.first].insert(e.second);
    auto s = f.ForSparseJac(q, in, tr, dep); Pat o; for (size_t i = 0; i < s.size(); i++) for (size_t j : s[i]) o.insert(tr ? std::make_pair(j, i) : std::make_pair(i, j)); return o; }
inline Pat old_rev_jac_bool(CppAD::ADFun<double>& f, const Pat& r, size_t q, bool tr, bool dep) {
    size_t n = f.Domain(), m = f.Range(); VB in(m * q); for (size_t i = 0; i < m * q; i++) in[i] = false;
    for (auto& e : r) in[tr ? e.second * q + e.first : e.first * m + e.second] = true;
    VB s = f.RevSparseJac(q, in, tr, dep); Pat o;
    for (size_t i = 0; i < q; i++) for (size_t j = 0; j < n; j++) if (s[tr ? j * q + i : i * n + j]) o.insert({i, j}); return o; }
inline Pat old_rev_jac_set(CppAD::ADFun<double>& f, const Pat& r, size_t q, bool tr, bool dep) {
    size_t m = f.Range(); CppAD::vector<std::set<size_t>> in(tr ? m : q); for (auto& e : r) tr ? in[e.second].insert(e.first) : in[e.first].insert(e.second);
    auto s = f.RevSparseJac(q, in, tr, dep); Pat o; for (size_t i = 0; i < s.size(); i++) for (size_t j : s[i]) o.insert(tr ? std::make_pair(j, i) : std::make_pair(i, j)); return o; }
inline Pat for_hes(CppAD::ADFun<double>& f, const VB& dom, const VB& ran, bool ib) { RC o; f.for_hes_sparsity(dom, ran, ib, o); return to_set(o); }
// columns selected by dom: H * diag(dom)
inline Pat rev_hes(CppAD::ADFun<double>& f, const VB& dom, const VB& ran, bool tr, bool ib) {
    Pat r; for (size_t j = 0; j < f.Domain(); j++) if (dom[j]) r.insert({j, j});
    for_jac(f, r, f.Domain(), false, false, ib); RC o; f.rev_hes_sparsity(ran, tr, ib, o); return to_set(o, tr); }
inline Pat old_rev_hes_bool(CppAD::ADFun<double>& f, const VB& dom, const VB& ran, bool tr) {
    Pat r; size_t n = f.Domain(); for (size_t j = 0; j < n; j++) if (dom[j]) r.insert({j, j});
    old_for_jac_bool(f, r, n, false, false); VB s = f.RevSparseHes(n, ran, tr); Pat o; // s(x) = R^T H or H R
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (s[i * n + j]) o.insert(tr ? std::make_pair(i, j) : std::make_pair(j, i)); return o; }
inline Pat old_rev_hes_set(CppAD::ADFun<double>& f, const VB& dom, const VB& ran, bool tr) {
    Pat r; size_t n = f.Domain(); for (size_t j = 0; j < n; j++) if (dom[j]) r.insert({j, j});
    old_for_jac_set(f, r, n, false, false); CppAD::vector<std::set<size_t>> w(1); for (size_t i = 0; i < f.Range(); i++) if (ran[i]) w[0].insert(i);
    auto s = f.RevSparseHes(n, w, tr); Pat o; for (size_t i = 0; i < s.size(); i++) for (size_t j : s[i]) o.insert(tr ? std::make_pair(i, j) : std::make_pair(j, i)); return o; }
inline Pat old_for_hes_bool(CppAD::ADFun<double>& f, const VB& dom, const VB& ran) {
    size_t n = f.Domain(); VB s = f.ForSparseHes(dom, ran); Pat o; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (s[i * n + j]) o.insert({i, j}); return o; }
inline Pat old_for_hes_set(CppAD::ADFun<double>& f, const VB& dom, const VB& ran) {
    size_t n = f.Domain(); CppAD::vector<std::set<size_t>> r(1), w(1); for (size_t j = 0; j < n; j++) if (dom[j]) r[0].insert(j); for (size_t i = 0; i < f.Range(); i++) if (ran[i]) w[0].insert(i);
    auto s = f.ForSparseHes(r, w); Pat o; for (size_t i = 0; i < s.size(); i++) for (size_t j : s[i]) o.insert({i, j}); return o; }
inline VB all(size_t n) { VB v(n); for (size_t i = 0; i < n; i++) v[i] = true; return v; }
// numerical derivatives at a point: bad dependents give zero rows
inline std::vector<double> num_jac(CppAD::ADFun<double>& f, const VD& x) {
    size_t n = f.Domain(), m = f.Range(); f.Forward(0, x); std::vector<double> J(m * n); VD e(n);
    for (size_t j = 0; j < n; j++) { for (size_t k = 0; k < n; k++) e[k] = k == j; VD d = f.Forward(1, e); for (size_t i = 0; i < m; i++) J[i * n + j] = d[i]; }
    return J; }
// H[i*n*n + j*n + k]
inline std::vector<double> num_hes(CppAD::ADFun<double>& f, const VD& x) {
    size_t n = f.Domain(), m = f.Range(); f.Forward(0, x); std::vector<double> H(m * n * n); VD e(n), w(m);
    for (size_t j = 0; j < n; j++) { for (size_t k = 0; k < n; k++) e[k] = k == j; f.Forward(1, e);
        for (size_t i = 0; i < m; i++) { for (size_t k = 0; k < m; k++) w[k] = k == i; VD d = f.Reverse(2, w); for (size_t k = 0; k < n; k++) H[i * n * n + j * n + k] = d[k * 2 + 1]; } }
    return H; }
inline std::string str(const Pat& p) { std::string s; for (auto& e : p) s += vf::fmt("(%zu,%zu)", e.first, e.second); return s.empty() ? "empty" : s; }
inline bool subset(const Pat& a, const Pat& b) { for (auto& e : a) if (!b.count(e)) return false; return true; }
}
#endif
