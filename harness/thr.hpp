// Thread programs of C23: what each writes with lg() must not depend on the other threads.
#ifndef THR_HPP
#define THR_HPP
#include "trt.hpp"
#include <cppad/cppad.hpp>
#include <string>
#include <vector>
#include <set>
#include <sstream>
namespace thr {
typedef CppAD::AD<double> A1; typedef CppAD::AD<A1> A2; typedef CppAD::ADFun<double> Fun;
typedef CppAD::vector<double> VD; typedef CppAD::vector<A1> V1; typedef CppAD::vector<A2> V2; typedef CppAD::vector<bool> VB; typedef CppAD::vector<size_t> VS;
typedef CppAD::sparse_rc<VS> RC; typedef CppAD::sparse_rcv<VS, VD> RCV;
struct Program { const char* name; void (*run)(int t); };
void append(const char* s, size_t n);
inline void lg(const std::string& s) { append(s.data(), s.size()); append("\n", 1); }
inline void lg(const char* s) { lg(std::string(s)); }
inline void num(double v) { char b[40]; int n = snprintf(b, 40, "%.17g ", v); append(b, n); }
inline void lg(double v) { num(v); append("\n", 1); }
template <class V> void lgv(const V& v) { for (size_t i = 0; i < v.size(); i++) num(double(v[i])); append("\n", 1); }
inline void lgp(const RC& p) { auto o = p.row_major(); for (size_t k = 0; k < p.nnz(); k++) { num(double(p.row()[o[k]])); num(double(p.col()[o[k]])); } append("\n", 1); }
inline void lgm(const RCV& p) { auto o = p.row_major(); for (size_t k = 0; k < p.nnz(); k++) { num(double(p.row()[o[k]])); num(double(p.col()[o[k]])); num(p.val()[o[k]]); } append("\n", 1); }
inline void S() { trt::step(); }
inline VD at(int t, size_t n) { VD x(n); for (size_t j = 0; j < n; j++) x[j] = 0.3 + 0.1 * t + 0.25 * j; return x; }
inline V1 aat(int t, size_t n) { VD x = at(t, n); V1 a(n); for (size_t j = 0; j < n; j++) a[j] = x[j]; return a; }
// values, first and second order in both modes
inline void orders(Fun& f, int t) {
    size_t n = f.Domain(), m = f.Range(); lgv(f.Forward(0, at(t, n))); S();
    VD d(n); for (size_t j = 0; j < n; j++) d[j] = 1.0 - 0.5 * j; lgv(f.Forward(1, d)); lgv(f.Forward(2, d)); S();
    VD w(m); for (size_t i = 0; i < m; i++) w[i] = 1.0 + i; lgv(f.Reverse(2, w)); S(); }
void reg_a(std::vector<Program>& p); void reg_b(std::vector<Program>& p); void reg_c(std::vector<Program>& p); void reg_d(std::vector<Program>& p);
void setup_a(); void setup_b(); void setup_c(); void setup_d();            // sequential: shared objects and first calls
void teardown_a(); void teardown_b(); void teardown_c(); void teardown_d();      // sequential, after the threads
}
#endif
