#include "thr.hpp"
#include <complex>
// memory, containers and utilities
namespace thr { namespace {
using CppAD::thread_alloc;
void memory(int t) {
    lg(double(thread_alloc::thread_num() == size_t(t))); lg(double(thread_alloc::inuse(t))); std::vector<std::pair<double*, size_t>> b;
    for (size_t k : {1, 3, 17, 200, 1000}) { size_t n; double* p = thread_alloc::create_array<double>(k, n); for (size_t i = 0; i < n; i++) p[i] = t * 1000.0 + k; b.push_back({p, n}); lg(double(n)); S(); }
    lg(double(thread_alloc::inuse(t))); for (auto& x : b) { double s = 0; for (size_t i = 0; i < x.second; i++) s += x.first[i]; lg(s); thread_alloc::delete_array(x.first); S(); }
    lg(double(thread_alloc::inuse(t))); lg(double(thread_alloc::available(t))); size_t cap; void* v = thread_alloc::get_memory(100, cap); lg(double(cap)); S(); thread_alloc::return_memory(v); thread_alloc::free_available(t); lg(double(thread_alloc::available(t)));
}
void vectors(int t) {
    VD v; for (int k = 0; k < 20; k++) { v.push_back(k + t); if (k % 7 == 0) S(); } VD w = v; w.resize(5); w.push_vector(v); S(); lgv(w); CppAD::vectorBool b(70); for (size_t k = 0; k < 70; k++) b[k] = k % 3 == 0; b.push_back(true); S(); lgv(b); std::stringstream s; s << v << b; lg(s.str()); v.swap(w); v.clear(); lg(double(v.capacity())); CppAD::vector<std::string> q(3); q[1] = "a longer string that is on the heap " + std::to_string(t); q.resize(9); S(); q[8] = q[0]; lg(q[8]); lg(double(q.size()));
}
void matrices(int t) {
    RC p(3, 4, 5); for (size_t k = 0; k < 5; k++) p.set(k, (k * 2) % 3, (k * 3) % 4); S(); auto r = p.row_major(); lgv(r); auto c = p.col_major(); lgv(c); RC q = p; q.push_back(2, 3); lg(double(q == p)); p.set_row_major(); S(); RCV m(p); for (size_t k = 0; k < 5; k++) m.set(k, k + t); lgm(m); std::stringstream s; s << p; lg(s.str()); S(); VS key(6), ind(6); for (size_t k = 0; k < 6; k++) key[k] = (k * 5 + t) % 7; CppAD::index_sort(key, ind); lgv(ind);
}
struct F { template <class V> void Ode(const double& t, const V& x, V& f) { f[0] = x[1]; f[1] = -x[0] + t; S(); } template <class V> void Ode_ind(const double&, const V&, V& ft) { ft[0] = 0; ft[1] = 1; } template <class V> void Ode_dep(const double&, const V&, V& fx) { fx[0] = 0; fx[1] = 1; fx[2] = -1; fx[3] = 0; } };
struct G : F { void Ode(const double& t, const VD& x, VD& f) { F::Ode(t, x, f); } void Ode_dep(const double& t, const VD& x, VD& f) { F::Ode_dep(t, x, f); } };
struct M { G g; void step(double ta, double tb, VD& xa, VD& xb, VD& eb) { xb = CppAD::Runge45(g, 1, ta, tb, xa, eb); } size_t order() { return 4; } };
void odes(int t) {
    F f; VD x = at(t, 2), e(2); double ti = 0.0, tf = 0.5, smin = 0.01, smax = 0.5; size_t M2 = 2; lgv(CppAD::Runge45(f, M2, ti, tf, x, e)); lgv(e); S(); lgv(CppAD::Rosen34(f, M2, ti, tf, x, e)); lgv(e); S(); M m; VD a(2), r(2), ef(2); a[0] = a[1] = 1e-3; r[0] = r[1] = 0; double s = 0.1, r1 = 0; lgv(CppAD::OdeErrControl(m, ti, tf, x, smin, smax, s, a, r1, ef)); S(); lgv(ef);
}
struct I { double operator()(const double& x) { return x * x; } double operator()(const VD& x) { return x[0] * x[1]; } };
void quadrature(int t) {
    I f; double e; double a = 0.1 * t, b = 1.0; lg(CppAD::RombergOne(f, a, b, 4, 3, e)); S(); VD la(2), lb(2); la[0] = a; la[1] = 0; lb[0] = 1; lb[1] = 2; VS n(2), p(2); n[0] = n[1] = 3; p[0] = p[1] = 2; CppAD::RombergMul<I, VS, VD, 2> r; lg(r(f, la, lb, n, p, e)); S(); VD c(4); for (int k = 0; k < 4; k++) c[k] = k + t; for (size_t k = 0; k < 4; k++) lg(CppAD::Poly(k, c, 0.5)); S(); V1 ac = aat(t, 3); CppAD::Independent(ac); V1 y(1); y[0] = CppAD::Poly(1, ac, ac[0]); Fun g(ac, y); lgv(g.Jacobian(at(t, 3)));
}
void linear(int t) {
    VD A = at(t, 9), B = at(t, 3), X(3); A[4] += 2; A[0] -= 1; double d; lg(double(CppAD::LuSolve(3, 1, A, B, X, d))); lgv(X); lg(d); S(); V1 a = aat(t, 4), b(2), x(2); CppAD::Independent(a); b[0] = 1; b[1] = 2; A1 ld; V1 y(3); y[0] = CppAD::LuSolve(2, 1, a, b, x, ld); y[1] = x[0]; y[2] = ld; S(); Fun f(a, y); lgv(f.Jacobian(at(t, 4))); S(); VS ip(2), jp(2); V1 lu = aat(t, 4); CppAD::Independent(lu); A1 ratio; V1 c = lu; CppAD::LuRatio(ip, jp, c, ratio); y.resize(1); y[0] = ratio; Fun g(lu, y); lgv(g.Forward(0, at(t, 4)));
}
void text(int t) {
    lg(CppAD::to_string(0.1 * t)); lg(CppAD::to_string(t)); lg(CppAD::to_string(A1(1.5 * t))); S(); lg(CppAD::to_string(1.0f / t)); std::stringstream s; s << A1(2.5 + t); lg(s.str()); lg(double(CppAD::NearEqual(1.0 * t, 1.0 * t + 1e-12, 1e-10, 1e-10))); lg(double(CppAD::isnan(0.0 * t))); VD v(3); v[0] = v[1] = v[2] = t; lg(double(CppAD::hasnan(v))); S(); lg(CppAD::pow(2.0 + t, 3)); lg(CppAD::Integer(A1(2.6 + t)) * 1.0); lg(CppAD::numeric_limits<A1>::epsilon() == A1(0.0) ? "zero" : "positive"); lg(double(CppAD::elapsed_seconds() >= 0.0)); S(); lg(double(abs_geq(A1(-2.0), A1(1.0 * t)))); std::set<size_t> a, b; a.insert(1); b.insert(t); S();
}
}
void setup_d() {
    F f; VD x(2), e(2); x[0] = x[1] = 1; e[0] = e[1] = 0; CppAD::Runge45(f, 1, 0.0, 0.1, x, e); CppAD::Rosen34(f, 1, 0.0, 0.1, x, e); G g; CppAD::Runge45(g, 1, 0.0, 0.1, x, e);
    CppAD::CheckSimpleVector<bool, VB>(); CppAD::CheckSimpleVector<size_t, std::vector<size_t>>(); }
void teardown_d() {}
void reg_d(std::vector<Program>& p) {
    p.insert(p.end(), {{"memory", memory}, {"vectors", vectors}, {"matrices", matrices}, {"odes", odes}, {"quadrature", quadrature}, {"linear", linear}, {"text", text}});
} }
