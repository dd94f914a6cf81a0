#include "atomics.hpp"
#include "thr.hpp"
#include <cppad/example/atomic_four/mat_mul/mat_mul.hpp>
#include <cppad/example/atomic_four/vector/vector.hpp>
#include <cppad/example/atomic_four/lin_ode/lin_ode.hpp>
// atomic functions and checkpoints that the threads share
namespace thr { namespace {
four_t* four; three_t* three[2]; two_t* two[3]; CppAD::chkpoint_two<double>* chk2[3]; CppAD::checkpoint<double>* chk1[2];
CppAD::atomic_mat_mul<double>* mat; CppAD::atomic_vector<double>* vec; CppAD::atomic_lin_ode<double>* ode;
// two calls with variables, dynamics and constants; everything evaluated
template <class C> void use(int t, C call, int id, bool forhes, bool base2ad) {
    size_t n = alg_n[id], m = alg_m[id]; V1 x = aat(t, n), p(1), y(m), z(m), u(n); p[0] = 0.4; CppAD::Independent(x, size_t(0), true, p); S();
    call(id, x, y); S(); u[0] = x[0] * 2.0; for (size_t j = 1; j < n; j++) u[j] = j == 1 ? p[0] : A1(1.25); call(id, u, z); S(); for (size_t i = 0; i < m; i++) y[i] += z[i] * x[0];
    Fun f(x, y); S(); orders(f, t); RC e(n, n, n), o; for (size_t k = 0; k < n; k++) e.set(k, k, k); f.for_jac_sparsity(e, false, false, t == 1, o); lgp(o); S(); RC r(m, m, m); for (size_t k = 0; k < m; k++) r.set(k, k, k); f.rev_jac_sparsity(r, false, true, t != 1, o); lgp(o); S(); VB d(n), s(m); for (size_t j = 0; j < n; j++) d[j] = true; for (size_t i = 0; i < m; i++) s[i] = true; f.for_jac_sparsity(e, false, false, true, o); f.rev_hes_sparsity(s, false, true, o); lgp(o); S(); if (forhes) { f.for_hes_sparsity(d, s, false, o); lgp(o); S(); }
    VD q(1); q[0] = 0.8; f.new_dynamic(q); f.optimize(); S(); orders(f, t);
    if (base2ad) { auto a = f.base2ad(); V1 ax = aat(t, n); CppAD::Independent(ax); S(); V1 J = a.Jacobian(ax); Fun g(ax, J); S(); lgv(g.Jacobian(at(t, n))); }
}
void p_four(int t) { use(t, [](int id, const V1& x, V1& y) { (*four)(id, x, y); }, 1, true, true); }
void p_four_small(int t) { use(t, [](int id, const V1& x, V1& y) { (*four)(id, x, y); }, 2, true, true); }
void p_three(int t) { use(t, [](int, const V1& x, V1& y) { (*three[0])(x, y); }, 0, true, true); }
void p_two_set(int t) { use(t, [](int, const V1& x, V1& y) { (*two[0])(x, y); }, 3, true, true); }
void p_two_bool(int t) { use(t, [](int, const V1& x, V1& y) { (*two[1])(x, y); }, 0, true, true); }
void p_two_pack(int t) { use(t, [](int, const V1& x, V1& y) { (*two[2])(x, y); }, 0, true, true); }
void p_one(int t) { use(t, [](int id, const V1& x, V1& y) { one_call(id, x, y); }, 3, false, false); }
void p_chk2(int t) { use(t, [](int, const V1& x, V1& y) { (*chk2[0])(x, y); }, 0, true, false); }
void p_chk2_dyn(int t) { VD q(1); q[0] = 1.0 + t; chk2[1]->new_dynamic(q); S(); use(t, [](int, const V1& x, V1& y) { (*chk2[1])(x, y); }, 0, true, true); q[0] = 4.0; chk2[1]->new_dynamic(q); S(); use(t, [](int, const V1& x, V1& y) { (*chk2[1])(x, y); }, 0, true, true); }
void p_chk2_nohes(int t) { V1 x = aat(t, 3), y(2); CppAD::Independent(x); (*chk2[2])(x, y); S(); y[0] *= y[1]; Fun f(x, y); S(); orders(f, t); RC e(3, 3, 3), o; for (size_t k = 0; k < 3; k++) e.set(k, k, k); f.for_jac_sparsity(e, false, false, false, o); lgp(o); S(); f.optimize(); orders(f, t); }
void p_mat(int t) {   // 2 x 1 times 1 x 2
    V1 x = aat(t, 4), u(4), y(4); CppAD::Independent(x); size_t id = mat->set(2, 1, 2); S(); for (int j = 0; j < 4; j++) u[j] = x[j]; (*mat)(id, u, y); S(); Fun f(x, y); orders(f, t); f.optimize(); S(); orders(f, t); size_t a, b, c; mat->get(id, a, b, c); lg(double(a * 100 + b * 10 + c)); S();
    V1 w = aat(t, 6), v(1); id = mat->set(1, 3, 1); S(); CppAD::Independent(w); (*mat)(id, w, v); Fun g(w, v); S(); orders(g, t);
}
void p_vec(int t) {
    typedef CppAD::atomic_vector<double> AV; V1 x = aat(t, 4), y(2), z(2); CppAD::Independent(x); (*vec)(AV::mul_enum, x, y); S(); V1 u(4); u[0] = y[0]; u[1] = y[1]; u[2] = x[2]; u[3] = x[3]; (*vec)(AV::div_enum, u, z); Fun f(x, z); S(); orders(f, t); f.optimize(); S(); orders(f, t); CppAD::vector<bool> d; (void)d; auto a = f.base2ad(); V1 ax = aat(t, 4); CppAD::Independent(ax); V1 J = a.Jacobian(ax); S(); Fun g(ax, J); lgv(g.Jacobian(at(t, 4)));
}
void p_ode(int t) {
    RC pat(2, 2, 2); pat.set(0, 0, 1); pat.set(1, 1, 0); bool tr = false; V1 x = aat(t, 4), y(2); size_t id = ode->set(2.0, 0.5, pat, tr); S(); CppAD::Independent(x); (*ode)(id, x, y); S(); Fun f(x, y); lgv(f.Forward(0, at(t, 4))); S(); VD d(4); for (int j = 0; j < 4; j++) d[j] = 1 + j; lgv(f.Forward(1, d)); S(); VD w(2); w[0] = 1; w[1] = -2; lgv(f.Reverse(1, w)); S(); double r, s; RC q; ode->get(id, r, s, q, tr); lg(r); lg(s); lgp(q);
}
template <class F> void inner(int id, F make, bool dyn) { V1 x(alg_n[id]), y(alg_m[id]), p(1); p[0] = 1.0; for (size_t j = 0; j < x.size(); j++) x[j] = 0.5 + j; if (dyn) CppAD::Independent(x, size_t(0), true, p); else CppAD::Independent(x); inline_call(id, x, y); if (dyn) y[0] *= p[0]; Fun f(x, y); make(f); }
}
void setup_c() {
    typedef CppAD::atomic_base<double> B; g_step = trt::step; four = new four_t; three[0] = new three_t(0); three[1] = new three_t(1);
    two[0] = new two_t(3, B::set_sparsity_enum); two[1] = new two_t(0, B::bool_sparsity_enum); two[2] = new two_t(0, B::pack_sparsity_enum);
    inner(0, [](Fun& f) { chk2[0] = new CppAD::chkpoint_two<double>(f, "chk2_a", true, true, false, true); }, false);
    inner(0, [](Fun& f) { chk2[1] = new CppAD::chkpoint_two<double>(f, "chk2_b", false, true, true, true); }, true);
    inner(3, [](Fun& f) { chk2[2] = new CppAD::chkpoint_two<double>(f, "chk2_c", false, false, false, true); }, false);
    mat = new CppAD::atomic_mat_mul<double>("mat"); vec = new CppAD::atomic_vector<double>("vec"); ode = new CppAD::atomic_lin_ode<double>("ode");
    p_ode(1);    // first calls of Rosen34 must not be parallel
    V1 x = aat(1, 2), y(2); CppAD::Independent(x); one_call(0, x, y); CppAD::AD<double>::abort_recording();   // atomic_one: first call must not be parallel
}
void teardown_c() { delete four; delete three[0]; delete three[1]; for (auto& k : two) delete k; for (auto& k : chk2) delete k; delete mat; delete vec; delete ode; CppAD::user_atomic<double>::clear(); }
void reg_c(std::vector<Program>& p) {
    p.insert(p.end(), {{"four", p_four}, {"four_small", p_four_small}, {"three", p_three}, {"two_set", p_two_set}, {"two_bool", p_two_bool}, {"two_pack", p_two_pack}, {"one", p_one}, {"chk2", p_chk2}, {"chk2_dyn", p_chk2_dyn}, {"chk2_nohes", p_chk2_nohes}, {"mat_mul", p_mat}, {"vector", p_vec}, {"lin_ode", p_ode}});
} }
