#include "thr.hpp"
// recording, evaluation, life cycle
namespace thr { namespace {
double dis(const double& x) { return x > 1.0 ? 2.0 : x > 0.5 ? 1.0 : 0.0; }
CPPAD_DISCRETE_FUNCTION(double, dis)
void basic(int t) {
    V1 x = aat(t, 3), p(1), y(4); p[0] = 2.0; CppAD::Independent(x, size_t(0), false, p); S();
    y[0] = x[0] * x[1] + sin(x[2]) * p[0]; S(); y[1] = exp(x[0]) / (1.0 + x[1] * x[1]) - tanh(x[2]); S(); y[2] = pow(x[0], x[1]) + pow(x[2], 3) + sqrt(x[0]) * log(x[1] + p[0]); y[3] = atan2(x[0], x[1]) + abs(x[2] - 0.4) + sign(x[0]) + asinh(x[1]) + erf(x[2]) + expm1(x[0]) + azmul(x[1], p[0]);
    Fun f(x, y); S(); orders(f, t); VD q(1); q[0] = -0.5; f.new_dynamic(q); S(); orders(f, t);
}
void branches(int t) {
    V1 x = aat(t, 3), y(3); CppAD::Independent(x); CppAD::VecAD<double> v(3); for (size_t i = 0; i < 3; i++) v[i] = double(i); S();
    A1 ind = CppAD::Integer(x[0]) + A1(1.0); v[ind] = x[1]; A1 k = dis(x[2]); v[k] = x[0] * x[1]; S(); y[0] = v[k] + v[A1(1)]; S();
    y[1] = CondExpLt(x[0], x[1], x[2] * x[2], x[0] - 1.0) + CondExpGt(x[2], A1(0.9), exp(x[0]), sin(x[1])); y[2] = x[0] < x[1] ? x[0] * 3.0 : x[1]; if (x[2] >= 0.85) y[2] += 1.0;
    CppAD::PrintFor(x[0] - 0.45, "text ", x[1], " end\n"); S(); Fun f(x, y); f.compare_change_count(1); S();
    for (int k = 0; k < 3; k++) { std::stringstream s; lgv(f.Forward(0, at(t + 2 * k, 3), s)); lg(s.str()); lg(double(f.compare_change_number())); lg(double(f.compare_change_op_index())); S(); }
    VD w(3); w[0] = 1; w[1] = -1; w[2] = 2; lgv(f.Reverse(1, w));
}
void aborts(int t) {
    for (int k = 0; k < 3; k++) { V1 x = aat(t + k, 2), y(1); CppAD::Independent(x); S(); y[0] = x[0] * x[1] + double(k); lg(Variable(y[0])); lg(Value(Var2Par(y[0]))); S(); if (k == 1) { A1::abort_recording(); lg(Variable(y[0])); lg(Value(y[0])); } else { Fun f; f.Dependent(x, y); S(); lgv(f.Forward(0, at(t, 2))); lg(Variable(y[0])); } S(); }
}
void nested(int t) {
    V2 x(2), y(2); VD v = at(t, 2); V1 ax = aat(t, 2); CppAD::Independent(ax); S();
    for (int j = 0; j < 2; j++) x[j] = ax[j]; CppAD::Independent(x); S(); y[0] = x[0] * x[0] * x[1]; y[1] = sin(x[0]) + x[1]; S(); CppAD::ADFun<A1> g(x, y); S();
    V1 J = g.Jacobian(ax); S(); Fun f(ax, J); S(); lgv(f.Jacobian(v)); S();
    V1 bx = aat(t, 2), by(2); CppAD::Independent(bx); by[0] = bx[0] * exp(bx[1]); by[1] = bx[0] / bx[1]; Fun h(bx, by); S(); CppAD::ADFun<A1, double> ah = h.base2ad(); V1 cx = aat(t, 2); CppAD::Independent(cx); S(); V1 K = ah.Jacobian(cx); Fun hh(cx, K); S(); lgv(hh.Jacobian(v));
}
void optimize(int t) {
    V1 x = aat(t, 4), y(3), p(1); p[0] = 1.5; CppAD::Independent(x, size_t(0), true, p); y[0] = x[0] + x[1] + x[2] + x[0] * x[1] + x[0] * x[1]; y[1] = CondExpLt(x[0], x[1], sin(x[2]) * p[0], cos(x[3])) + 0.0 * x[1]; y[2] = y[0] + y[0] - x[3] + dis(x[2]); S(); Fun f(x, y); S();
    const char* o[] = {"", "no_conditional_skip", "no_conditional_skip val_graph", "no_cumulative_sum_op no_compare_op"};
    for (int k = 0; k < 4; k++) { Fun g; g = f; S(); g.optimize(o[k]); S(); lg(double(g.size_var())); lg(double(g.size_op())); orders(g, t); lg(double(g.number_skip())); S(); }
}
Fun* shared_fun;
void copies(int t) {
    Fun f; f = *shared_fun; S(); orders(f, t); Fun g; g = f; S(); g.optimize(); lgv(g.Forward(0, at(t, 2))); f.swap(g); S(); orders(f, t); Fun h(std::move(g)); S(); lgv(h.Jacobian(at(t, 2))); f.capacity_order(1); f.capacity_order(0); S(); lgv(f.Forward(0, at(t, 2)));
}
void directions(int t) {
    V1 x = aat(t, 2), y(2); CppAD::Independent(x); y[0] = exp(x[0] * x[1]); y[1] = x[0] / x[1] + asin(x[0] * 0.5); Fun f(x, y); S(); f.function_name_set("fun" + std::to_string(t)); f.check_for_nan(true); S(); f.Forward(0, at(t, 2)); S(); VD d(6); for (int k = 0; k < 6; k++) d[k] = k - 2.0; lgv(f.Forward(1, 3, d)); S(); lgv(f.Forward(2, 3, d)); lg(f.function_name_get()); lg(double(f.size_direction())); lg(double(f.size_order())); S(); lgv(f.Forward(0, at(t, 2))); lgv(f.Forward(1, at(t, 2)));
}
void drivers(int t) {
    V1 x = aat(t, 3), y(2); CppAD::Independent(x); y[0] = x[0] * x[1] * x[2]; y[1] = exp(x[0]) * x[2]; Fun f(x, y); VD v = at(t, 3), w(2); w[0] = 1; w[1] = 2; S();
    lgv(f.Jacobian(v)); S(); lgv(f.Hessian(v, w)); S(); VS i(2), j(2); i[0] = 0; i[1] = 1; j[0] = 2; j[1] = 0; lgv(f.ForOne(v, 1)); lgv(f.RevOne(v, 1)); S(); lgv(f.ForTwo(v, i, j)); lgv(f.RevTwo(v, i, j)); S(); lgv(f.SparseJacobian(v)); S(); lgv(f.SparseHessian(v, w));
}
void level_two(int t) {   // everything at the second level
    V2 x(2), y(1), p(1); for (int j = 0; j < 2; j++) x[j] = 0.2 + 0.1 * t + j; p[0] = A2(3.0); CppAD::Independent(x, size_t(0), true, p); S(); CppAD::VecAD<A1> v(2); v[A2(0.0)] = x[0]; v[A2(1.0)] = A1(2.0); A2 k = CondExpLt(x[0], x[1], A2(0.0), A2(1.0)); y[0] = v[k] * p[0] + sin(x[1]); S(); CppAD::ADFun<A1> f(x, y); S(); f.optimize(); S(); V1 a = aat(t, 2); CppAD::Independent(a); V1 r = f.Forward(0, a); S(); V1 s = f.Reverse(1, r); Fun g(a, s); S(); lgv(g.Forward(0, at(t, 2)));
}
}
void setup_a() { dis(A1(0.0)); VD v(2); V1 x(2), y(2); x[0] = 1; x[1] = 2; CppAD::Independent(x); y[0] = x[0] * x[1]; y[1] = exp(x[0]) + x[1]; shared_fun = new Fun(x, y); }
void teardown_a() { delete shared_fun; shared_fun = nullptr; }
void reg_a(std::vector<Program>& p) {
    p.insert(p.end(), {{"basic", basic}, {"branches", branches}, {"aborts", aborts}, {"nested", nested}, {"optimize", optimize}, {"copies", copies}, {"directions", directions}, {"drivers", drivers}, {"level_two", level_two}});
} }
