// C35: utilities on every combination of arguments from sets that contain the special values.
#include <valarray>
#include <cppad/cppad.hpp>
#include <cppad/core/zdouble.hpp>
#include <cppad/speed/det_33.hpp>
#include <cppad/speed/det_by_lu.hpp>
#include <cppad/speed/det_by_minor.hpp>
#include <cppad/speed/det_grad_33.hpp>
#include <cppad/speed/mat_sum_sq.hpp>
#include <cppad/speed/ode_evaluate.hpp>
#include <cppad/speed/sparse_hes_fun.hpp>
#include <cppad/speed/sparse_jac_fun.hpp>
#include <cppad/speed/uniform_01.hpp>
#include <iostream>
#include <cppad/utility/test_boolofvoid.hpp>
#include <complex>
#include <climits>
#include "vf.hpp"
#include "vfc.hpp"
using vf::Run; using vf::fmt; using std::string; typedef CppAD::AD<double> AD1; typedef CppAD::AD<AD1> AD2; typedef std::complex<double> CD; typedef std::complex<float> CF; typedef CppAD::zdouble ZD; template <class T> using VV = CppAD::vector<T>; typedef VV<double> VD;
static const double INF = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN();
template <class T> std::vector<T> specials() { typedef std::numeric_limits<T> L; return {T(0), -T(0), T(1), T(-1), T(0.5), T(2), T(-1.5), T(3), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), -L::max(), L::min(), L::denorm_min(), L::epsilon(), T(1) + L::epsilon(), T(1e-30), T(1e30), T(7.75), T(-7.75)}; }
template <class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
static Run* RR; static string err;
static void bad(const string& s) { if (err.empty()) err = s; }
template <class F> void go(const string& desc, F body) { Run& R = *RR; if (!R.next([&] { return desc; })) return; err.clear(); try { body(); } catch (std::exception& x) { AD1::abort_recording(); AD2::abort_recording(); bad(x.what()); } R.case_nontrivial = true; R.transitions++; if (err.size()) R.fail(err); }
#define CK(c, ...) do { RR->comparisons++; if (!(c)) bad(fmt(__VA_ARGS__)); } while (0)
// ---------------------------------------------------------------------------------------------- NearEqual
template <class T> bool finite_(T a) { return std::isfinite(a); }
template <class T> int ref_near(T x, T y, T r, T a) { if (!finite_(x) || x != x || y != y) return 0; if (!finite_(y)) return 2; T d = std::fabs(T(x - y)), s = std::fabs(x) + std::fabs(y); if (!finite_(d) || !finite_(s)) return 2; T rs = r * s; if (d <= a) return 1; return d <= rs; }
static void near_all() {
    Run& R = *RR; std::vector<double> tol = {0, 1e-10, 0.1, 1, 2, INF};
    if (R.family("near_double")) for (double x : specials<double>()) for (double y : specials<double>()) go(fmt("%.17g %.17g", x, y), [&] { for (double r : tol) for (double a : tol) { int w = ref_near(x, y, r, a); if (w == 2) continue; CK(CppAD::NearEqual(x, y, r, a) == bool(w), "NearEqual(%g, %g, %g, %g)", x, y, r, a); CK(CppAD::NearEqual(AD1(x), AD1(y), r, a) == bool(w), "AD, AD, %g, %g", r, a); CK(CppAD::NearEqual(x, AD1(y), r, a) == bool(w), "Base, AD, %g, %g", r, a); CK(CppAD::NearEqual(AD1(x), y, r, a) == bool(w), "AD, Base, %g, %g", r, a);
        CppAD::VecAD<double> u(1), v(1); AD1 z(0.0); u[z] = x; v[z] = y; CK(CppAD::NearEqual(u[z], v[z], r, a) == bool(w), "VecAD, VecAD"); CK(CppAD::NearEqual(u[z], AD1(y), r, a) == bool(w), "VecAD, AD"); CK(CppAD::NearEqual(u[z], y, r, a) == bool(w), "VecAD, Base"); CK(CppAD::NearEqual(AD1(x), v[z], r, a) == bool(w), "AD, VecAD"); CK(CppAD::NearEqual(x, v[z], r, a) == bool(w), "Base, VecAD");
        CK(CppAD::NearEqual(AD2(x), AD2(y), AD1(r), AD1(a)) == bool(w), "AD<AD>"); } });
    // NearEqual checks its first argument twice instead of both: known_findings.txt (an existing test needs this, so it is not repaired)
    if (R.family("finding")) for (double y : {INF, -INF}) go(fmt("NearEqual(1, %g, 0.1, 0)", y), [&] { CK(!CppAD::NearEqual(1.0, y, 0.1, 0.0), "returns true"); });
    if (R.family("finding_cx")) for (double y : {INF, -INF}) go(fmt("NearEqual((1, 1), (1, %g), 0.1, 0)", y), [&] { CK(!CppAD::NearEqual(CD(1, 1), CD(1, y), 0.1, 0.0), "returns true"); });
    if (R.family("near_float")) for (float x : specials<float>()) for (float y : specials<float>()) go(fmt("%.9g %.9g", x, y), [&] { for (double r : tol) for (double a : tol) { int w = ref_near<float>(x, y, float(r), float(a)); if (w == 2) continue; CK(CppAD::NearEqual(x, y, float(r), float(a)) == bool(w), "NearEqual(%g, %g, %g, %g)", x, y, r, a); } });
    std::vector<double> c = {0, 1, -1, 0.5, 3, INF, -INF, NAN_};
    if (R.family("near_complex")) for (double xr : c) for (double xi : c) for (double yr : c) for (double yi : c) go(fmt("(%g,%g) (%g,%g)", xr, xi, yr, yi), [&] { CD x(xr, xi), y(yr, yi); bool fin = finite_(xr) && finite_(xi) && finite_(yr) && finite_(yi); for (double r : tol) for (double a : tol) { double d = std::hypot(xr - yr, xi - yi), s = std::hypot(xr, xi) + std::hypot(yr, yi); bool w = fin && (d <= a || d <= r * s); if ((finite_(xr) && std::isinf(xi)) || (finite_(yr) && std::isinf(yi))) continue; CK(CppAD::NearEqual(x, y, r, a) == w, "NearEqual(complex, complex, %g, %g)", r, a); if (yi == 0) CK(CppAD::NearEqual(x, yr, r, a) == w, "NearEqual(complex, real, %g, %g)", r, a); if (xi == 0) CK(CppAD::NearEqual(xr, y, r, a) == w, "NearEqual(real, complex, %g, %g)", r, a); if (!fin || r > 2 || a > 2 || (std::fabs(d - a) > 1e-5 && std::fabs(d - r * s) > 1e-5)) CK(CppAD::NearEqual(CF(x), CF(y), float(r), float(a)) == w, "complex<float> %g %g", r, a); } });
}
// ---------------------------------------------------------------------------------------------- Poly
static long double ref_poly(size_t k, const std::vector<double>& a, double z, long double* mag = nullptr) { long double s = 0, m = 0; for (size_t i = a.size(); i-- > k;) { long double c = a[i]; for (size_t j = 0; j < k; j++) c *= (long double)(i - j); long double p = 1; for (size_t j = 0; j < i - k; j++) p *= z; s += c * p; m += fabsl(c * p); } if (mag) *mag = m; return s; }
template <class T> bool eq_poly(const T& a, double b) { return a == T(b); }
static void poly_all() {
    Run& R = *RR; std::vector<double> cs = {0, 1, -2, 0.5}, zs = {0, 1, -1, 2, -0.5, 3}; if (R.thorough()) cs.push_back(3);
    for (int len = 1; len <= (R.thorough() ? 6 : 5); len++) if (R.family("poly")) { long N = 1; for (int i = 0; i < len; i++) N *= (long)cs.size(); for (long q = 0; q < N; q++) { auto get = [&] { std::vector<double> a; long t = q; for (int i = 0; i < len; i++) { a.push_back(cs[t % cs.size()]); t /= (long)cs.size(); } return a; }; go(fmt("length %d, number %ld", len, q), [&] { auto a = get(); VD v(len); std::vector<double> sv(a); std::valarray<double> va(len); VV<float> vf_(len); VV<CD> vc(len); for (int i = 0; i < len; i++) { v[i] = va[i] = a[i]; vf_[i] = float(a[i]); vc[i] = a[i]; } for (double z : zs) for (int k = 0; k < len + 2; k++) { double w = double(ref_poly(k, a, z)); CK(CppAD::Poly(k, v, z) == w, "Poly(%d, ., %g) = %g, expected %g", k, z, CppAD::Poly(k, v, z), w); CK(CppAD::Poly(k, sv, z) == w, "std::vector"); CK(CppAD::Poly(k, va, z) == w, "std::valarray"); CK(CppAD::Poly(k, vf_, float(z)) == float(w), "float k = %d", k); CK(CppAD::Poly(k, vc, CD(z)) == CD(w), "complex"); CD iz = CppAD::Poly(k, vc, CD(0, z)), wi(0); for (int i = k; i < len; i++) { double c = a[i]; for (int j = 0; j < k; j++) c *= i - j; CD p(1); for (int j = 0; j < i - k; j++) p *= CD(0, z); wi += c * p; } CK(std::abs(iz - wi) <= 1e-12 * (1 + std::abs(wi)), "complex argument, k = %d", k); } }); } }
    if (R.family("poly_record")) for (int len = 1; len <= 5; len++) for (int k = 0; k <= len; k++) for (int w = 0; w < 3; w++) go(fmt("length %d order %d recorded %d", len, k, w), [&] { VV<AD1> X(w == 0 ? 1 : w == 1 ? len : len + 1), A(len); for (size_t i = 0; i < X.size(); i++) X[i] = 0.0; CppAD::Independent(X); AD1 z = w == 1 ? AD1(1.5) : X[0]; std::vector<double> c; for (int i = 0; i < len; i++) { c.push_back(0.5 * i - 1); A[i] = w == 0 ? AD1(c[i]) : X[w == 1 ? i : i + 1]; } VV<AD1> Y(1); Y[0] = CppAD::Poly(k, A, z); CppAD::ADFun<double> f(X, Y); for (double zv : zs) { VD x(X.size()); double zz = w == 1 ? 1.5 : zv; if (w != 1) x[0] = zz; for (int i = 0; i < len; i++) { if (w) { c[i] = (i * 7 % 5) - 2 + 0.25 * zv; x[w == 1 ? i : i + 1] = c[i]; } } VD y = f.Forward(0, x), J = f.Jacobian(x); CK(vf::close(y[0], double(ref_poly(k, c, zz)), 1e-14, 1e-13), "value at %g: %.17g", zv, y[0]); if (w != 1) CK(vf::close(J[0], double(ref_poly(k + 1, c, zz)), 1e-14, 1e-13), "derivative by z at %g", zv); if (w) for (int i = 0; i < len; i++) { std::vector<double> e(len, 0.0); e[i] = 1; CK(vf::close(J[w == 1 ? i : i + 1], double(ref_poly(k, e, zz)), 1e-14, 1e-13), "derivative by coefficient %d at %g", i, zv); } } });
    if (R.family("poly_high")) for (int len : {10, 16, 20, 21, 22, 24, 30}) for (int k = 0; k <= len; k++) go(fmt("degree %d order %d", len - 1, k), [&] { for (double z : {0.0, 1.0, -1.0, 0.5, 2.0}) for (int sgn = 0; sgn < 2; sgn++) { std::vector<double> a; VD v(len); for (int i = 0; i < len; i++) { a.push_back(sgn && i % 2 ? -1.0 : 1.0 / (i + 1)); v[i] = a[i]; } long double mag; long double w = ref_poly(k, a, z, &mag); double p = CppAD::Poly(k, v, z); CK(fabsl(p - w) <= 1e-13L * mag, "Poly(%d, ., %g) is %.17g, expected %.17Lg", k, z, p, w); } });
}
// ---------------------------------------------------------------------------------------------- pow
static void pow_all() {
    Run& R = *RR; std::vector<int> ns; for (int n = -70; n <= 70; n++) ns.push_back(n); for (int n : {1000, -1000, 1023, -1074, 65536, -65537, 1 << 30, INT_MAX, INT_MIN + 1, INT_MIN}) ns.push_back(n);
    if (R.family("pow_int")) for (int n : ns) go(fmt("exponent %d", n), [&] {
        for (double x : {0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -1.5, 3.0, 1.25, INF, -INF, NAN_, 1e200, 1e-200, -1e100}) { double p = CppAD::pow(x, n), w = std::pow(x, double(n)); double tol = 1e-15 * (4 + 2 * std::fabs(double(n))); bool pow2 = std::fabs(x) == 2 || std::fabs(x) == 0.5 || std::fabs(x) == 1 || x == 0 || !std::isfinite(x); if (n < 0 && std::isfinite(w) && std::fabs(w) < 1e-300) { CK(std::fabs(p) <= 1e-300, "pow(%g, %d) is %g", x, n, p); continue; } CK(pow2 ? same(p, w) : vf::close(p, w, tol, 0), "pow(%g, %d) is %.17g, expected %.17g", x, n, p, w); if (pow2 && p == 0 && !(n < 0)) CK(std::signbit(p) == std::signbit(w), "sign of pow(%g, %d)", x, n); ZD z = CppAD::pow(ZD(x), n); double wz = w; if (std::isfinite(x) && !(n < 0)) CK(vf::close(std::atof(CppAD::to_string(z).c_str()), wz, tol + 1e-14, 1e-300), "zdouble pow(%g, %d)", x, n); if (n > -100 && n < 100) { float q = CppAD::pow(float(x), n); double wf = std::pow(double(float(x)), n); if (std::fabs(wf) < 1e37 && std::fabs(wf) > 1e-36) CK(vf::close(q, wf, 6e-7 * (2 + std::abs(n)), 0), "float pow(%g, %d) is %g", x, n, q); } }
        if (n >= 0 && n <= 12) for (int x = -5; x <= 5; x++) { long w = 1; for (int i = 0; i < n; i++) w *= x; CK(CppAD::pow(x, n) == int(w), "int pow(%d, %d)", x, n); CK(CppAD::pow(long(x), n) == w, "long pow(%d, %d)", x, n); } if (n < 0 && n > -20) for (int x : {1, -1, 2, -3}) CK(CppAD::pow(x, n) == (x == 1 ? 1 : x == -1 ? (n % 2 ? -1 : 1) : 0), "int pow(%d, %d)", x, n);
        if (n > -30 && n < 30) for (CD x : {CD(0, 1), CD(1, 1), CD(-2, 0.5), CD(0.5, 0)}) { CD w(1); for (int i = 0; i < std::abs(n); i++) w *= x; if (n < 0) w = CD(1) / w; CD p = CppAD::pow(x, n); CK(std::abs(p - w) <= 1e-13 * std::abs(w), "complex pow(., %d)", n); }
        if (n > -30 && n < 30) { VV<AD1> X(1), Y(1); X[0] = 1.25; CppAD::Independent(X); Y[0] = CppAD::pow(X[0], n); CppAD::ADFun<double> f(X, Y); for (double x : {-2.0, -0.5, 0.0, 0.5, 1.0, 3.0}) { if (x == 0 && n < 0) continue; VD v(1); v[0] = x; VD y = f.Forward(0, v); CK(vf::close(y[0], std::pow(x, n), 1e-13, 0), "recorded pow(%g, %d) is %g", x, n, y[0]); VD d(1); d[0] = 1; d = f.Forward(1, d); CK(vf::close(d[0], n == 0 ? 0 : n * std::pow(x, n - 1), 1e-12, 0), "derivative of pow(%g, %d) is %g", x, n, d[0]); d[0] = 0; d = f.Forward(2, d); double w2 = n == 0 || n == 1 ? 0 : n * (n - 1.0) * std::pow(x, n - 2) / 2; CK(vf::close(d[0], w2, 1e-12, 0), "second derivative of pow(%g, %d)", x, n); } } });
}
// ---------------------------------------------------------------------------------------------- base type functions
static string g_buf;
namespace boolfun { bool fun_pos(const double& x) { return x > 0; } bool fun_less(const double& x, const double& y) { return x < y; }
CPPAD_BOOL_UNARY(double, fun_pos) CPPAD_BOOL_BINARY(double, fun_less) }
template <class T> struct Num { static T of(double a) { return T(a); } };
template <class T> void real_fun(const char* nm, double x, double y) {
    T X(x), Y(y); double ax = std::fabs(x), ay = std::fabs(y); CK(CppAD::GreaterThanZero(X) == (x > 0), "%s GreaterThanZero(%g)", nm, x); CK(CppAD::GreaterThanOrZero(X) == (x >= 0), "%s GreaterThanOrZero(%g)", nm, x); CK(CppAD::LessThanZero(X) == (x < 0), "%s LessThanZero(%g)", nm, x); CK(CppAD::LessThanOrZero(X) == (x <= 0), "%s LessThanOrZero(%g)", nm, x); CK(CppAD::abs_geq(X, Y) == (ax >= ay), "%s abs_geq(%g, %g)", nm, x, y);
    CK(CppAD::isnan(X) == (x != x), "%s isnan(%g)", nm, x); CK(CppAD::IdenticalCon(X), "%s IdenticalCon", nm); CK(CppAD::IdenticalZero(X) == (x == 0), "%s IdenticalZero(%g)", nm, x); CK(CppAD::IdenticalOne(X) == (x == 1), "%s IdenticalOne(%g)", nm, x); CK(CppAD::IdenticalEqualCon(X, Y) == (x == y), "%s IdenticalEqualCon(%g, %g)", nm, x, y); CK(CppAD::EqualOpSeq(X, Y) == (x == y), "%s EqualOpSeq(%g, %g)", nm, x, y);
    if (std::fabs(x) < 2e9) CK(CppAD::Integer(X) == int(x), "%s Integer(%g)", nm, x); if (x == x) { CK(CppAD::sign(X) == T(double((x > 0) - (x < 0))), "%s sign(%g)", nm, x); CK(CppAD::abs(X) == T(ax) && CppAD::fabs(X) == T(ax), "%s abs(%g)", nm, x); }
    T z = CppAD::azmul(X, Y); T w = x == 0 ? T(0) : X * Y; CK(z == w || (CppAD::isnan(z) && CppAD::isnan(w)), "%s azmul(%g, %g)", nm, x, y); VV<T> v(3); v[0] = T(0); v[1] = X; v[2] = Y; CK(CppAD::hasnan(v) == (x != x || y != y), "%s hasnan(%g, %g)", nm, x, y); T q = CppAD::nan(T(0)); CK(CppAD::isnan(q) || string(nm) == "AD<zdouble>", "%s nan(0)", nm);
    T t(7), fl(9); struct { CppAD::CompareOp op; bool w; } c[] = {{CppAD::CompareLt, x < y}, {CppAD::CompareLe, x <= y}, {CppAD::CompareEq, x == y}, {CppAD::CompareGe, x >= y}, {CppAD::CompareGt, x > y}, {CppAD::CompareNe, x != y}}; for (int k = 0; k < 5; k++) CK(CppAD::CondExpOp(c[k].op, X, Y, t, fl) == (c[k].w ? t : fl), "%s CondExpOp(%d, %g, %g)", nm, k, x, y);
    CK(CppAD::CondExpLt(X, Y, t, fl) == (x < y ? t : fl) && CppAD::CondExpLe(X, Y, t, fl) == (x <= y ? t : fl) && CppAD::CondExpEq(X, Y, t, fl) == (x == y ? t : fl) && CppAD::CondExpGe(X, Y, t, fl) == (x >= y ? t : fl) && CppAD::CondExpGt(X, Y, t, fl) == (x > y ? t : fl), "%s CondExp(%g, %g)", nm, x, y);
}
template <class C> void complex_fun(const char* nm, C x, C y) { typedef typename C::value_type T; bool nx = x.real() != x.real() || x.imag() != x.imag(), ny = y.real() != y.real() || y.imag() != y.imag(); CK(CppAD::isnan(x) == nx, "%s isnan", nm); CK(CppAD::IdenticalCon(x), "IdenticalCon"); CK(CppAD::IdenticalZero(x) == (x.real() == 0 && x.imag() == 0), "%s IdenticalZero", nm); CK(CppAD::IdenticalOne(x) == (x.real() == 1 && x.imag() == 0), "%s IdenticalOne", nm); CK(CppAD::IdenticalEqualCon(x, y) == (x.real() == y.real() && x.imag() == y.imag()), "%s IdenticalEqualCon", nm); CK(CppAD::EqualOpSeq(x, y) == (x == y), "%s EqualOpSeq", nm); if (std::fabs(x.real()) < 2e9) CK(CppAD::Integer(x) == int(x.real()), "%s Integer", nm); if (!nx && !ny) CK(CppAD::abs_geq(x, y) == (std::hypot(x.real(), x.imag()) >= std::hypot(y.real(), y.imag())), "%s abs_geq", nm);
    C z = CppAD::azmul(x, y), w = x == C(0) ? C(0) : x * y; CK((same(z.real(), w.real()) && same(z.imag(), w.imag())), "%s azmul", nm); VV<C> v(2); v[0] = y; v[1] = x; CK(CppAD::hasnan(v) == (nx || ny), "%s hasnan", nm); C t(7, 1), f(9, 2); CK(CppAD::CondExpEq(x, y, t, f) == (x == y ? t : f), "%s CondExpEq", nm); (void)sizeof(T); }
static void base_all() {
    Run& R = *RR; auto S = specials<double>(); auto SF = specials<float>();
    if (R.family("base_real")) for (double x : S) for (double y : S) go(fmt("%.17g %.17g", x, y), [&] { real_fun<double>("double", x, y); real_fun<ZD>("zdouble", x, y); real_fun<AD1>("AD<double>", x, y); real_fun<AD2>("AD<AD<double>>", x, y); real_fun<CppAD::AD<ZD>>("AD<zdouble>", x, y); CK(boolfun::fun_pos(AD1(x)) == (x > 0), "CPPAD_BOOL_UNARY"); CK(boolfun::fun_less(AD1(x), AD1(y)) == (x < y), "CPPAD_BOOL_BINARY"); });
    if (R.family("base_float")) for (float x : SF) for (float y : SF) go(fmt("%.9g %.9g", x, y), [&] { real_fun<float>("float", x, y); real_fun<CppAD::AD<float>>("AD<float>", x, y); });
    std::vector<double> c = {0, 1, -1, 0.5, 3, INF, NAN_}; if (R.family("base_complex")) for (double a : c) for (double b : c) for (double d : c) for (double e : c) go(fmt("(%g,%g) (%g,%g)", a, b, d, e), [&] { complex_fun("complex<double>", CD(a, b), CD(d, e)); complex_fun("complex<float>", CF(float(a), float(b)), CF(float(d), float(e))); });
    if (R.family("limits")) for (int k = 0; k < 1; k++) go("numeric_limits", [&] { typedef std::numeric_limits<double> L; typedef CppAD::numeric_limits<AD1> A; typedef CppAD::numeric_limits<AD2> B; typedef CppAD::numeric_limits<ZD> Z; CK(A::min() == L::min() && B::min() == L::min() && Z::min() == L::min() && CppAD::numeric_limits<double>::min() == L::min(), "min"); CK(A::max() == L::max() && B::max() == L::max() && Z::max() == L::max(), "max"); CK(A::epsilon() == L::epsilon() && B::epsilon() == L::epsilon() && CppAD::epsilon<AD1>() == L::epsilon() && Z::epsilon() == L::epsilon(), "epsilon"); CK(CppAD::isnan(A::quiet_NaN()) && CppAD::isnan(B::quiet_NaN()) && CppAD::isnan(Z::quiet_NaN()), "quiet_NaN"); CK(A::infinity() == INF && B::infinity() == INF && Z::infinity() == INF, "infinity"); CK(int(A::digits) == L::digits && int(A::digits10) == L::digits10 && int(A::max_digits10) == L::max_digits10 && int(B::digits) == L::digits && int(B::digits10) == L::digits10 && int(B::max_digits10) == L::max_digits10, "digits"); typedef std::numeric_limits<float> LF; typedef CppAD::numeric_limits<CppAD::AD<float>> AF; CK(AF::min() == LF::min() && AF::max() == LF::max() && AF::epsilon() == LF::epsilon() && int(AF::digits10) == LF::digits10 && AF::infinity() == LF::infinity() && CppAD::isnan(AF::quiet_NaN()), "float"); typedef CppAD::numeric_limits<CD> C; CK(C::epsilon() == CD(L::epsilon()) && C::max() == CD(L::max()) && C::min() == CD(L::min()) && int(C::digits10) == L::digits10, "complex"); });
}
// ---------------------------------------------------------------------------------------------- comparison of AD values, zdouble
template <class X, class Y> void cmp(const char* nm, const X& x, const Y& y, double a, double b) { CK((x < y) == (a < b), "%s %g < %g", nm, a, b); CK((x <= y) == (a <= b), "%s %g <= %g", nm, a, b); CK((x > y) == (a > b), "%s %g > %g", nm, a, b); CK((x >= y) == (a >= b), "%s %g >= %g", nm, a, b); CK((x == y) == (a == b), "%s %g == %g", nm, a, b); CK((x != y) == (a != b), "%s %g != %g", nm, a, b); }
static double zd(const ZD& z) { double r = 0; std::stringstream s; s << std::setprecision(17) << z; string t = s.str(); if (t.find("nan") != string::npos) return NAN_; if (t == "inf") return INF; if (t == "-inf") return -INF; r = std::strtod(t.c_str(), nullptr); return r; }
static void ops_all() {
    Run& R = *RR; auto S = specials<double>();
    if (R.family("compare")) for (double a : S) for (double b : S) for (int rec = 0; rec < 2; rec++) go(fmt("%.17g %.17g recording %d", a, b, rec), [&] { VV<AD1> X(2), P(2); for (int i = 0; i < 2; i++) X[i] = P[i] = i ? b : a; if (rec) CppAD::Independent(X, P); AD1 ca(a), cb(b); cmp("variable variable", X[0], X[1], a, b); cmp("variable dynamic", X[0], P[1], a, b); cmp("dynamic variable", P[0], X[1], a, b); cmp("dynamic dynamic", P[0], P[1], a, b); cmp("constant variable", ca, X[1], a, b); cmp("variable constant", X[0], cb, a, b); cmp("dynamic constant", P[0], cb, a, b); cmp("constant dynamic", ca, P[1], a, b); cmp("constant constant", ca, cb, a, b); cmp("double variable", a, X[1], a, b); cmp("variable double", X[0], b, a, b); cmp("double dynamic", a, P[1], a, b); cmp("dynamic double", P[0], b, a, b);
        if (std::fabs(b) < 1e6 && b == int(b)) cmp("variable int", X[0], int(b), a, b); if (std::fabs(a) < 1e6 && a == int(a)) cmp("int dynamic", int(a), P[1], a, b); CppAD::VecAD<double> u(2); AD1 zero(0.0), one(1.0); u[zero] = X[0]; u[one] = X[1]; cmp("VecAD VecAD", u[zero], u[one], a, b); cmp("VecAD double", u[zero], b, a, b); cmp("double VecAD", a, u[one], a, b); cmp("VecAD AD", u[zero], X[1], a, b); cmp("AD VecAD", P[0], u[one], a, b); AD1::abort_recording(); });
    if (R.family("zdouble")) for (double a : S) for (double b : S) go(fmt("%.17g %.17g", a, b), [&] { ZD x(a), y(b); cmp("zdouble zdouble", x, y, a, b); cmp("zdouble double", x, b, a, b); cmp("double zdouble", a, y, a, b); auto az = [](double p, double q) { return p == 0 || q == 0 ? 0.0 : p * q; }; auto dz = [](double p, double q) { return p == 0 ? 0.0 : p / q; }; auto t = [&](const char* nm, const ZD& got, double w) { double g = zd(got); CK(same(g, w) || std::fabs(g - w) <= 1e-15 * std::fabs(w), "%s of %g and %g is %g, expected %g", nm, a, b, g, w); };
        t("+", x + y, a + b); t("+ d", x + b, a + b); t("d +", a + y, a + b); t("-", x - y, a - b); t("- d", x - b, a - b); t("d -", a - y, a - b); t("*", x * y, az(a, b)); t("* d", x * b, az(a, b)); t("d *", a * y, az(a, b)); t("/", x / y, dz(a, b)); t("/ d", x / b, dz(a, b)); t("d /", a / y, dz(a, b)); ZD z; z = x; z += y; t("+=", z, a + b); z = x; z -= y; t("-=", z, a - b); z = x; z *= y; t("*=", z, az(a, b)); z = x; z /= y; t("/=", z, dz(a, b)); z = a; z += b; t("+= d", z, a + b); z = a; z -= b; t("-= d", z, a - b); z = a; z *= b; t("*= d", z, az(a, b)); z = a; z /= b; t("/= d", z, dz(a, b)); t("unary -", -x, -a); t("unary +", +x, a); t("pow", pow(x, y), std::pow(a, b)); t("azmul", CppAD::azmul(x, y), az(a, b)); int i = std::fabs(a) < 1e6 ? int(a) : 3; t("int", ZD(i), i); t("long", ZD(long(i)), i); if (i >= 0) t("size_t", ZD(size_t(i)), i);
        struct { const char* nm; ZD g; double w; } f[] = {{"acos", acos(x), std::acos(a)}, {"asin", asin(x), std::asin(a)}, {"atan", atan(x), std::atan(a)}, {"cos", cos(x), std::cos(a)}, {"cosh", cosh(x), std::cosh(a)}, {"exp", exp(x), std::exp(a)}, {"fabs", fabs(x), std::fabs(a)}, {"log", log(x), std::log(a)}, {"log10", log10(x), std::log10(a)}, {"sin", sin(x), std::sin(a)}, {"sinh", sinh(x), std::sinh(a)}, {"sqrt", sqrt(x), std::sqrt(a)}, {"tan", tan(x), std::tan(a)}, {"tanh", tanh(x), std::tanh(a)}, {"asinh", asinh(x), std::asinh(a)}, {"acosh", acosh(x), std::acosh(a)}, {"atanh", atanh(x), std::atanh(a)}, {"erf", erf(x), std::erf(a)}, {"erfc", erfc(x), std::erfc(a)}, {"expm1", expm1(x), std::expm1(a)}, {"log1p", log1p(x), std::log1p(a)}}; for (auto& k : f) t(k.nm, k.g, k.w); });
    if (R.family("azmul_kinds")) for (double a : S) for (double b : S) go(fmt("%.17g %.17g", a, b), [&] { VV<AD1> X(2), P(2); for (int i = 0; i < 2; i++) X[i] = P[i] = i ? b : a; CppAD::Independent(X, P); AD1 xs[3] = {X[0], P[0], AD1(a)}, ys[3] = {X[1], P[1], AD1(b)}; double w = a == 0 ? 0.0 : a * b; VV<AD1> Y(9); CppAD::VecAD<double> u(2); AD1 zero(0.0), one(1.0); u[zero] = a; u[one] = b; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Y[3 * i + j] = CppAD::azmul(xs[i], ys[j]); double g = CppAD::Value(CppAD::Var2Par(Y[3 * i + j])); bool yz = b == 0 && !std::isfinite(a); CK(same(g, w) || (yz && j == 2 && i < 2 && g == 0), "azmul of kinds %d %d is %g, expected %g", i, j, g, w); } double g = CppAD::Value(CppAD::Var2Par(CppAD::azmul(u[zero], u[one]))); CK(same(g, w), "azmul of VecAD is %g", g); g = CppAD::Value(CppAD::Var2Par(CppAD::azmul(u[zero], AD1(b)))); CK(same(g, w), "azmul VecAD AD"); g = CppAD::Value(CppAD::Var2Par(CppAD::azmul(AD1(a), u[one]))); CK(same(g, w), "azmul AD VecAD"); g = CppAD::Value(CppAD::Var2Par(CppAD::azmul(a, ys[0]))); CK(same(g, w), "azmul double AD"); g = CppAD::Value(CppAD::Var2Par(CppAD::azmul(xs[1], b))); CK(same(g, w) || (b == 0 && !std::isfinite(a) && g == 0), "azmul AD double"); CppAD::ADFun<double> f; f.Dependent(X, Y); f.check_for_nan(false); VD d(2), x(2); d[0] = x[0] = a; d[1] = x[1] = b; f.new_dynamic(d); for (double a2 : S) for (double b2 : S) { d[0] = x[0] = a2; d[1] = x[1] = b2; f.new_dynamic(d); VD y = f.Forward(0, x); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double xa = i == 2 ? a : a2, yb = j == 2 ? b : b2; double w2 = xa == 0 ? 0.0 : xa * yb; CK(same(y[3 * i + j], w2) || (yb == 0 && !std::isfinite(xa) && j == 2 && i < 2 && y[3 * i + j] == 0), "azmul of kinds %d %d played at %g %g is %g", i, j, a2, b2, y[3 * i + j]); } } });
}
// ---------------------------------------------------------------------------------------------- strings and streams
template <class T> void int_string(std::vector<long long> vs, const char* nm) { for (long long k : vs) { T v = T(k); std::ostringstream s; s << v; CK(CppAD::to_string(v) == s.str(), "%s %lld", nm, k); } T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); for (T v : {lo, hi, T(lo + 1), T(hi - 1), T(hi / 2)}) { std::ostringstream s; s << v; CK(CppAD::to_string(v) == s.str(), "%s %s", nm, s.str().c_str()); } }
static void string_all() {
    Run& R = *RR; if (R.family("integers")) for (int k = 0; k < 1; k++) go("all integer types", [&] { std::vector<long long> p = {0, 1, 9, 10, 99, 100, 12345, 32767}, q = p; for (long long v : p) q.push_back(-v); int_string<short>(q, "short"); int_string<unsigned short>(p, "unsigned short"); int_string<int>(q, "int"); int_string<unsigned>(p, "unsigned"); int_string<long>(q, "long"); int_string<unsigned long>(p, "unsigned long"); int_string<long long>(q, "long long"); int_string<unsigned long long>(p, "unsigned long long"); });
    if (R.family("floats")) for (double m : {1.0, 1.5, 1.1, 1.9999999999999998, 3.14159265358979, 0.1, 9.999999999999999, 1.0000000000000002, 1.2345678901234567, 1.1111111111111112, 2.2222222222222223, 1.3579135791357913}) for (int e = -300; e <= 300; e += 20) go(fmt("%.17ge%d", m, e), [&] { for (int sg = -1; sg < 2; sg += 2) { double v = sg * m * std::pow(10.0, e); double eps = std::numeric_limits<double>::epsilon(); double a = std::strtod(CppAD::to_string(v).c_str(), nullptr); CK(std::fabs(a - v) <= eps * std::fabs(v), "double %.17g gives %s", v, CppAD::to_string(v).c_str()); CK(CppAD::to_string(AD1(v)) == CppAD::to_string(v) && CppAD::to_string(AD2(v)) == CppAD::to_string(v), "AD %.17g", v); { VV<AD1> X(1); X[0] = v; CppAD::Independent(X); CK(CppAD::to_string(X[0]) == CppAD::to_string(v), "variable %.17g", v); CppAD::VecAD<double> u(1); std::stringstream s, s2; s << X[0]; s2 << v; CK(s.str() == s2.str(), "stream output of a variable"); u[AD1(0.0)] = X[0]; std::stringstream s3; s3 << u[AD1(0.0)]; CK(s3.str() == s2.str(), "stream output of a VecAD element"); std::stringstream in(s2.str()); AD1 y = X[0]; in >> y; CK(CppAD::Constant(y) && CppAD::Value(y) == std::strtod(s2.str().c_str(), nullptr), "stream input"); AD1::abort_recording(); } long double lv = (long double)v * 1.0000000000000000001L; long double la = strtold(CppAD::to_string(lv).c_str(), nullptr); CK(fabsl(la - lv) <= std::numeric_limits<long double>::epsilon() * fabsl(lv), "long double"); if (std::abs(e) <= 30) { float fv = float(v); double fa = std::strtod(CppAD::to_string(fv).c_str(), nullptr); CK(std::fabs(fa - fv) <= std::numeric_limits<float>::epsilon() * std::fabs(fv), "float %.9g gives %s", fv, CppAD::to_string(fv).c_str()); } CK(std::fabs(std::strtod(CppAD::to_string(ZD(v)).c_str(), nullptr) - v) <= 6e-16 * std::fabs(v), "zdouble"); } });
}
// ---------------------------------------------------------------------------------------------- identities
// an AD<AD<double>> value: kind of the outer level and kind of its value; 0 constant, 1 dynamic, 2 variable
static void ident_all() {
    Run& R = *RR; if (R.family("identical")) for (double v : {0.0, 1.0, 2.5}) for (int i = 0; i < 3; i++) for (int o = 0; o < 3; o++) for (int when = 0; when < 3; when++) go(fmt("value %g kinds %d %d time %d", v, i, o, when), [&] {
        VV<AD1> X(1), P(1); X[0] = v; P[0] = v; CppAD::Independent(X, P); AD1 in = i == 0 ? AD1(v) : i == 1 ? P[0] : X[0]; VV<AD2> X2(1), P2(1); X2[0] = in; P2[0] = in; CppAD::Independent(X2, P2); AD2 out = o == 0 ? AD2(in) : o == 1 ? P2[0] : X2[0], other(v); AD2 cc(v);
        if (when > 0) { VV<AD2> Y(1); Y[0] = X2[0]; CppAD::ADFun<AD1> f(X2, Y); } if (when > 1) { VV<AD1> Y(1); Y[0] = X[0]; CppAD::ADFun<double> f(X, Y); }
        bool oc = o == 0 || when > 0, ic = i == 0 || when > 1; CK(CppAD::Constant(out) == oc, "Constant"); CK(CppAD::Dynamic(out) == (o == 1 && when == 0), "Dynamic"); CK(CppAD::Variable(out) == (o == 2 && when == 0), "Variable"); CK(CppAD::Parameter(out) == !(o == 2 && when == 0), "Parameter");
        bool val_known = true; CK(CppAD::IdenticalCon(out) == (oc && ic), "IdenticalCon"); CK(CppAD::IdenticalZero(out) == (oc && ic && v == 0), "IdenticalZero"); CK(CppAD::IdenticalOne(out) == (oc && ic && v == 1), "IdenticalOne"); CK(CppAD::IdenticalEqualCon(out, cc) == (oc && ic), "IdenticalEqualCon"); CK(!CppAD::IdenticalEqualCon(out, AD2(v + 1)), "IdenticalEqualCon of different values"); (void)val_known;
        AD2 copy = out; CK(CppAD::EqualOpSeq(copy, out), "EqualOpSeq of a copy"); bool par = o != 2 || when > 0; CK(CppAD::EqualOpSeq(out, cc) == (par && (i != 2 || when > 1)), "EqualOpSeq with a constant of the same value"); if (when == 0) { AD2 n1 = X2[0] + 1.0, n2 = X2[0] + 2.0; CK(!CppAD::EqualOpSeq(n1, n2) && !CppAD::EqualOpSeq(n1, out), "EqualOpSeq of different variables"); }
        AD2 vp = CppAD::Var2Par(out); CK(CppAD::Constant(vp), "Var2Par is not a constant"); AD1 val = CppAD::Value(vp); CK(CppAD::Value(CppAD::Var2Par(val)) == v, "Var2Par value"); CK(CppAD::Variable(val) == (i == 2 && when < 2) && CppAD::Dynamic(val) == (i == 1 && when < 2), "kind of Value"); bool threw = false; try { AD1 t = CppAD::Value(out); (void)t; } catch (vf::CppadError&) { threw = true; } CK(threw == !oc, "Value of a variable or dynamic parameter");
        if (when == 0) { CppAD::VecAD<AD1> u(1); AD2 zero(0.0); u[zero] = out; AD2 w = CppAD::Var2Par(u[zero]); CK(CppAD::Constant(w) && CppAD::Value(CppAD::Var2Par(CppAD::Value(w))) == v, "Var2Par of a VecAD element"); CK(CppAD::Integer(u[zero]) == int(v), "Integer of a VecAD element"); AD2::abort_recording(); } if (when < 2) AD1::abort_recording(); });
}
// ---------------------------------------------------------------------------------------------- speed functions
static double leibniz(const std::vector<double>& a, int n) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; double s = 0; do { double t = 1; for (int i = 0; i < n; i++) t *= a[i * n + p[i]]; int inv = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) inv += p[j] > p[i]; s += inv % 2 ? -t : t; } while (std::next_permutation(p.begin(), p.end())); return s; }
static void det_one(const std::vector<double>& a, int n, bool record) {
    double w = leibniz(a, n); CppAD::det_by_minor<double> dm(n); CppAD::det_by_lu<double> dl(n); VD v(n * n); for (int i = 0; i < n * n; i++) v[i] = a[i]; for (int rep = 0; rep < 2; rep++) { CK(dm(v) == w, "det_by_minor is %g, expected %g", dm(v), w); double l = dl(v); CK(vf::close(l, w, 1e-12, 1e-12), "det_by_lu is %g, expected %g", l, w); }
    auto cof = [&](int i, int j) { std::vector<double> m; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) if (r != i && c != j) m.push_back(a[r * n + c]); return ((i + j) % 2 ? -1.0 : 1.0) * leibniz(m, n - 1); };
    if (n == 3) { VD d(1); d[0] = w; CK(CppAD::det_33(v, d), "det_33 rejects the determinant"); for (double e : {1.0, -0.5, 1e-6}) { d[0] = w + e; CK(!CppAD::det_33(v, d), "det_33 accepts determinant + %g", e); } VD g(9); for (int i = 0; i < 9; i++) g[i] = cof(i / 3, i % 3); CK(CppAD::det_grad_33(v, g), "det_grad_33 rejects the gradient"); for (int i = 0; i < 9; i++) { g[i] += 0.5; CK(!CppAD::det_grad_33(v, g), "det_grad_33 accepts a wrong component %d", i); g[i] -= 0.5; } }
    if (record) { VV<AD1> X(n * n), Y(1); for (int i = 0; i < n * n; i++) X[i] = i + 0.5; CppAD::Independent(X); CppAD::det_by_minor<AD1> ad(n); Y[0] = ad(X); CppAD::ADFun<double> f(X, Y); VD y = f.Forward(0, v), J = f.Jacobian(v); CK(y[0] == w, "recorded det_by_minor"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CK(J[i * n + j] == cof(i, j), "derivative of det_by_minor by element %d %d", i, j); if (w != 0) { VV<AD1> X2(n * n); for (int i = 0; i < n * n; i++) X2[i] = a[i]; CppAD::Independent(X2); CppAD::det_by_lu<AD1> al(n); Y[0] = al(X2); CppAD::ADFun<double> fl(X2, Y); J = fl.Jacobian(v); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CK(vf::close(J[i * n + j], cof(i, j), 1e-11, 1e-11), "derivative of det_by_lu by element %d %d", i, j); } }
}
static void speed_all() {
    Run& R = *RR; auto mats = [&](const char* nm, int n, std::vector<double> vals, bool record) { if (!R.family(nm)) return; long N = 1; for (int i = 0; i < n * n; i++) N *= (long)vals.size(); for (long q = 0; q < N; q++) go(fmt("%d by %d number %ld", n, n, q), [&] { std::vector<double> a(n * n); long t = q; for (auto& e : a) { e = vals[t % vals.size()]; t /= (long)vals.size(); } det_one(a, n, record); }); };
    mats("det1", 1, {-2, -1, 0, 1, 2, 3}, true); mats("det2", 2, {-2, -1, 0, 1, 2, 3}, true); mats("det3", 3, R.thorough() ? std::vector<double>{-1, 0, 1, 2} : std::vector<double>{-1, 0, 2}, false); mats("det3r", 3, {0, 1}, true); mats("det4", 4, {0, 1}, false);
    if (R.family("minor")) for (int m = 1; m <= 5; m++) for (int rs = 1; rs < (1 << m); rs++) for (int c = 1; c < (1 << m); c++) if (__builtin_popcount(rs) == __builtin_popcount(c)) go(fmt("m = %d rows %x columns %x", m, rs, c), [&] { std::vector<double> a(m * m); for (int i = 0; i < m * m; i++) a[i] = (i * 7 + i * i) % 5 - 2; int n = __builtin_popcount(rs); auto link = [&](int s) { std::vector<size_t> r(m + 1, m); int last = m; for (int i = 0; i < m; i++) if (s >> i & 1) { r[last] = i; last = i; } r[last] = m; return r; }; auto r = link(rs), k = link(c), r0 = r, k0 = k; std::vector<double> sub; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if ((rs >> i & 1) && (c >> j & 1)) sub.push_back(a[i * m + j]); double d = CppAD::det_of_minor(a, m, n, r, k); CK(d == leibniz(sub, n), "det_of_minor is %g, expected %g", d, leibniz(sub, n)); CK(r == r0 && k == k0, "r or c is not restored"); });
    if (R.family("mat_sum_sq")) for (int n = 1; n <= 3; n++) { std::vector<double> vals = n < 3 ? std::vector<double>{-1, 0, 2, 0.5} : std::vector<double>{0, 1, -2}; long N = 1; for (int i = 0; i < n * n; i++) N *= (long)vals.size(); for (long q = 0; q < N; q++) go(fmt("n = %d number %ld", n, q), [&] { VD x(n * n), y(n * n), z(1); long t = q; for (int i = 0; i < n * n; i++) { x[i] = vals[t % vals.size()]; t /= (long)vals.size(); y[i] = NAN_; } z[0] = NAN_; VD x0 = x; CppAD::mat_sum_sq(size_t(n), x, y, z); double s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double w = 0; for (int k = 0; k < n; k++) w += x0[i * n + k] * x0[k * n + j]; CK(y[i * n + j] == w, "y(%d,%d)", i, j); s += w; } CK(z[0] == s, "z"); for (int i = 0; i < n * n; i++) CK(x[i] == x0[i], "x changed"); }); }
    auto spars = [&](int n, bool sym, std::vector<std::pair<int, int>> rc) { size_t K = rc.size(); VV<size_t> row(K), col(K); for (size_t k = 0; k < K; k++) { row[k] = rc[k].first; col[k] = rc[k].second; } for (int pt = 0; pt < 2; pt++) { VD x(n); for (int i = 0; i < n; i++) x[i] = pt ? 0.5 * i - 0.75 : 0.25 + 0.5 * i;
        if (sym) { std::vector<double> H(n * n, 0.0); double f = 0; for (auto& e : rc) { int i = e.first, j = e.second; double t = std::exp(x[i] * x[j]); f += t; if (i == j) H[i * n + i] += (2 + 4 * x[i] * x[i]) * t; else { H[i * n + j] += (1 + x[i] * x[j]) * t; H[j * n + i] += (1 + x[i] * x[j]) * t; H[i * n + i] += x[j] * x[j] * t; H[j * n + j] += x[i] * x[i] * t; } } VD y(1), h(K); y[0] = NAN_; CppAD::sparse_hes_fun<double>(n, x, row, col, 0, y); CK(vf::close(y[0], f, 1e-14, 1e-14), "sparse_hes_fun value"); for (size_t k = 0; k < K; k++) h[k] = NAN_; CppAD::sparse_hes_fun<double>(n, x, row, col, 2, h); for (size_t k = 0; k < K; k++) CK(vf::close(h[k], H[row[k] * n + col[k]], 1e-13, 1e-13), "sparse_hes_fun second derivative %zu is %g, expected %g", k, h[k], H[row[k] * n + col[k]]);
            VV<AD1> X(n), Y(1); for (int i = 0; i < n; i++) X[i] = 1.0; CppAD::Independent(X); CppAD::sparse_hes_fun<AD1>(n, X, row, col, 0, Y); CppAD::ADFun<double> fun(X, Y); VD D = fun.Hessian(x, 0); for (int i = 0; i < n * n; i++) CK(vf::close(D[i], H[i], 1e-13, 1e-13), "Hessian of a recorded sparse_hes_fun"); }
        else { int m = 2; if (K < size_t(m)) return; VD y(m), w(m); for (int i = 0; i < m; i++) { w[i] = 0; y[i] = NAN_; } for (auto& e : rc) w[e.first] += std::exp(x[e.second] * x[e.second] / 2); CppAD::sparse_jac_fun<double>(m, n, x, row, col, 0, y); for (int i = 0; i < m; i++) CK(vf::close(y[i], w[i], 1e-14, 1e-14), "sparse_jac_fun value"); VD d(K); for (size_t k = 0; k < K; k++) d[k] = NAN_; CppAD::sparse_jac_fun<double>(m, n, x, row, col, 1, d); for (size_t k = 0; k < K; k++) CK(vf::close(d[k], x[col[k]] * std::exp(x[col[k]] * x[col[k]] / 2), 1e-14, 1e-14), "sparse_jac_fun derivative %zu", k); } } };
    for (int sym = 0; sym < 2; sym++) if (R.family(sym ? "sparse_hes_fun" : "sparse_jac_fun")) for (int n = 1; n <= 3; n++) { std::vector<std::pair<int, int>> all; for (int i = 0; i < (sym ? n : 2); i++) for (int j = 0; j < n; j++) all.push_back({i, j}); for (int s = 1; s < (1 << all.size()); s++) for (int ord = 0; ord < 3; ord++) go(fmt("n = %d set %x order %d", n, s, ord), [&] { std::vector<std::pair<int, int>> rc; for (size_t k = 0; k < all.size(); k++) if (s >> k & 1) rc.push_back(all[k]); if (ord == 1) std::reverse(rc.begin(), rc.end()); if (ord == 2) std::stable_sort(rc.begin(), rc.end(), [](auto a, auto b) { return (a.first * 3 + a.second * 5) % 7 < (b.first * 3 + b.second * 5) % 7; }); spars(n, sym, rc); }); }
    if (R.family("ode_evaluate")) for (int n = 1; n <= 8; n++) for (int q = 0; q < 8; q++) go(fmt("n = %d number %d", n, q), [&] { VD x(n), y(n), d(n * n); for (int i = 0; i < n; i++) { x[i] = (i * 5 + q * 3) % 7 - 3; y[i] = NAN_; } for (int i = 0; i < n * n; i++) d[i] = NAN_; if (n <= 5) { CppAD::ode_evaluate(x, 0, y); double fact[6] = {1, 1, 2, 6, 24, 120}; for (int i = 0; i < n; i++) { double w = 0; for (int k = 0; k <= i; k++) w += x[i - k] / fact[k]; CK(vf::close(y[i], w, 1e-13, 1e-13), "component %d is %.17g, expected %.17g", i, y[i], w); } } CppAD::ode_evaluate(x, 1, d); double f = 1; for (int k = 0; k < n; k++) { if (k) f *= k; for (int i = 0; i < n; i++) { int j = i - k; if (j >= 0) CK(vf::close(d[i * n + j], 1 / f, 1e-15, 0), "derivative %d %d is %g", i, j, d[i * n + j]); if (i + k < n && k) CK(d[i * n + i + k] == 0, "derivative %d %d is not zero", i, i + k); } } });
    if (R.family("uniform")) for (size_t seed = 0; seed < 300; seed++) go(fmt("seed %zu", seed), [&] { CppAD::uniform_01(seed); VD a(20), b(21); b[20] = -5; CppAD::uniform_01(20, a); CppAD::uniform_01(seed); CppAD::uniform_01(20, b); for (int i = 0; i < 20; i++) { CK(a[i] >= 0 && a[i] <= 1, "element %d is %g", i, a[i]); CK(a[i] == b[i], "element %d depends on more than the seed", i); } CK(b[20] == -5, "element after the end"); int diff = 0; for (int i = 1; i < 20; i++) diff += a[i] != a[0]; CK(diff > 0, "all elements are equal"); });
}
// ---------------------------------------------------------------------------------------------- others
static bool t_ok(void) { return true; } static bool t_no(void) { return false; }
struct Quad { double e; int which; template <class V> V operator()(const V& x) const { V y(2); y[0] = x[0] * x[1]; y[1] = x[0] + 2.0 * x[1]; if (which < 2) y[which] += e; return y; } };
static std::vector<int> g_handled; template <int K> void handler(bool, int, const char*, const char*, const char*) { g_handled.push_back(K); throw K; }
static void other_all() {
    Run& R = *RR; if (R.family("test_boolofvoid")) for (int len = 0; len <= 6; len++) for (int s = 0; s < (1 << len); s++) for (int mem = 0; mem < 2; mem++) go(fmt("length %d tests %x memory %d", len, s, mem), [&] { std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); size_t nok = 0; bool ok; size_t a, b; std::vector<bool> res; { CppAD::test_boolofvoid run("group", 20); for (int i = 0; i < len; i++) { bool w = s >> i & 1; nok += w; res.push_back(run(w ? t_ok : t_no, fmt("test%d", i)) == w); } ok = run.summary(mem); a = run.n_ok(); b = run.n_error(); } std::cout.rdbuf(old); for (bool r : res) CK(r, "result of a test"); CK(ok == (nok == size_t(len) && mem), "summary"); CK(a == nok + mem && b == size_t(len) - nok + !mem, "counts %zu %zu", a, b); });
    if (R.family("FunCheck")) for (int which = 0; which < 3; which++) for (double e : {0.0, 1e-12, 1e-3, 0.5, -0.5, NAN_, INF}) for (double r : {0.0, 1e-6, 0.1, 1.0}) for (double a : {0.0, 1e-6, 0.1, 1.0}) go(fmt("component %d error %g r %g a %g", which, e, r, a), [&] { VV<AD1> X(2), Y; X[0] = 1; X[1] = 2; CppAD::Independent(X); Quad g0{0, 2}; Y = g0(X); CppAD::ADFun<double> f(X, Y); for (int pt = 0; pt < 3; pt++) { VD x(2); x[0] = pt - 1; x[1] = 0.5 * pt; Quad g{e, which}; VD F = Quad{0, 2}(x), G = g(x); bool w = true, skip = false; for (int i = 0; i < 2; i++) { int q = ref_near(F[i], G[i], r, a); w = w && q == 1; skip = skip || q == 2; } if (!skip) CK(CppAD::FunCheck(f, g, x, r, a) == w, "FunCheck at point %d is %d", pt, !w); } });
    if (R.family("handlers")) for (int depth = 0; depth <= 4; depth++) go(fmt("depth %d", depth), [&] { auto call = [&](int want) { g_handled.clear(); int got = -1; try { CppAD::ErrorHandler::Call(true, 1, "f", "e", "m"); } catch (int k) { got = k; } CK(got == want && g_handled.size() == 1, "handler %d was called, expected %d", got, want); }; auto known = [&](int want) { g_handled.clear(); int got = -1; try { CppAD::Poly(0, VD(1), 1.0); CppAD::ADFun<double> f; VD x(3); f.Forward(0, x); } catch (int k) { got = k; } CK(got == want, "handler %d was called by an error, expected %d", got, want); };
        CppAD::ErrorHandler h0(handler<0>); call(0); if (depth > 0) { CppAD::ErrorHandler h1(handler<1>); call(1); if (depth > 1) { { CppAD::ErrorHandler h2(handler<2>); call(2); if (depth > 2) { CppAD::ErrorHandler h3(handler<3>); call(3); known(3); if (depth > 3) { CppAD::ErrorHandler h1b(handler<1>); call(1); } call(3); } call(2); } } call(1); known(1); } call(0); known(0); });
    if (R.family("numeric_type")) for (int k = 0; k < 1; k++) go("checks of types", [&] { CppAD::CheckNumericType<int>(); CppAD::CheckNumericType<float>(); CppAD::CheckNumericType<double>(); CppAD::CheckNumericType<AD1>(); CppAD::CheckNumericType<AD2>(); CppAD::CheckNumericType<CD>(); CppAD::CheckSimpleVector<double, VD>(); CppAD::CheckSimpleVector<double, std::vector<double>>(); CppAD::CheckSimpleVector<double, std::valarray<double>>(); CppAD::CheckSimpleVector<bool, CppAD::vectorBool>(); CppAD::CheckSimpleVector<AD1, VV<AD1>>(); VD a(1), b(1); CppAD::CheckSimpleVector<double, VD>(1.0, 2.0); (void)a; (void)b; double t0 = CppAD::elapsed_seconds(), t1 = CppAD::elapsed_seconds(); CK(t0 >= 0 && t1 >= t0, "elapsed_seconds decreases"); });
}
int main(int argc, char** argv) { Run R(argc, argv); RR = &R; CppAD::ErrorHandler eh(vf::throw_handler); return vf::guarded_main(R, [&] { near_all(); poly_all(); pow_all(); base_all(); ops_all(); string_all(); ident_all(); speed_all(); other_all(); }); }
