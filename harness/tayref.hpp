// Reference model of differentiation: truncated power series in t whose coefficients carry first
// derivatives with respect to shifts of the independent variables. Written from the definition of each
// elementary function (Taylor expansion of the function about u(0), composed with u(t)-u(0)); it shares no
// recurrence with the implementation.
#ifndef TAYREF_HPP
#define TAYREF_HPP
#include <cmath>
#include <array>
namespace tay {
#ifndef TAY_L
#define TAY_L long double
#endif
typedef TAY_L L;
#ifndef TAY_K
#define TAY_K 4          // highest order
#endif
#ifndef TAY_N
#define TAY_N 2          // independents
#endif
struct D {               // dual number
    L v; L d[TAY_N];
    D(L x = 0) : v(x) { for (int i = 0; i < TAY_N; i++) d[i] = 0; }
};
inline D operator+(const D& a, const D& b) { D r(a.v + b.v); for (int i = 0; i < TAY_N; i++) r.d[i] = a.d[i] + b.d[i]; return r; }
inline D operator-(const D& a, const D& b) { D r(a.v - b.v); for (int i = 0; i < TAY_N; i++) r.d[i] = a.d[i] - b.d[i]; return r; }
inline D operator*(const D& a, const D& b) { D r(a.v * b.v); for (int i = 0; i < TAY_N; i++) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
inline D operator/(const D& a, const D& b) { D r(a.v / b.v); for (int i = 0; i < TAY_N; i++) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v; return r; }

// scalar (no duals) series about a point, one order longer than K, used for derivative tables
const int M = TAY_K + 2;
typedef std::array<L, M> P;
inline P pmul(const P& a, const P& b) { P r; r.fill(0); for (int i = 0; i < M; i++) for (int j = 0; i + j < M; j++) r[i + j] += a[i] * b[j]; return r; }
inline P pdiv(const P& a, const P& b) { P r; for (int i = 0; i < M; i++) { L s = a[i]; for (int j = 0; j < i; j++) s -= r[j] * b[i - j]; r[i] = s / b[0]; } return r; }
inline P pint(L c0, const P& a) { P r; r[0] = c0; for (int i = 1; i < M; i++) r[i] = a[i - 1] / i; return r; }   // integral of a'
inline P pconst(L c) { P r; r.fill(0); r[0] = c; return r; }
// (c0 + c1 h + c2 h^2)^e by binomial series in w = (c1 h + c2 h^2)/c0
inline P pquadpow(L c0, L c1, L c2, L e) {
    P w = pconst(0); w[1] = c1 / c0; if (M > 2) w[2] = c2 / c0;
    P r = pconst(1), wk = pconst(1); L b = 1;
    for (int k = 1; k < M; k++) { b *= (e - (k - 1)) / k; wk = pmul(wk, w); for (int i = 0; i < M; i++) r[i] += b * wk[i]; }
    L s = std::pow(c0, e); for (int i = 0; i < M; i++) r[i] *= s;
    return r;
}
inline P pexp(L u) { P r; L f = std::exp(u); for (int k = 0; k < M; k++) { r[k] = f; f /= (k + 1); } return r; }
inline P psin(L u) { P r; L s = std::sin(u), c = std::cos(u), f = 1; L t[4] = {s, c, -s, -c}; for (int k = 0; k < M; k++) { if (k) f /= k; r[k] = t[k % 4] * f; } return r; }
inline P pcos(L u) { P r; L s = std::sin(u), c = std::cos(u), f = 1; L t[4] = {c, -s, -c, s}; for (int k = 0; k < M; k++) { if (k) f /= k; r[k] = t[k % 4] * f; } return r; }
inline P psinh(L u) { P r; L t[2] = {std::sinh(u), std::cosh(u)}, f = 1; for (int k = 0; k < M; k++) { if (k) f /= k; r[k] = t[k % 2] * f; } return r; }
inline P pcosh(L u) { P r; L t[2] = {std::cosh(u), std::sinh(u)}, f = 1; for (int k = 0; k < M; k++) { if (k) f /= k; r[k] = t[k % 2] * f; } return r; }

struct T {               // series with dual coefficients
    std::array<D, TAY_K + 1> c;
    T(double x = 0) { c[0] = D((L)x); }
};
inline double value0(const T& x) { return (double)x.c[0].v; }
inline T operator+(const T& a, const T& b) { T r; for (int i = 0; i <= TAY_K; i++) r.c[i] = a.c[i] + b.c[i]; return r; }
inline T operator-(const T& a, const T& b) { T r; for (int i = 0; i <= TAY_K; i++) r.c[i] = a.c[i] - b.c[i]; return r; }
inline T operator*(const T& a, const T& b) { T r; for (int i = 0; i <= TAY_K; i++) for (int j = 0; i + j <= TAY_K; j++) r.c[i + j] = r.c[i + j] + a.c[i] * b.c[j]; return r; }
inline T operator/(const T& a, const T& b) { T r; for (int i = 0; i <= TAY_K; i++) { D s = a.c[i]; for (int j = 0; j < i; j++) s = s - r.c[j] * b.c[i - j]; r.c[i] = s / b.c[0]; } return r; }
inline T operator-(const T& a) { return T(0) - a; }
inline T operator+(const T& a) { return a; }
inline T& operator+=(T& a, const T& b) { return a = a + b; }
inline T& operator-=(T& a, const T& b) { return a = a - b; }
inline T& operator*=(T& a, const T& b) { return a = a * b; }
inline T& operator/=(T& a, const T& b) { return a = a / b; }
// compose the scalar series p (about u.c[0].v) with u
inline T compose(const P& p, const T& u) {
    T v = u; v.c[0] = D(0);
    T r; T vk(1.0);
    for (int k = 0; k <= TAY_K; k++) {
        D g(p[k]); for (int i = 0; i < TAY_N; i++) g.d[i] = p[k + 1] * (k + 1) * u.c[0].d[i];
        for (int i = k; i <= TAY_K; i++) r.c[i] = r.c[i] + g * vk.c[i];
        vk = vk * v;
    }
    return r;
}
#define TU0 L u = a.c[0].v
inline T exp(const T& a) { TU0; return compose(pexp(u), a); }
inline T expm1(const T& a) { TU0; P p = pexp(u); p[0] = std::expm1(u); return compose(p, a); }
inline T log(const T& a) { TU0; return compose(pint(std::log(u), pquadpow(u, 1, 0, -1)), a); }
inline T log1p(const T& a) { TU0; return compose(pint(std::log1p(u), pquadpow(1 + u, 1, 0, -1)), a); }
inline T log10(const T& a) { T t; t.c[0] = D(std::log(L(10))); return log(a) / t; }
inline T sqrt(const T& a) { TU0; P p = pquadpow(u, 1, 0, 0.5L); p[0] = std::sqrt(u); return compose(p, a); }
inline T sin(const T& a) { TU0; return compose(psin(u), a); }
inline T cos(const T& a) { TU0; return compose(pcos(u), a); }
inline T sinh(const T& a) { TU0; return compose(psinh(u), a); }
inline T cosh(const T& a) { TU0; return compose(pcosh(u), a); }
inline T tan(const T& a) { TU0; return compose(pdiv(psin(u), pcos(u)), a); }
inline T tanh(const T& a) { TU0; return compose(pdiv(psinh(u), pcosh(u)), a); }
inline T atan(const T& a) { TU0; return compose(pint(std::atan(u), pquadpow(1 + u * u, 2 * u, 1, -1)), a); }
inline T asin(const T& a) { TU0; return compose(pint(std::asin(u), pquadpow(1 - u * u, -2 * u, -1, -0.5L)), a); }
inline T acos(const T& a) { TU0; P p = pint(std::acos(u), pquadpow(1 - u * u, -2 * u, -1, -0.5L)); for (int k = 1; k < M; k++) p[k] = -p[k]; return compose(p, a); }
inline T asinh(const T& a) { TU0; return compose(pint(std::asinh(u), pquadpow(1 + u * u, 2 * u, 1, -0.5L)), a); }
inline T acosh(const T& a) { TU0; return compose(pint(std::acosh(u), pquadpow(u * u - 1, 2 * u, 1, -0.5L)), a); }
inline T atanh(const T& a) { TU0; return compose(pint(std::atanh(u), pquadpow(1 - u * u, -2 * u, -1, -1)), a); }
inline P perf_(L u) {    // series of erf about u
    P e1 = pconst(0); L f = 1; for (int k = 0; k < M; k++) { e1[k] = f; f *= -2 * u / (k + 1); }       // exp(-2 u h)
    P e2 = pconst(0); f = 1; for (int k = 0; 2 * k < M; k++) { e2[2 * k] = f; f *= -1.0L / (k + 1); }  // exp(-h^2)
    P e = pmul(e1, e2); L s = 2 / std::sqrt(std::acos((L)-1)) * std::exp(-u * u);
    for (int k = 0; k < M; k++) e[k] *= s;
    return pint(std::erf(u), e);
}
inline T erf(const T& a) { TU0; return compose(perf_(u), a); }
inline T erfc(const T& a) { TU0; P p = perf_(u); p[0] = std::erfc(u); for (int k = 1; k < M; k++) p[k] = -p[k]; return compose(p, a); }
inline T abs(const T& a) { TU0; P p = pconst(std::fabs(u)); p[1] = u > 0 ? 1 : u < 0 ? -1 : 0; return compose(p, a); }
inline T fabs(const T& a) { return abs(a); }
inline T sign(const T& a) { TU0; return T(u > 0 ? 1 : u < 0 ? -1 : 0); }
inline bool is_const(const T& a) { for (int k = 0; k <= TAY_K; k++) { if (k && a.c[k].v != 0) return false; for (int i = 0; i < TAY_N; i++) if (a.c[k].d[i] != 0) return false; } return true; }
inline T pow(const T& a, const T& b) {
    if (is_const(b)) {
        L u = a.c[0].v, e = b.c[0].v;
        if (e == 0) return T(1);
        if (u == 0 && e == std::floor(e) && e > 0) { T r(1); for (int k = 0; k < (int)e; k++) r = r * a; return r; }
        P p = pconst(std::pow(u, e)); L f = 1;   // derivative table of u^e
        for (int k = 1; k < M; k++) { f *= (e - (k - 1)) / k; p[k] = f == 0 ? 0 : f * std::pow(u, e - k); }
        return compose(p, a);
    }
    T r = exp(b * log(a)); r.c[0].v = std::pow(a.c[0].v, b.c[0].v); return r;   // the value also where the derivatives are not defined
}
inline T pow(const T& a, int e) { T r(1); for (int k = 0; k < (e < 0 ? -e : e); k++) r = r * a; return e < 0 ? T(1) / r : r; }
inline T azmul(const T& a, const T& b) { return a.c[0].v == 0 && is_const(a) ? T(0) : a * b; }
inline T atan2(const T& y, const T& x) {   // by its differential: theta' = (x y' - y x') / (x^2+y^2), for series and duals
    T q = x * x + y * y, dy, dx; // derivative series in t (last coefficient unknown, not needed)
    for (int i = 0; i < TAY_K; i++) { dy.c[i] = y.c[i + 1] * D(i + 1); dx.c[i] = x.c[i + 1] * D(i + 1); }
    T w = (x * dy - y * dx) / q;
    T r; r.c[0] = D(std::atan2(y.c[0].v, x.c[0].v));
    for (int i = 0; i < TAY_N; i++) r.c[0].d[i] = (x.c[0].v * y.c[0].d[i] - y.c[0].v * x.c[0].d[i]) / q.c[0].v;
    for (int i = 1; i <= TAY_K; i++) r.c[i] = w.c[i - 1] * D(1.0L / i);
    return r;
}
// relations are those of double arithmetic: values that only differ by extra precision are equal
inline L same(L l, L r) { return std::fabs(l - r) <= 1e-17L * (std::fabs(l) + std::fabs(r)) ? r : l; }
#define TCE(NAME, REL) inline T CondExp##NAME(const T& l, const T& r, const T& t, const T& f) { return same(l.c[0].v, r.c[0].v) REL r.c[0].v ? t : f; }
TCE(Lt, <) TCE(Le, <=) TCE(Eq, ==) TCE(Ge, >=) TCE(Gt, >)
} // namespace tay
#endif
