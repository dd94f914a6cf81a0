// C29: Runge45, Rosen34, OdeGear, OdeGearControl, OdeErrControl, RombergOne, RombergMul.
#include "vfc.hpp"
#include <valarray>
using vf::Run; using std::string;
typedef long I; typedef __int128 J; struct overflow {};
// exact rational numbers with a nan (q == 0)
struct rat { I p, q; rat() : p(0), q(1) {} rat(int a) : p(a), q(1) {} rat(size_t a) : p((I)a), q(1) {} rat(double a) : p(0), q(1) { while (a != std::floor(a)) { a *= 2; q *= 2; if (q > (I)1 << 40) throw overflow(); } p = (I)a; J P = p, Q = q; set(P, Q); } rat(I a, I b) { set(a, b); }
    void set(J a, J b) { if (b < 0) { a = -a; b = -b; } if (b == 0) { p = q = 0; return; } J x = a < 0 ? -a : a, y = b; while (y) { J t = x % y; x = y; y = t; } if (x > 1) { a /= x; b /= x; } const J L = (J)1 << 62; if (a > L || a < -L || b > L) throw overflow(); p = (I)a; q = (I)b; }
    bool nan() const { return q == 0; } double d() const { return nan() ? std::nan("") : (double)p / (double)q; }
    rat operator-() const { rat r(*this); r.p = -p; return r; } rat operator+() const { return *this; }
    rat& operator+=(const rat& b) { I g = q && b.q ? std::__gcd(q, b.q) : 1; if (g == 0) g = 1; J A = (J)p * (b.q / g) + (J)b.p * (q / g); set(A, (J)q * (b.q / g)); return *this; } rat& operator-=(const rat& b) { return *this += -b; }
    rat& operator*=(const rat& b) { rat u, v; if (q && b.q) { u.set(p, b.q); v.set(b.p, q); set((J)u.p * v.p, (J)u.q * v.q); } else set(0, 0); return *this; } rat& operator/=(const rat& b) { if (q == 0 || b.q == 0 || b.p == 0) { set(0, 0); return *this; } rat i; i.set(b.q, b.p); return *this *= i; } };
static rat operator+(rat a, const rat& b) { return a += b; } static rat operator-(rat a, const rat& b) { return a -= b; } static rat operator*(rat a, const rat& b) { return a *= b; } static rat operator/(rat a, const rat& b) { return a /= b; }
static bool operator==(const rat& a, const rat& b) { return !a.nan() && !b.nan() && a.p == b.p && a.q == b.q; } static bool operator!=(const rat& a, const rat& b) { return !(a == b); }
static bool operator<(const rat& a, const rat& b) { return !a.nan() && !b.nan() && (J)a.p * b.q < (J)b.p * a.q; } static bool operator<=(const rat& a, const rat& b) { return a < b || a == b; } static bool operator>=(const rat& a, const rat& b) { return b <= a; } static bool operator>(const rat& a, const rat& b) { return b < a; }
static rat fabs(const rat& a) { return a < rat(0) ? -a : a; } static rat powi(const rat& a, int k) { rat r(1); while (k--) r *= a; return r; }
typedef CppAD::AD<double> AD1; typedef CppAD::vector<rat> RV; typedef CppAD::vector<double> DV; typedef CppAD::vector<AD1> AV;
static double todouble(const rat& a) { return a.d(); } static double todouble(double a) { return a; } static double todouble(const AD1& a) { return CppAD::Value(CppAD::Var2Par(a)); }
// ---------------------------------------------------------------- systems that every method of order p solves exactly
// component i has weight w; its derivative is a sum of monomials of weight w - 1 in t (weight 1) and earlier components
struct Mono { int c, et; std::vector<int> e; };   // c t^et prod x_i^e_i
struct Sys { std::vector<int> w; std::vector<std::vector<Mono>> f; string name; };
struct Poly { std::vector<rat> a; rat at(const rat& t) const { rat r(0); for (size_t k = a.size(); k--;) r = r * t + a[k]; return r; } };
static Poly mul(const Poly& a, const Poly& b) { Poly r; r.a.assign(a.a.size() + b.a.size() - 1, rat(0)); for (size_t i = 0; i < a.a.size(); i++) for (size_t j = 0; j < b.a.size(); j++) r.a[i + j] += a.a[i] * b.a[j]; return r; }
// the solution as polynomials of t
static std::vector<Poly> solve(const Sys& S, const rat& t0, const std::vector<rat>& x0) {
    std::vector<Poly> X; for (size_t i = 0; i < S.f.size(); i++) { Poly s; s.a.assign(1, rat(0)); for (auto& m : S.f[i]) { Poly u, t; u.a = {rat(m.c)}; t.a = {rat(0), rat(1)}; for (int k = 0; k < m.et; k++) u = mul(u, t); for (size_t j = 0; j < m.e.size(); j++) for (int k = 0; k < m.e[j]; k++) u = mul(u, X[j]); if (s.a.size() < u.a.size()) s.a.resize(u.a.size(), rat(0)); for (size_t k = 0; k < u.a.size(); k++) s.a[k] += u.a[k]; }
        Poly p; p.a.assign(s.a.size() + 1, rat(0)); for (size_t k = 0; k < s.a.size(); k++) p.a[k + 1] = s.a[k] / rat((int)k + 1); p.a[0] = x0[i] - p.at(t0); X.push_back(p); }
    return X;
}
static void monomials(int w, const std::vector<int>& ws, size_t i, Mono cur, std::vector<Mono>& out) { if (i == ws.size()) { cur.et = w; out.push_back(cur); return; } for (int k = 0; k * ws[i] <= w; k++) { Mono m = cur; m.e.push_back(k); monomials(w - k * ws[i], ws, i + 1, m, out); } }
static void systems(const std::vector<int>& w, bool two, std::vector<Sys>& out, Sys cur = Sys()) {
    size_t i = cur.f.size(); if (i == w.size()) { for (size_t a = 0; a < cur.f.size(); a++) { cur.name += vf::fmt("%sx%zu'=", a ? ", " : "", a); for (size_t k = 0; k < cur.f[a].size(); k++) { auto& m = cur.f[a][k]; cur.name += vf::fmt("%+d", m.c); if (m.et) cur.name += vf::fmt(" t^%d", m.et); for (size_t j = 0; j < m.e.size(); j++) if (m.e[j]) cur.name += vf::fmt(" x%zu^%d", j, m.e[j]); } } out.push_back(cur); return; }
    std::vector<Mono> ms; monomials(w[i] - 1, std::vector<int>(w.begin(), w.begin() + i), 0, Mono{1, 0, {}}, ms);
    for (size_t a = 0; a < ms.size(); a++) { Sys s = cur; s.w.push_back(w[i]); Mono m = ms[a]; m.c = i % 2 ? 2 : 1; s.f.push_back({m}); systems(w, two, out, s); if (two) for (size_t b = a + 1; b < ms.size(); b++) { Sys s2 = s; Mono m2 = ms[b]; m2.c = -1; s2.f.back().push_back(m2); systems(w, two, out, s2); } }
}
template <class S, class V> struct SysFun { const Sys* s; std::vector<double> times; long calls = 0, bad_call = -1; int bad_comp = 0; bool order_ok = true; int pend = 0; S pt; V px; S c; bool use_c = false;
    S val(const S& t, const V& x, size_t i, int dt, int dx) { S r(0); for (auto& m : s->f[i]) { S u(m.c); int et = m.et; if (dt) { if (et == 0) continue; u *= S(et); et--; } for (int k = 0; k < et; k++) u *= t; bool zero = false; for (size_t j = 0; j < m.e.size(); j++) { int e = m.e[j]; if ((int)j == dx) { if (e == 0) { zero = true; break; } u *= S(e); e--; } for (int k = 0; k < e; k++) u *= x[j]; } if (!zero && !(dx >= (int)m.e.size())) r += u; } return use_c ? r * c : r; }
    bool note(const S& t) { times.push_back(todouble(t)); return calls++ == bad_call; }
    static S nanv() { return S(0) / S(0); }
    void Ode(const S& t, const V& x, V& f) { bool b = note(t); if (pend) order_ok = false; for (size_t i = 0; i < s->f.size(); i++) f[i] = val(t, x, i, 0, -1); if (b) f[bad_comp % s->f.size()] = nanv(); }
    void Ode_ind(const S& t, const V& x, V& f) { bool b = note(t); if (pend) order_ok = false; pend = 1; pt = t; px = x; for (size_t i = 0; i < s->f.size(); i++) f[i] = val(t, x, i, 1, -1); if (b) f[bad_comp % s->f.size()] = nanv(); }
    void Ode_dep(const S& t, const V& x, V& f) { bool b = note(t); size_t n = s->f.size(); if (!pend) order_ok = false; pend = 0; if (!(t == pt)) order_ok = false; for (size_t i = 0; i < n; i++) if (!(x[i] == px[i])) order_ok = false; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) f[i * n + j] = val(t, x, i, 0, (int)j); if (b) f[bad_comp % (n * n)] = nanv(); } };
static const std::vector<rat> X0[3] = {{0, 0, 0, 0, 0, 0}, {rat(1), rat(I(-1), I(2)), rat(2), rat(I(1), I(3)), rat(-1), rat(3)}, {rat(I(-3), I(2)), rat(2), rat(0), rat(-1), rat(I(1), I(2)), rat(1)}};
template <class S, class V, class F> V method(int which, F& f, size_t M, const S& ti, const S& tf, const V& xi, V* e) { if (which == 0) { if (e) return CppAD::Runge45(f, M, ti, tf, xi, *e); return CppAD::Runge45(f, M, ti, tf, xi); } if (e) return CppAD::Rosen34(f, M, ti, tf, xi, *e); return CppAD::Rosen34(f, M, ti, tf, xi); }
static string one_step(Run& R, int which, const Sys& S, int xk, size_t M, const rat& ti, const rat& tf) {
    const int ord = which == 0 ? 5 : 4; size_t n = S.f.size(); auto sol = solve(S, ti, X0[xk]); RV xi(n), e(n); for (size_t i = 0; i < n; i++) { xi[i] = X0[xk][i]; e[i] = rat(77); } SysFun<rat, RV> F; F.s = &S; RV xf = method(which, F, M, ti, tf, xi, &e); R.outcome(size_t(xf[n - 1].p * 31 + xf[n - 1].q)); R.case_nontrivial = true;
    for (size_t i = 0; i < n; i++) { R.comparisons++; if (xi[i] != X0[xk][i]) return "xi changed"; if (xf[i] != sol[i].at(tf)) return vf::fmt("x%zu is %.17g, the solution %.17g", i, xf[i].d(), sol[i].at(tf).d()); if (S.w[i] < ord && e[i] != rat(0)) return vf::fmt("e[%zu] is %g where both orders are exact", i, e[i].d()); if (e[i] < rat(0)) return "e is negative"; }
    if (!F.order_ok) return "Ode_ind is not directly followed by Ode_dep with the same arguments"; if (F.calls == 0) return "no call"; double lo = std::min(ti.d(), tf.d()), hi = std::max(ti.d(), tf.d()); for (double t : F.times) if (!(t >= lo && t <= hi)) return vf::fmt("called at time %g outside of the interval", t);
    SysFun<rat, RV> G; G.s = &S; RV x2 = method(which, G, M, ti, tf, xi, (RV*)nullptr); for (size_t i = 0; i < n; i++) if (x2[i] != xf[i]) return "without e: different"; if (G.calls != F.calls) return "without e: different number of calls";
    // the estimate: for a component of weight equal to the order it is a constant times M |h|^order, the constant independent of ti, tf and M (the estimate of one step is the same for all steps)
    for (size_t i = 0; i < n; i++) if (S.w[i] == ord) { SysFun<rat, RV> H; H.s = &S; RV e1(n); method(which, H, (size_t)1, rat(0), rat(1), xi, &e1); rat h = fabs((tf - ti) / rat((int)M)); R.comparisons++; if (e[i] != e1[i] * rat((int)M) * powi(h, ord)) return vf::fmt("e[%zu] is %g, with one step of size one %g", i, e[i].d(), e1[i].d()); if (e1[i] != rat(0)) R.count["estimate_nonzero"]++; }
    return "";
}
static string nans(Run& R, int which, const Sys& S, size_t M, int xk) {
    size_t n = S.f.size(); SysFun<rat, RV> F0; F0.s = &S; RV xi(n), e(n); for (size_t i = 0; i < n; i++) xi[i] = X0[xk][i]; method(which, F0, M, rat(0), rat(1), xi, &e); R.case_nontrivial = true;
    for (long k = 0; k < F0.calls; k++) for (size_t c = 0; c < n * n; c++) { SysFun<rat, RV> F; F.s = &S; F.bad_call = k; F.bad_comp = (int)c; RV xf = method(which, F, M, rat(0), rat(1), xi, &e); R.transitions++; for (size_t i = 0; i < n; i++) { R.comparisons++; if (!xf[i].nan()) return vf::fmt("nan in call %ld: xf[%zu] is %g", k, i, xf[i].d()); if (!e[i].nan()) return vf::fmt("nan in call %ld: e[%zu] is %g", k, i, e[i].d()); } }
    return "";
}
// recorded: xf as a function of (xi, ti, tf, c); values and derivatives at other points
static string recorded(Run& R, int which, const Sys& S, size_t M) {
    size_t n = S.f.size(); AV ax(n + 2), ay; for (size_t i = 0; i < n; i++) ax[i] = X0[1][i].d(); ax[n] = 0.25; ax[n + 1] = 1.5; CppAD::Independent(ax); { SysFun<AD1, AV> F; F.s = &S; AV xi(n); for (size_t i = 0; i < n; i++) xi[i] = ax[i]; ay = method(which, F, M, ax[n], ax[n + 1], xi, (AV*)nullptr); } CppAD::ADFun<double> f(ax, ay); f.check_for_nan(which == 0); R.case_nontrivial = true;
    for (int pt = 0; pt < 3; pt++) { rat ti = pt == 1 ? rat(I(-1), I(2)) : rat(I(1), I(4)), tf = pt == 2 ? rat(-1) : rat(2); auto sol = [&](const std::vector<rat>& x0, rat a, rat b) { auto p = solve(S, a, x0); std::vector<rat> v; for (auto& q : p) v.push_back(q.at(b)); return v; }; std::vector<rat> x0(X0[pt].begin(), X0[pt].begin() + n); auto v = sol(x0, ti, tf); DV x(n + 2); for (size_t i = 0; i < n; i++) x[i] = x0[i].d(); x[n] = ti.d(); x[n + 1] = tf.d(); DV y = f.Forward(0, x), J = f.Jacobian(x); bool nf = false; for (size_t i = 0; i < n; i++) nf = nf || !std::isfinite(y[i]); if (nf && which == 1) { R.count["recorded_pivot_zero"]++; continue; }   // documented for LuFactor
        R.count["recorded_compared"]++; for (size_t i = 0; i < n; i++) { double sc = 1 + std::fabs(v[i].d()); R.comparisons++; if (!(std::fabs(y[i] - v[i].d()) <= 1e-11 * sc)) return vf::fmt("recorded x%zu is %.15g, the solution %.15g", i, y[i], v[i].d());
            DV F(n); { SysFun<double, DV> D; D.s = &S; DV xf(n); for (size_t k = 0; k < n; k++) xf[k] = y[k]; D.Ode(tf.d(), xf, F); } double dt = J[i * (n + 2) + n + 1]; if (!(std::fabs(dt - F[i]) <= 1e-9 * (1 + std::fabs(F[i])))) return vf::fmt("derivative of x%zu by tf is %.15g, f is %.15g", i, dt, F[i]);
            // total derivative along the flow at ti is zero
            DV G(n); { SysFun<double, DV> D; D.s = &S; DV xs(n); for (size_t k = 0; k < n; k++) xs[k] = x[k]; D.Ode(ti.d(), xs, G); } double s = J[i * (n + 2) + n], sa = 1 + std::fabs(s); for (size_t k = 0; k < n; k++) { s += J[i * (n + 2) + k] * G[k]; sa += std::fabs(J[i * (n + 2) + k] * G[k]); } if (!(std::fabs(s) <= 1e-9 * sa)) return vf::fmt("derivative of x%zu along the flow at ti is %g", i, s);
            for (size_t k = 0; k < n; k++) if (k == i || S.f[i][0].e.size() > k) { // five point differences are exact for polynomials of degree four in the initial value
                std::vector<rat> q; for (int s2 : {-2, -1, 1, 2}) { auto z = x0; z[k] += rat(s2); q.push_back(sol(z, ti, tf)[i]); } rat dv = (q[0] - q[3]) / rat(12) + (q[2] - q[1]) * rat(I(2), I(3)); double g = J[i * (n + 2) + k]; if (!(std::fabs(g - dv.d()) <= 1e-9 * (1 + std::fabs(dv.d())))) return vf::fmt("derivative of x%zu by xi[%zu] is %.15g, expected %.15g", i, k, g, dv.d()); } } }
    return "";
}
template <class B> static void guard(Run& R, B&& body) { string e; try { e = body(); } catch (overflow&) { R.count["overflow_skipped"]++; } catch (std::exception& x) { AD1::abort_recording(); e = x.what(); } if (e.size()) R.fail(e); }
static void steps(Run& R, bool th) {
    struct TI { rat a, b; }; std::vector<TI> iv = {{rat(0), rat(1)}, {rat(I(-1), I(2)), rat(1)}, {rat(1), rat(-1)}, {rat(0), rat(0)}};
    for (int which : {0, 1}) { std::vector<std::vector<int>> ws = which == 0 ? std::vector<std::vector<int>>{{1, 2, 3, 4, 5}, {1, 1, 2, 3, 5}, {5}, {4, 5}} : std::vector<std::vector<int>>{{1, 2, 3, 4}, {1, 1, 2, 4}, {4}, {3, 4}, {1, 2, 2, 3}}; const char* nm = which == 0 ? "runge45" : "rosen34"; std::vector<Sys> all, some; for (auto& w : ws) systems(w, false, all); systems({1, 2, 3}, true, all); if (th) systems({1, 2, 3, 4}, true, all); systems(which == 0 ? std::vector<int>{1, 2, 3, 5} : std::vector<int>{1, 2, 4}, false, some);
        if (R.family(string(nm) + "_exact")) for (auto& S : all) for (int xk = 0; xk < 3; xk++) for (size_t M = 1; M <= 3; M++) for (auto& t : iv) { if (!R.next([&] { return vf::fmt("%s M %zu from %g to %g, start %d", S.name.c_str(), M, t.a.d(), t.b.d(), xk); })) continue; guard(R, [&] { return one_step(R, which, S, xk, M, t.a, t.b); }); }
        if (R.family(string(nm) + "_nan")) for (auto& S : some) for (size_t M = 1; M <= 3; M++) { if (!R.next([&] { return vf::fmt("%s M %zu", S.name.c_str(), M); })) continue; guard(R, [&] { return nans(R, which, S, M, 1); }); }
        if (R.family(string(nm) + "_recorded")) for (auto& S : all) for (size_t M = 1; M <= 2; M++) { if (!R.next([&] { return vf::fmt("%s M %zu", S.name.c_str(), M); })) continue; guard(R, [&] { return recorded(R, which, S, M); }); } }
}
// ---------------------------------------------------------------- OdeGear
// x' = A (x - p(t)) + p'(t), p a vector of polynomials
template <class S, class V> struct LinFun { int n; std::vector<S> A; std::vector<std::vector<S>> p; std::vector<std::pair<double, int>> log; int bad = -1, calls = 0;
    S P(int i, const S& t) const { S r(0); for (size_t k = p[i].size(); k--;) r = r * t + p[i][k]; return r; } S D(int i, const S& t) const { S r(0); for (size_t k = p[i].size(); k-- > 1;) r = r * t + S((int)k) * p[i][k]; return r; }
    void Ode(const S& t, const V& x, V& f) { log.push_back({todouble(t), 0}); for (int i = 0; i < n; i++) { f[i] = D(i, t); for (int j = 0; j < n; j++) f[i] += A[i * n + j] * (x[j] - P(j, t)); } calls++; }
    void Ode_dep(const S& t, const V&, V& f) { log.push_back({todouble(t), 1}); for (int i = 0; i < n * n; i++) f[i] = A[i]; } };
// weights of the derivative at T[k] of the polynomial through values at T[0..m]
template <class S> std::vector<S> dweights(const std::vector<S>& T, int m, int k) { std::vector<S> w(m + 1, S(0)); for (int j = 0; j <= m; j++) { S s(0); for (int l = 0; l <= m; l++) if (l != j) { S t = S(1) / (T[j] - T[l]); for (int r = 0; r <= m; r++) if (r != j && r != l) t *= (T[k] - T[r]) / (T[j] - T[r]); s += t; } w[j] = s; } return w; }
template <class S> bool gauss(std::vector<S> A, std::vector<S>& b, int n) { for (int i = 0; i < n; i++) { int q = -1; for (int r = i; r < n; r++) if (!(A[r * n + i] == S(0)) && (q < 0 || todouble(A[r * n + i]) * todouble(A[r * n + i]) > todouble(A[q * n + i]) * todouble(A[q * n + i]))) q = r; if (q < 0) return false; for (int c = 0; c < n; c++) std::swap(A[i * n + c], A[q * n + c]); std::swap(b[i], b[q]); for (int r = 0; r < n; r++) if (r != i) { S f = A[r * n + i] / A[i * n + i]; for (int c = 0; c < n; c++) A[r * n + c] -= f * A[i * n + c]; b[r] -= f * b[i]; } } for (int i = 0; i < n; i++) b[i] /= A[i * n + i]; return true; }
// the definition: explicit value x0 and implicit value x at T[m]; false when singular
template <class S, class F> bool gear_ref(F& f, int m, int n, const std::vector<S>& T, const std::vector<S>& X, std::vector<S>& x, std::vector<S>& x0) {
    auto b = dweights(T, m, m - 1), a = dweights(T, m, m); x0.assign(n, S(0)); x.assign(n, S(0)); std::vector<S> M(n * n);
    for (int i = 0; i < n; i++) { S d = f.D(i, T[m - 1]); for (int j = 0; j < n; j++) d += f.A[i * n + j] * (X[(m - 1) * n + j] - f.P(j, T[m - 1])); for (int j = 0; j < m; j++) d -= b[j] * X[j * n + i]; x0[i] = d / b[m]; S r = f.D(i, T[m]); for (int j = 0; j < n; j++) { r -= f.A[i * n + j] * f.P(j, T[m]); M[i * n + j] = (i == j ? a[m] : S(0)) - f.A[i * n + j]; } for (int j = 0; j < m; j++) r -= a[j] * X[j * n + i]; x[i] = r; }
    return gauss(M, x, n);
}
static const std::vector<std::vector<int>> MATS1 = {{0}, {-1}, {2}, {-7}}, MATS2 = {{0, 0, 0, 0}, {0, 1, -1, 0}, {-3, 1, 2, -1}, {1, 0, 5, -2}, {0, 0, 4, 0}}, MATS3 = {{0, 1, 0, 0, 0, 1, -1, -1, -1}, {-2, 0, 1, 1, 1, 0, 0, 3, -1}};
static rat pcoef(int i, int k) { static const int c[4][8] = {{1, -2, 3, 1, -1, 2, 1, -1}, {-1, 1, 1, -2, 1, -1, 2, 1}, {2, 0, -1, 1, 2, 1, -1, 1}, {1, 1, 1, 1, 1, 1, 1, 1}}; return rat(c[i][k]); }
static string gear(Run& R, int m, int deg, const std::vector<int>& A, const std::vector<int>& gaps, int extra) {
    int n = A.size() == 1 ? 1 : A.size() == 4 ? 2 : 3; LinFun<rat, RV> F; F.n = n; for (int a : A) F.A.push_back(rat(a)); for (int i = 0; i < n; i++) { std::vector<rat> c; for (int k = 0; k <= deg; k++) c.push_back(pcoef(i, k)); F.p.push_back(c); }
    std::vector<rat> T{rat(I(-1), I(2))}; for (int j = 0; j < m; j++) T.push_back(T.back() + rat(I(gaps[j]), I(4))); RV Tv(m + 1 + extra), X((m + 1 + extra) * n), e(n); for (int j = 0; j <= m; j++) Tv[j] = T[j]; for (int j = m + 1; j < m + 1 + extra; j++) Tv[j] = rat(-9); for (size_t i = 0; i < X.size(); i++) X[i] = rat(55); std::vector<rat> Xs((m + 1) * n, rat(0)); for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) X[j * n + i] = Xs[j * n + i] = F.P(i, T[j]);
    std::vector<rat> x, x0; if (!gear_ref(F, m, n, T, Xs, x, x0)) { R.count["singular"]++; return ""; } R.case_nontrivial = true; CppAD::OdeGear(F, (size_t)m, (size_t)n, Tv, X, e); R.outcome(size_t(X[m * n].p));
    for (int i = 0; i < n; i++) { R.comparisons += 2; if (deg <= m && (x[i] != F.P(i, T[m]) || x0[i] != x[i])) return "the definition is not exact for a polynomial of its degree (error in this check)"; if (X[m * n + i] != x[i]) return vf::fmt("X[m] component %d is %.15g, the definition gives %.15g", i, X[m * n + i].d(), x[i].d()); if (e[i] != fabs(x[i] - x0[i])) return vf::fmt("e[%d] is %.15g, expected %.15g", i, e[i].d(), fabs(x[i] - x0[i]).d()); }
    for (int j = 0; j <= m; j++) if (Tv[j] != T[j]) return "T changed"; for (int j = 0; j < m * n; j++) if (X[j] != Xs[j]) return "X of an earlier time changed"; for (size_t i = (m + 1) * n; i < X.size(); i++) if (X[i] != rat(55)) return "X after m changed";
    for (auto& l : F.log) { bool in = false; for (auto& t : T) in = in || t.d() == l.first; if (!in) return "function called at a time that is not in T"; }
    return "";
}
// nonlinear: x' = - x^2 + t, a small step; the implicit equation is solved by Newton iterations
template <class S, class V> struct NonFun { int calls = 0; void Ode(const S& t, const V& x, V& f) { calls++; for (size_t i = 0; i < x.size(); i++) f[i] = t - x[i] * x[(i + 1) % x.size()]; } void Ode_dep(const S&, const V& x, V& f) { size_t n = x.size(); for (size_t i = 0; i < n * n; i++) f[i] = S(0); for (size_t i = 0; i < n; i++) { f[i * n + i] -= x[(i + 1) % n]; f[i * n + (i + 1) % n] -= x[i]; } } };
static string gear_newton(Run& R, int m, int n, const std::vector<int>& gaps, double h, int xk) {
    std::vector<double> T{0.5}; for (int j = 0; j < m; j++) T.push_back(T.back() + gaps[j] * h); DV Tv(m + 1), X((m + 1) * n), e(n); for (int j = 0; j <= m; j++) Tv[j] = T[j]; for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) X[j * n + i] = X0[xk + 1][i].d() + (j ? 0.3 * (T[j] - T[0]) : 0); NonFun<double, DV> F; CppAD::OdeGear(F, (size_t)m, (size_t)n, Tv, X, e); auto a = dweights(T, m, m); DV x(n), f(n); for (int i = 0; i < n; i++) x[i] = X[m * n + i]; F.Ode(T[m], x, f); R.case_nontrivial = true;
    for (int i = 0; i < n; i++) { double s = 0, sa = 0; for (int j = 0; j <= m; j++) { s += a[j] * X[j * n + i]; sa += std::fabs(a[j] * X[j * n + i]); } R.comparisons++; if (!(std::fabs(s - f[i]) <= 1e-7)) return vf::fmt("component %d: derivative of the polynomial at T[m] is %.12g, f is %.12g", i, s, f[i]); if (!(e[i] >= 0)) return "e is negative or nan"; }
    return "";
}
static void gears(Run& R, bool th) {
    std::vector<std::vector<int>> mats = MATS1; for (auto& a : MATS2) mats.push_back(a); for (auto& a : MATS3) mats.push_back(a); int mm = th ? 5 : 4;
    auto all = [&](int m, auto&& fn) { int g[] = {1, 2, 4, 3}, ng = m <= 3 ? 4 : m == 4 ? 3 : 2; long N = 1; for (int i = 0; i < m; i++) N *= ng; for (long k = 0; k < N; k++) { std::vector<int> v; long t = k; for (int i = 0; i < m; i++) { v.push_back(g[t % ng]); t /= ng; } fn(v); } };
    if (R.family("gear")) for (int m = 1; m <= mm; m++) for (auto& A : mats) for (int deg = 0; deg <= m + 1; deg++) all(m, [&](const std::vector<int>& g) { for (int x = 0; x < 2; x++) { if (!R.next([&] { string s = vf::fmt("m %d degree %d matrix", m, deg); for (int a : A) s += vf::fmt(" %d", a); s += " gaps"; for (int a : g) s += vf::fmt(" %d", a); return s + (x ? " longer vectors" : ""); })) continue; guard(R, [&] { return gear(R, m, deg, A, g, x); }); } });
    if (R.family("gear_newton")) for (int m = 1; m <= 3; m++) for (int n = 1; n <= 3; n++) for (double h : {1e-5, 1e-4, 1e-3}) for (int xk = 0; xk < 2; xk++) all(m, [&](const std::vector<int>& g) { if (!R.next([&] { return vf::fmt("m %d n %d h %g start %d", m, n, h, xk); })) return; guard(R, [&] { return gear_newton(R, m, n, g, h, xk); }); });
}
// ---------------------------------------------------------------- OdeErrControl with a method whose error estimates are enumerated
struct Cfg { double ti, tf, smin, smax, scur, erel; int n; size_t m; double eabs; };
struct Call { double ta, tb; DV xa, xb, eb; };
enum { ZERO, TINY, OKAY, BAD, WORSE, NANX, NANE, NRESP };
struct Mock { const Cfg* c; std::vector<int> resp; std::vector<Call> calls; size_t order() { return c->m; }
    void step(const double& ta, const double& tb, const DV& xa, DV& xb, DV& eb) { if (calls.size() > 100000) throw std::runtime_error("more than 100000 calls of the method"); size_t k = calls.size(); int r = k < resp.size() ? resp[k] : resp.empty() ? ZERO : resp.back() == BAD || resp.back() == WORSE ? (int)OKAY : resp.back() == NANX || resp.back() == NANE ? (int)ZERO : resp.back(); int n = c->n;
        for (int i = 0; i < n; i++) { xb[i] = xa[i] + ((k + i) % 3 == 0 ? 1 : (k + i) % 3 == 1 ? -2.5 : 0.25) * (i + 1); double bound = (c->eabs + c->erel * std::fabs(xb[i])) * (tb - ta) / (c->tf - c->ti); double q = r == ZERO ? 0 : r == TINY ? 1e-6 : r == OKAY ? 0.7 : r == BAD ? 3 : r == WORSE ? 1e5 : 0.5; bool mine = r < BAD || int(k) % n == i; eb[i] = mine ? q * bound : 0; if (r == NANX && mine) xb[i] = std::nan(""); if (r == NANE && mine) eb[i] = std::nan(""); }
        calls.push_back(Call{ta, tb, xa, xb, eb}); } };
static string errcontrol(Run& R, const Cfg& c, const std::vector<int>& resp, int form) {
    Mock M; M.c = &c; M.resp = resp; DV xi(c.n), eabs(c.n), ef(c.n), ma(c.n), xf; for (int i = 0; i < c.n; i++) { xi[i] = i ? -3 : 0.5; eabs[i] = c.eabs; ef[i] = 88; ma[i] = 99; } size_t ns = 12345; double scur = c.scur;
    if (form == 0) xf = CppAD::OdeErrControl(M, c.ti, c.tf, xi, c.smin, c.smax, scur, eabs, c.erel, ef, ma, ns); else if (form == 1) xf = CppAD::OdeErrControl(M, c.ti, c.tf, xi, c.smin, c.smax, scur, eabs, c.erel, ef, ma); else xf = CppAD::OdeErrControl(M, c.ti, c.tf, xi, c.smin, c.smax, scur, eabs, c.erel, ef);
    auto& K = M.calls; size_t N = K.size(); R.outcome(N); R.transitions += N; if (N == 0) return "method not called"; if (form == 0 && ns != N) return vf::fmt("nstep is %zu, %zu calls", ns, N); R.case_nontrivial = N > 1;
    double ta = c.ti; DV x = xi; std::vector<double> es(c.n, 0.0), mx(c.n); for (int i = 0; i < c.n; i++) mx[i] = std::fabs(xi[i]); const double eps = 1e-12; bool whole = c.tf - c.ti <= c.smin;
    for (size_t k = 0; k < N; k++) { auto& a = K[k]; double s = a.tb - a.ta; R.comparisons++;
        if (a.ta != ta) return vf::fmt("call %zu starts at %.17g, the accepted time is %.17g", k, a.ta, ta); for (int i = 0; i < c.n; i++) if (a.xa[i] != x[i]) return vf::fmt("call %zu does not start at the accepted value", k); if (!(a.tb <= c.tf) || !(s > 0)) return vf::fmt("call %zu from %g to %g", k, a.ta, a.tb);
        if (s > c.smax * (1 + eps)) return vf::fmt("call %zu has step size %.17g greater than smax", k, s); if (whole && (a.ta != c.ti || a.tb != c.tf)) return "tf - ti <= smin, but not one step"; bool lasts = true; for (size_t q = k + 1; q < N; q++) lasts = lasts && K[q].tb == c.tf; if (s < c.smin * (1 - eps) && !whole && !lasts) return vf::fmt("call %zu of %zu has step size %.17g less than smin", k, N, s); if (s < c.smin / 2 * (1 - eps) && !whole) return vf::fmt("call %zu has step size less than smin / 2", k);
        bool nan = false, meet = true, near = false; for (int i = 0; i < c.n; i++) { nan = nan || std::isnan(a.xb[i]) || std::isnan(a.eb[i]); double bd = (c.eabs + c.erel * std::fabs(a.xb[i])) * s / (c.tf - c.ti); if (!(a.eb[i] <= bd)) meet = false; if (std::fabs(a.eb[i] - bd) <= 1e-9 * bd && a.eb[i] > 0) near = true; } (void)near;
        bool last = k + 1 == N, acc = last ? !nan && !std::isnan(xf[0]) : K[k + 1].ta == a.tb; 
        if (nan && acc) return vf::fmt("call %zu returned nan and was accepted", k); if (nan && last) { if (s > c.smin * (1 + eps) && !whole && a.tb != c.tf) return "nan returned, but the last step was not of the minimum size"; for (int i = 0; i < c.n; i++) if (!std::isnan(xf[i]) || !std::isnan(ef[i])) return "nan at the minimum step, but xf or ef is not nan"; R.count["nan_end"]++; return ""; }
        if (!acc && last) return "returned nan although the last call did not"; if (acc && !meet && s > 1.5 * c.smin * (1 + eps)) return vf::fmt("call %zu does not satisfy the error criteria, step size %g, and was accepted", k, s); if (!acc && !nan && meet) return vf::fmt("call %zu satisfies the error criteria and was rejected", k); if (!acc && !nan && s <= c.smin) return "a step of minimum size was rejected"; if (!acc && !last && !(K[k + 1].tb - K[k + 1].ta < s) && s > 1.5 * c.smin * (1 + eps)) return vf::fmt("call %zu was rejected, the next step is not smaller", k);
        if (!acc && !last && nan && s > 1.5 * c.smin * (1 + eps) && !(K[k+1].tb - K[k+1].ta < s)) return "no smaller step after nan";
        if (acc) { ta = a.tb; x = a.xb; for (int i = 0; i < c.n; i++) { es[i] += a.eb[i]; mx[i] = std::max(mx[i], std::fabs(x[i])); } } }
    if (ta != c.tf) return "returned before tf"; for (int i = 0; i < c.n; i++) { R.comparisons += 3; if (xf[i] != x[i]) return "xf is not the last accepted value"; if (!(std::fabs(ef[i] - es[i]) <= 1e-13 * es[i])) return vf::fmt("ef[%d] is %g, the accepted steps sum to %g", i, ef[i], es[i]); if (form < 2 && ma[i] != mx[i]) return vf::fmt("maxabs[%d] is %g, expected %g", i, ma[i], mx[i]); }
    if (!(scur > 0) && resp.size() && resp[0] == ZERO && c.eabs > 0) return "scur is not positive";
    bool zero = true; for (int r : resp) zero = zero && r == ZERO; if (zero) { double lim = std::ceil((c.tf - c.ti) / c.smax) + 3; for (double s = std::max(c.scur, c.smin); s < c.smax; s *= 2) lim++; if (N > lim) return vf::fmt("%zu calls without any error, expected at most %g", N, lim); }
    return "";
}
static void errcontrols(Run& R, bool th) {
    std::vector<Cfg> cs; for (double len : {0.3, 1.0, 1.4, 2.7, 6.0}) for (double smin : {0.01, 0.25, 0.8}) for (double smax : {0.8, 1.0, 2.0}) for (double scur : {0.05, 0.5, 1.0, 3.0}) for (int n : {1, 2}) for (size_t m : {size_t(2), size_t(4)}) { if (smin > smax) continue; int k = (int)cs.size(); cs.push_back(Cfg{k % 2 ? 0.0 : -1.5, (k % 2 ? 0.0 : -1.5) + len, smin, smax, scur, k % 3 == 0 ? 0.0 : 1e-3, n, m, k % 3 == 1 ? 0.0 : 1e-2}); }
    int dep = th ? 6 : 4; if (R.family("err_control")) for (size_t ci = 0; ci < cs.size(); ci++) for (int len = 1; len <= dep; len++) { int base = th && len < 6 ? (int)NRESP : len <= 3 ? (int)NRESP : 5; static const int alpha5[] = {ZERO, OKAY, BAD, WORSE, NANX}; long N = 1; for (int i = 0; i < len; i++) N *= base; if (th && len >= 5 && ci % 6) continue; if (!th && len == 4 && ci % 2) continue;
        for (long k = 0; k < N; k++) { auto get = [&] { std::vector<int> r; long t = k; for (int i = 0; i < len; i++) { int d = int(t % base); r.push_back(base == 5 ? alpha5[d] : d); t /= base; } return r; }; const Cfg& c = cs[ci]; if (!R.next([&] { string s = vf::fmt("ti %g tf %g smin %g smax %g scur %g erel %g eabs %g n %d order %zu, responses", c.ti, c.tf, c.smin, c.smax, c.scur, c.erel, c.eabs, c.n, c.m); for (int r : get()) s += vf::fmt(" %d", r); return s; })) continue; guard(R, [&] { return errcontrol(R, c, get(), int(k % 3)); }); } }
    // e = K s^m: the steps adapt to the largest one that satisfies the criteria
    if (R.family("err_control_rate")) for (double K : {1e-6, 1e-3, 1.0, 1e3}) for (size_t m : {size_t(2), size_t(3), size_t(5)}) for (double scur : {1e-3, 0.1, 1.0}) for (double smax : {0.5, 1.0}) { if (std::pow(1e-3 / 5 / K, 1.0 / double(m - 1)) < 1e-5) continue; if (!R.next([&] { return vf::fmt("K %g order %zu scur %g smax %g", K, m, scur, smax); })) continue; guard(R, [&]() -> string {
        struct Rate { double K; size_t m; std::vector<double> s; size_t order() { return m; } void step(const double& a, const double& b, const DV& xa, DV& xb, DV& e) { xb = xa; s.push_back(b - a); e[0] = K * std::pow(b - a, (double)m); if (s.size() > 1000000) throw std::runtime_error("too many steps"); } } F{K, m, {}};
        double T = 5, tol = 1e-3, sc = scur, opt = std::min(smax, std::pow(tol / T / K, 1.0 / double(m - 1))), smin = 1e-9; if (opt < 1e-5) opt = 1e-5; DV xi(1, 2.0), ea(1, tol), ef(1), ma(1); size_t ns; CppAD::OdeErrControl(F, 0.0, T, xi, smin, smax, sc, ea, 0.0, ef, ma, ns); R.case_nontrivial = true; R.comparisons += 2; R.outcome(ns); if (!(ef[0] <= tol * (1 + 1e-9))) return vf::fmt("total error estimate %g greater than the tolerance", ef[0]); double ratio = opt / scur, lim = T / opt * 4 + 10 + (ratio > 1 ? std::log(ratio) / std::log(2.0) : std::log(1 / ratio) / std::log(2.0)); if (std::pow(tol / T / K, 1.0 / double(m - 1)) >= 1e-5 && double(ns) > lim) return vf::fmt("%zu steps, expected at most %g", ns, lim); return ""; }); }
}
// ---------------------------------------------------------------- OdeGearControl
static string gearcontrol(Run& R, int M, int deg, const std::vector<int>& A, double len, double smin, double smax, double sini0, double eabs0, double erel) {
    int n = A.size() == 1 ? 1 : 2; LinFun<double, DV> F; F.n = n; for (int a : A) F.A.push_back(a); for (int i = 0; i < n; i++) { std::vector<double> c; for (int k = 0; k <= deg; k++) c.push_back(pcoef(i, k).d()); F.p.push_back(c); } double ti = -0.5, tf = ti + len, sini = sini0; DV xi(n), eabs(n), ef(n), ma(n), xf; for (int i = 0; i < n; i++) { xi[i] = F.P(i, ti); eabs[i] = eabs0; ef[i] = 88; ma[i] = 77; } size_t ns = 999; xf = CppAD::OdeGearControl(F, (size_t)M, ti, tf, xi, smin, smax, sini, eabs, erel, ef, ma, ns); auto log = F.log;
    // the steps: a call of Ode_dep at tb; the accepted time is that of the first call of Ode after the previous step
    std::vector<std::pair<double, double>> st; for (size_t i = 0; i < log.size(); i++) if (log[i].second == 1) { if (i == 0) return "Ode_dep called before Ode"; st.push_back({log[i - 1].first, log[i].first}); } if (ns != st.size()) return vf::fmt("nstep is %zu, %zu steps", ns, st.size()); if (st.empty()) return "no step"; R.outcome(ns); R.transitions += ns; R.case_nontrivial = true; const double eps = 1e-9;
    std::vector<double> T{ti}, es(n, 0.0), mx(n); std::vector<std::vector<double>> X{{}}; for (int i = 0; i < n; i++) { X[0].push_back(xi[i]); mx[i] = std::fabs(xi[i]); }
    for (size_t k = 0; k < st.size(); k++) { double tb = st[k].second, s = tb - T.back(); if (st[k].first != T.back()) return vf::fmt("step %zu starts at %.17g, the accepted time is %.17g", k, st[k].first, T.back()); if (!(tb <= tf) || !(s > 0)) return vf::fmt("step %zu ends at %g", k, tb); int m = std::min((int)T.size(), M); bool full = (int)T.size() >= M; R.comparisons++;
        if (s > smax * (1 + eps)) return vf::fmt("step %zu has size %.17g greater than smax", k, s); double low = full ? smin : sini0; if (k + 2 < st.size() && s < low * (1 - eps)) return vf::fmt("step %zu of %zu has size %.17g less than the minimum", k, st.size(), s); if (s < std::min(smin, sini0) / 2 * (1 - eps) && len >= std::min(smin, sini0)) return vf::fmt("step %zu has size %g less than half of the minimum", k, s);
        std::vector<double> t(T.end() - m, T.end()), x; t.push_back(tb); for (size_t j = X.size() - m; j < X.size(); j++) x.insert(x.end(), X[j].begin(), X[j].end()); std::vector<double> x1, x0; if (!gear_ref(F, m, n, t, x, x1, x0)) return ""; bool meet = true; for (int i = 0; i < n; i++) { double a = eabs0 + erel * std::fabs(x1[i]), e = std::fabs(x1[i] - x0[i]); if (m > 1) { if (!(e <= a * s / len * (1 + 1e-6) + 1e-13)) meet = false; } else if (!(e <= a * (1 + 1e-6) + 1e-13)) meet = false; }
        bool last = k + 1 == st.size(), acc = last || st[k + 1].first == tb; if (acc && !meet && s > 1.5 * low * (1 + eps)) return vf::fmt("step %zu (order %d, size %g) does not satisfy the error criteria and was accepted", k, m, s); if (!acc && s <= low * (1 - eps)) return "a step of minimum size was rejected"; if (!acc && !last && !(st[k + 1].second - st[k + 1].first < s)) return vf::fmt("step %zu rejected, the next is not smaller", k);
        if (acc) { T.push_back(tb); X.push_back(x1); for (int i = 0; i < n; i++) { es[i] += std::fabs(x1[i] - x0[i]); mx[i] = std::max(mx[i], std::fabs(x1[i])); } } else R.count["gear_rejected"]++; }
    if (deg <= 1 && eabs0 > 0) { double lim = M + std::ceil(len / smax) + std::log2(smax / smin) + 5; if (double(ns) > lim) return vf::fmt("%zu steps although the error estimates are zero, expected at most %g", ns, lim); }
    if (T.back() != tf) return "returned before tf"; for (int i = 0; i < n; i++) { double sc = 1 + mx[i]; R.comparisons += 3; if (!(std::fabs(xf[i] - X.back()[i]) <= 1e-9 * sc)) return vf::fmt("xf[%d] is %.12g, the multi-step method gives %.12g", i, xf[i], X.back()[i]); if (!(std::fabs(ef[i] - es[i]) <= 1e-7 * es[i] + 1e-7 * sc)) return vf::fmt("ef[%d] is %.12g, the sum over the accepted steps %.12g", i, ef[i], es[i]); if (!(std::fabs(ma[i] - mx[i]) <= 1e-9 * sc)) return vf::fmt("maxabs[%d] is %.12g, expected %.12g", i, ma[i], mx[i]); if (deg <= 1 && !(std::fabs(xf[i] - F.P(i, tf)) <= 1e-9 * sc)) return "not exact for a linear solution"; }
    return "";
}
static void gearcontrols(Run& R, bool th) {
    std::vector<std::vector<int>> mats = {{0}, {-1}, {-30}, {0, 1, -1, 0}, {-3, 1, 2, -1}}; if (!R.family("gear_control")) return; std::vector<double> sinis = {1e-3, 0.02, 0.2}; if (th) sinis.push_back(0.005);
    for (int M = 1; M <= (th ? 5 : 4); M++) for (int deg = 0; deg <= 6; deg += th ? 1 : 1 + (deg >= 2)) for (auto& A : mats) for (double len : {0.1, 0.6, 1.3, 2.0}) for (double smin : {1e-3, 0.05}) for (double smax : {0.2, 0.7, 1.0}) for (double sini : sinis) for (double tol : {1e-1, 1e-3}) for (int rel = 0; rel < 2; rel++) { double ea = rel ? 0.0 : tol, er = rel ? tol : 0.0; if (tol == 1e-3 && rel && M == 1) continue;
        if (!R.next([&] { return vf::fmt("M %d degree %d matrix %d.. length %g smin %g smax %g sini %g eabs %g erel %g", M, deg, A[0], len, smin, smax, sini, ea, er); })) continue; guard(R, [&] { return gearcontrol(R, M, deg, A, len, smin, smax, sini, ea, er); }); }
}
// ---------------------------------------------------------------- quadrature
static rat integral(const rat& a, const rat& b, int k) { return (powi(b, k + 1) - powi(a, k + 1)) / rat(k + 1); }
template <class S> struct MonoFun { int k; S c; std::vector<double> at; S operator()(const S& x) { at.push_back(todouble(x)); S r(c); for (int i = 0; i < k; i++) r *= x; return r; } };
static string romberg(Run& R, const rat& a, const rat& b, size_t n, size_t p, int k) {
    MonoFun<rat> F{k, rat(3), {}}; rat e(77), r = CppAD::RombergOne(F, a, b, n, p, e), ex = rat(3) * integral(a, b, k); size_t N = (size_t(1) << (n - 1)) + 1; R.comparisons += 3; R.outcome(size_t(r.p)); R.case_nontrivial = true; int pp = (int)std::min(p, n - 1);
    if (k <= 2 * pp + 1 && r != ex) return vf::fmt("integral is %.15g, exact %.15g", r.d(), ex.d()); if (e < rat(0)) return "e is negative"; if (k <= 2 * std::min(pp, (int)n - 2) + 1 && e != rat(0)) return vf::fmt("e is %g where the estimates are exact", e.d()); if ((k == 2 * pp + 2 || k == 2 * pp + 3) && pp <= (int)n - 2 && fabs(r - ex) > e) return vf::fmt("error %g greater than the estimate %g", fabs(r - ex).d(), e.d()); if ((k == 2 * pp + 2 || k == 2 * pp + 3) && pp <= (int)n - 2 && e > fabs(r - ex) * powi(rat(4), pp + 1)) return vf::fmt("error %g, the estimate is %g", fabs(r - ex).d(), e.d()); if (k > 2 * pp + 1 && k % 2 == 0 && a != b && r == ex && pp <= (int)n - 2) R.count["accidentally_exact"]++;
    if (F.at.size() != N) return vf::fmt("%zu evaluations, expected %zu", F.at.size(), N); std::sort(F.at.begin(), F.at.end()); double lo = std::min(a.d(), b.d()), hi = std::max(a.d(), b.d()); for (size_t i = 0; i < N; i++) if (std::fabs(F.at[i] - (lo + (hi - lo) * double(i) / double(N - 1))) > 1e-12) return vf::fmt("not evaluated at the point %zu of the grid", i);
    return "";
}
template <class S, class V, size_t m> struct MulFun { std::vector<int> k; size_t calls = 0; S operator()(const V& x) { calls++; S r(2); for (size_t i = 0; i < m; i++) for (int j = 0; j < k[i]; j++) r *= x[i]; return r; } };
template <size_t m> static string rombergmul(Run& R, const std::vector<rat>& a, const std::vector<rat>& b, const std::vector<int>& n, const std::vector<int>& p, const std::vector<int>& k) {
    typedef CppAD::vector<size_t> SV; MulFun<rat, RV, m> F; F.k = k; RV av(m), bv(m); SV nv(m), pv(m); rat ex(2), e(55); size_t N = 1; bool exact = true, zero = true; for (size_t i = 0; i < m; i++) { av[i] = a[i]; bv[i] = b[i]; nv[i] = n[i]; pv[i] = p[i]; ex *= integral(a[i], b[i], k[i]); N *= (size_t(1) << (n[i] - 1)) + 1; int pp = std::min(p[i], n[i] - 1); exact = exact && k[i] <= 2 * pp + 1; zero = zero && k[i] <= 2 * std::min(pp, n[i] - 2) + 1; } CppAD::RombergMul<MulFun<rat, RV, m>, SV, RV, m> I; rat r = I(F, av, bv, nv, pv, e); R.comparisons += 3; R.case_nontrivial = true; R.outcome(size_t(r.p));
    if (exact && r != ex) return vf::fmt("integral is %.15g, exact %.15g", r.d(), ex.d()); if (zero && e != rat(0)) return vf::fmt("e is %g where the estimates are exact", e.d()); if (e < rat(0)) return "e is negative"; if (F.calls != N) return vf::fmt("%zu evaluations, expected %zu", F.calls, N);
    // one variable of the first inexact degree, the others constant: the estimate is between the error and 4^(p+1) times it
    for (size_t i = 0; i < m; i++) { bool one = k[i] == 2 * p[i] + 2 && p[i] <= n[i] - 2; for (size_t j = 0; j < m; j++) one = one && (j == i || k[j] == 0); if (one) { rat err = fabs(r - ex); R.comparisons++; R.count["mul_estimates"]++; if (err > e || e > err * powi(rat(4), p[i] + 1)) return vf::fmt("error %g, the estimate is %g", err.d(), e.d()); } }
    return "";
}
template <size_t m> static string mul_ad(Run& R, const std::vector<int>& n, const std::vector<int>& p, const std::vector<int>& k) {
    typedef CppAD::vector<size_t> SV; AV ax(2 * m); for (size_t i = 0; i < 2 * m; i++) ax[i] = double(i % m) * 0.25 + (i >= m ? 1.5 : -0.5); CppAD::Independent(ax); AV a(m), b(m), ay(1); SV nv(m), pv(m); for (size_t i = 0; i < m; i++) { a[i] = ax[i]; b[i] = ax[m + i]; nv[i] = n[i]; pv[i] = p[i]; } MulFun<AD1, AV, m> F; F.k = k; CppAD::RombergMul<MulFun<AD1, AV, m>, SV, AV, m> I; AD1 e; ay[0] = I(F, a, b, nv, pv, e); CppAD::ADFun<double> f; f.Dependent(ax, ay); R.case_nontrivial = true;
    DV x(2 * m); std::vector<double> lo, hi; for (size_t i = 0; i < m; i++) { x[i] = 0.25 * double(i) - 1; x[m + i] = 1 + 0.5 * double(i); } DV y = f.Forward(0, x), J = f.Jacobian(x); double v = 2; auto in = [&](size_t i) { return (std::pow(x[m + i], k[i] + 1) - std::pow(x[i], k[i] + 1)) / (k[i] + 1); }; for (size_t i = 0; i < m; i++) v *= in(i); R.comparisons += 1 + 2 * m; if (!(std::fabs(y[0] - v) <= 1e-12 * (1 + std::fabs(v)))) return vf::fmt("recorded integral %.15g, exact %.15g", y[0], v);
    for (size_t i = 0; i < 2 * m; i++) { double g = 2; for (size_t j = 0; j < m; j++) g *= j == i % m ? (i < m ? -1 : 1) * std::pow(x[i], k[j]) : in(j); if (!(std::fabs(J[i] - g) <= 1e-11 * (1 + std::fabs(g)))) return vf::fmt("derivative by limit %zu is %.15g, exact %.15g", i, J[i], g); }
    return "";
}
static string one_ad(Run& R, size_t n, size_t p, int k) { AV ax(3), ay(1); ax[0] = 0.5; ax[1] = 2; ax[2] = 3; CppAD::Independent(ax); MonoFun<AD1> F{k, ax[2], {}}; AD1 e; ay[0] = CppAD::RombergOne(F, ax[0], ax[1], n, p, e); CppAD::ADFun<double> f; f.Dependent(ax, ay); R.case_nontrivial = true; DV x(3); x[0] = -1; x[1] = 1.5; x[2] = 2; DV y = f.Forward(0, x), J = f.Jacobian(x); double in = (std::pow(1.5, k + 1) - std::pow(-1.0, k + 1)) / (k + 1), g[3] = {-2 * std::pow(-1.0, k), 2 * std::pow(1.5, k), in}; R.comparisons += 4; if (!(std::fabs(y[0] - 2 * in) < 1e-12 * (1 + std::fabs(in)))) return "recorded integral"; for (int i = 0; i < 3; i++) if (!(std::fabs(J[i] - g[i]) < 1e-11 * (1 + std::fabs(g[i])))) return vf::fmt("derivative %d is %.15g, exact %.15g", i, J[i], g[i]); return ""; }
static void rombergs(Run& R, bool th) {
    std::vector<std::pair<rat, rat>> iv = {{rat(0), rat(1)}, {rat(-1), rat(1)}, {rat(I(1), I(2)), rat(2)}, {rat(2), rat(-1)}, {rat(1), rat(1)}}; size_t nn = th ? 7 : 6;
    if (R.family("romberg_one")) for (size_t n = 2; n <= nn; n++) for (size_t p = 0; p <= n; p++) for (auto& t : iv) for (int k = 0; k <= 2 * (int)p + 3; k++) { if (!R.next([&] { return vf::fmt("x^%d from %g to %g n %zu p %zu", k, t.first.d(), t.second.d(), n, p); })) continue; guard(R, [&] { return romberg(R, t.first, t.second, n, p, k); }); }
    if (R.family("romberg_one_recorded")) for (size_t n = 2; n <= 5; n++) for (size_t p = 0; p <= n; p++) for (int k = 0; k <= 2 * (int)std::min(p, n - 1) + 1; k++) { if (!R.next([&] { return vf::fmt("x^%d n %zu p %zu", k, n, p); })) continue; guard(R, [&] { return one_ad(R, n, p, k); }); }
    auto each = [&](int m, bool ad, auto&& fn) { std::vector<std::pair<int, int>> np = {{2, 0}, {2, 1}, {3, 1}, {3, 2}, {3, 3}, {4, 2}}; if (m == 3) np = {{2, 0}, {2, 1}, {3, 1}, {3, 2}}; long N = 1; for (int i = 0; i < m; i++) N *= np.size(); for (long c = 0; c < N; c++) { std::vector<int> n, p, mk; long t = c; for (int i = 0; i < m; i++) { auto q = np[t % np.size()]; n.push_back(q.first); p.push_back(q.second); t /= np.size(); } std::vector<std::vector<int>> ks(1); for (int i = 0; i < m; i++) { int top = 2 * std::min(p[i], n[i] - 1) + 1; std::vector<std::vector<int>> nk; for (auto& v : ks) for (int k = 0; k <= top + (ad ? 0 : 1); k++) { if (m == 3 && !th && k != 0 && k < top - 1) continue; auto w = v; w.push_back(k); nk.push_back(w); } ks = nk; } for (auto& k : ks) fn(n, p, k); } };
    auto desc = [](const std::vector<int>& n, const std::vector<int>& p, const std::vector<int>& k, int t) { string s; for (size_t i = 0; i < n.size(); i++) s += vf::fmt("x%zu^%d n %d p %d; ", i, k[i], n[i], p[i]); return s + vf::fmt("limits %d", t); };
    auto lim = [&](int m, int t, std::vector<rat>& a, std::vector<rat>& b) { for (int i = 0; i < m; i++) { auto& q = iv[(t + i) % 4]; a.push_back(q.first); b.push_back(q.second); } };
    auto run = [&](auto mc, bool ad) { constexpr size_t m = decltype(mc)::value; if (!R.family(vf::fmt("romberg_mul%zu%s", m, ad ? "_recorded" : ""))) return; each((int)m, ad, [&](const std::vector<int>& n, const std::vector<int>& p, const std::vector<int>& k) { for (int t = 0; t < (ad ? 1 : m == 3 && !th ? 2 : 4); t++) { if (!R.next([&] { return desc(n, p, k, t); })) continue; guard(R, [&] { if (ad) return mul_ad<m>(R, n, p, k); std::vector<rat> a, b; lim((int)m, t, a, b); return rombergmul<m>(R, a, b, n, p, k); }); } }); };
    run(std::integral_constant<size_t, 1>(), false); run(std::integral_constant<size_t, 2>(), false); run(std::integral_constant<size_t, 3>(), false);
#ifndef NO_MULAD
    run(std::integral_constant<size_t, 1>(), true); run(std::integral_constant<size_t, 2>(), true);
#endif
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler);
    return vf::guarded_main(R, [&] { bool th = R.thorough(); steps(R, th); gears(R, th); errcontrols(R, th); gearcontrols(R, th); rombergs(R, th); });
}
