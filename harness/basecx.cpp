// C33: AD< std::complex<double> > and AD< std::complex<float> >: values, Taylor coefficients, derivatives and sparse derivatives of analytic programs against a
// reference in complex long double arithmetic (tayref.hpp); operations that complex numbers do not have are reported.
#include <complex>
#include <cmath>
// the number type of the reference
struct cx { std::complex<long double> z; cx() : z(0) {} cx(double a) : z(a) {} cx(long double a) : z(a) {} cx(int a) : z(a) {} cx(std::complex<long double> a) : z(a) {} template <class Q, class = std::enable_if_t<std::is_arithmetic<Q>::value>> explicit operator Q() const { return (Q)z.real(); }
    cx& operator+=(const cx& b) { z += b.z; return *this; } cx& operator-=(const cx& b) { z -= b.z; return *this; } cx& operator*=(const cx& b) { z *= b.z; return *this; } cx& operator/=(const cx& b) { z /= b.z; return *this; } cx operator-() const { return cx(-z); } };
inline cx operator+(const cx& a, const cx& b) { return cx(a.z + b.z); } inline cx operator-(const cx& a, const cx& b) { return cx(a.z - b.z); } inline cx operator*(const cx& a, const cx& b) { return cx(a.z * b.z); } inline cx operator/(const cx& a, const cx& b) { return cx(a.z / b.z); }
inline bool operator==(const cx& a, const cx& b) { return a.z == b.z; } inline bool operator!=(const cx& a, const cx& b) { return a.z != b.z; }
#define CXR(op) inline bool operator op(const cx& a, const cx& b) { return a.z.real() op b.z.real(); }
CXR(<) CXR(<=) CXR(>) CXR(>=)
namespace std {
#define CXF(f) inline cx f(const cx& a) { return cx(std::f(a.z)); }
CXF(exp) CXF(log) CXF(sqrt) CXF(sin) CXF(cos) CXF(sinh) CXF(cosh)
inline cx pow(const cx& a, const cx& b) { return cx(std::pow(a.z, b.z)); } inline cx floor(const cx& a) { return cx(std::floor(a.z.real())); }
#define CXN(f) inline cx f(const cx&) { return cx(NAN); }
CXN(atan) CXN(asin) CXN(acos) CXN(asinh) CXN(acosh) CXN(atanh) CXN(erf) CXN(erfc) CXN(fabs) CXN(expm1) CXN(log1p)
inline cx atan2(const cx&, const cx&) { return cx(NAN); }
}
inline cx fabsl(const cx& a) { return cx(std::abs(a.z)); }
#define TAY_L cx
#define TAY_K 3
#include <array>
#include "tayref.hpp"
#include "families.hpp"
#include "adhook.hpp"
using namespace prog; using vf::Run; using std::string;
#ifndef CXT
#define CXT double
#endif
typedef CXT Rl; typedef std::complex<Rl> B; typedef CppAD::AD<B> AB; typedef CppAD::AD<AB> AAB; typedef std::complex<double> Z; typedef std::complex<long double> ZL;
static const double EPS = sizeof(Rl) == 4 ? 6e-8 : 1.1e-16;
static B disB(const B& x) { return B(Rl(prog::dis_fun(double(x.real())))); }
CPPAD_DISCRETE_FUNCTION(B, disB)
static void callB(const AB& a, const AB& b, AB& r0, AB& r1) { atom_inline(a, b, r0, r1); }
static void mixB(const AB& a, const AB& b, AB& r0, AB& r1) { mix_inline(a, b, r0, r1); }
PROG_AD_HOOK(B, disB, callB, mixB)
struct Pt { Z x[2], p[2]; };
static const std::vector<Pt> points = {{{Z(0.3125, 0.75), Z(0.6875, -0.5)}, {Z(0.4375, 0.25), Z(-0.8125, 0.625)}}, {{Z(1.5, -0.25), Z(-0.625, 1.25)}, {Z(1.25, 0.5), Z(2.0, 0)}}, {{Z(-0.375, 0.5), Z(0, 1)}, {Z(0, 0), Z(1, 0)}}, {{Z(0.5, 0), Z(1.25, 0)}, {Z(0, 1), Z(1, 0)}}};
static const std::vector<Pt> vpoints = {{{Z(0.3125, 0.75), Z(0.6875, -0.5)}, {Z(1.25, -0.5), Z(-0.8125, 0.625)}}, {{Z(1.5, -0.25), Z(-0.625, 1.25)}, {Z(2.0, 0.5), Z(0.5, 1)}}};
static const Z XK[2][4] = {{0, Z(0.6875, -1), Z(-0.375, 0.25), Z(0.875, 0.5)}, {0, Z(-0.3125, 0.5), Z(0.8125, -0.75), Z(0.25, 0.125)}};
static const std::vector<Op> analytic = {COS, COSH, EXP, LOG, LOG10, NEG, SIN, SINH, SQRT, UPLUS, POWI_M2, POWI_0, POWI_3, DIS, ADD, SUB, MUL, DIV, POW, ZMUL, ADDEQ, SUBEQ, MULEQ, DIVEQ, ATA, ATB, VLD, VST};
static bool ok(const Prog& g) { for (auto& i : g.ins) if (std::find(analytic.begin(), analytic.end(), i.op) == analytic.end()) return false; return true; }
// nodes not compared: undefined or unbounded values, values next to a branch cut or a change of a discrete function, functions of them
static std::vector<char> bad_nodes(const Prog& g, const std::vector<tay::T>& r) {
    std::vector<char> bad(r.size(), 0), ind(r.size(), 0); auto v = [&](int i) { return r[i].c[0].v.z; }; bool vb = false;
    for (int i = 0; i < (int)r.size(); i++) { if (!(std::abs(v(i)) < 1e5L)) bad[i] = 1; if (i < g.n + g.m) ind[i] = 1; if (i < g.nleaf()) continue; const Ins& s = g.ins[i - g.nleaf()]; for (int j = 0; j < arity(s.op); j++) { bad[i] |= bad[s.a[j]]; ind[i] |= ind[s.a[j]]; }
        ZL a = v(s.a[0]), b = arity(s.op) > 1 ? v(s.a[1]) : ZL(0); bool cut = std::abs(a) < 1e-9L || (a.real() < 0 && std::abs(a.imag()) < 1e-9L * std::abs(a));
        if ((s.op == LOG || s.op == LOG10 || s.op == SQRT || s.op == POW) && cut) bad[i] = 1; if (s.op == POWI_M2 && std::abs(a) < 1e-9L) bad[i] = 1;
        if ((s.op == DIV || s.op == DIVEQ) && std::abs(b) < 1e-9L) bad[i] = 1;
        if (s.op == DIS) { double t = 2.0 * (double)a.real() + 0.5; if (std::fabs(t - std::round(t)) < 1e-5) bad[i] = 1; }
        if (s.op == VST) vb |= bad[i]; if (s.op == VLD) bad[i] |= vb; }
    return bad;
}
static std::vector<tay::T> reference(const Prog& g, const Pt& pt, const Z xk[2][4], double d) {
    tay::T x[2], p[2]; for (int j = 0; j < 2; j++) { x[j].c[0] = tay::D(cx(ZL(pt.x[j]) * ZL(1 + d, d / 2))); x[j].c[0].d[j] = 1; for (int k = 1; k <= 3; k++) x[j].c[k] = tay::D(cx(ZL(xk[j][k]))); p[j].c[0] = tay::D(cx(ZL(pt.p[j]) * ZL(1 + d, -d))); }
    return run<tay::T>(g, x, p);
}
static void record(const Prog& g, const Pt& pt, CppAD::ADFun<B>& f) {
    typedef CppAD::vector<AB> VA; VA x(2), p(2); for (int j = 0; j < 2; j++) { x[j] = B(pt.x[j]); p[j] = B(pt.p[j]); }
    CppAD::Independent(x, size_t(0), true, p); std::vector<AB> v = run<AB>(g, x, p); VA y(g.y.size()); for (size_t i = 0; i < y.size(); i++) y[i] = v[g.y[i]]; f.Dependent(x, y); f.check_for_nan(false);
}
struct Ref { std::vector<tay::T> r, a, b; };   // and two with perturbed arguments
static Ref refs(const Prog& g, const Pt& pt, const Z xk[2][4]) { return {reference(g, pt, xk, 0), reference(g, pt, xk, 4 * EPS), reference(g, pt, xk, -4 * EPS)}; }
static string cmp(Run& R, Z t, ZL w, ZL wa, ZL wb, double extra) {
    long double pert = std::max(std::abs(wa - w), std::abs(wb - w)); if (!(std::abs(w) < 1e5L) || !(pert < 1e-2L * (1 + std::abs(w)))) { R.count["skipped"]++; return ""; } R.comparisons++;
    long double tol = EPS * 600 * (extra + std::abs(w)) + 40 * pert; if (tol > 1e-2L * (1 + std::abs(w))) { R.count["skipped"]++; return ""; } R.case_nontrivial = true;
    if (std::abs(ZL(t) - w) <= tol) return ""; return vf::fmt("(%.17g,%.17g), expected (%.17g,%.17g), tolerance %g", t.real(), t.imag(), (double)w.real(), (double)w.imag(), (double)tol);
}
template <class T> static Z val(const T& t);
template <> Z val(const B& t) { return Z(t); }
template <> Z val(const AB& t) { return Z(CppAD::Value(CppAD::Var2Par(t))); }
template <class T, class RT> static string observe(Run& R, const Prog& g, CppAD::ADFun<T, RT>& f, const Pt& pt, const Ref& q, const std::vector<char>& bad, int K) {
    typedef CppAD::vector<T> V; size_t n = 2, m = f.Range(); V p(2), x(2); for (int j = 0; j < 2; j++) { p[j] = B(pt.p[j]); x[j] = B(pt.x[j]); } if (f.size_dyn_ind()) f.new_dynamic(p);
    double sc = 1; for (size_t i = 0; i < q.r.size(); i++) for (int k = 0; k <= 3; k++) { double s = (double)std::abs(q.r[i].c[k].v.z); if (s < 1e4) sc = std::max(sc, s); }
    for (int k = 0; k <= K; k++) { V xk(n); for (size_t j = 0; j < n; j++) xk[j] = k ? T(B(XK[j][k])) : x[j]; V y = f.Forward(k, xk); for (size_t i = 0; i < m; i++) { int d = g.y[i]; if (bad[d]) continue; string e = cmp(R, val<T>(y[i]), q.r[d].c[k].v.z, q.a[d].c[k].v.z, q.b[d].c[k].v.z, sc); if (e.size()) return vf::fmt("order %d of dependent %zu: ", k, i) + e; } }
    for (size_t i = 0; i < m; i++) { int d = g.y[i]; if (bad[d]) continue; for (int k = 1; k <= K + 1; k++) { V w(m); for (size_t l = 0; l < m; l++) w[l] = T(B(l == i ? 1 : 0)); V r = f.Reverse(k, w);
        for (size_t j = 0; j < n; j++) for (int l = 0; l < k; l++) { string e = cmp(R, val<T>(r[j * k + l]), q.r[d].c[l].d[j].z, q.a[d].c[l].d[j].z, q.b[d].c[l].d[j].z, sc); if (e.size()) return vf::fmt("Reverse(%d), dependent %zu, x%zu order %d: ", k, i, j, l) + e; } } }
    // two directions: the first is that of the reference
    if (K > 0) { V x1(4), x2(4); for (int j = 0; j < 2; j++) { x1[2 * j] = B(XK[j][1]); x1[2 * j + 1] = B(0.5); x2[2 * j] = B(XK[j][2]); x2[2 * j + 1] = B(Rl(-0.25)); } V y1 = f.Forward(1, 2, x1), y2 = f.Forward(2, 2, x2);
        for (size_t i = 0; i < m; i++) { int d = g.y[i]; if (bad[d]) continue; for (int k = 1; k < 3; k++) { string e = cmp(R, val<T>((k == 1 ? y1 : y2)[2 * i]), q.r[d].c[k].v.z, q.a[d].c[k].v.z, q.b[d].c[k].v.z, sc); if (e.size()) return vf::fmt("order %d of dependent %zu, two directions: ", k, i) + e; } } }
    return "";
}
static string drivers(Run& R, const Prog& g, CppAD::ADFun<B>& f, const Pt& pt, const Ref h[2], const std::vector<char>& bad) {
    typedef CppAD::vector<B> V; typedef CppAD::sparse_rc<CppAD::vector<size_t>> RC; size_t n = 2, m = f.Range(); V p(2), x(2); for (int j = 0; j < 2; j++) { p[j] = B(pt.p[j]); x[j] = B(pt.x[j]); } if (f.size_dyn_ind()) f.new_dynamic(p);
    V J = f.Jacobian(x); RC id(n, n, n), pj, ph; for (size_t j = 0; j < n; j++) id.set(j, j, j); f.for_jac_sparsity(id, false, false, false, pj); std::vector<std::vector<char>> in(m, std::vector<char>(n, 0)); for (size_t k = 0; k < pj.nnz(); k++) in[pj.row()[k]][pj.col()[k]] = 1;
    CppAD::sparse_rcv<CppAD::vector<size_t>, V> a(pj), b(pj); CppAD::sparse_jac_work wa, wb; f.sparse_jac_rev(x, a, pj, "cppad", wa); f.sparse_jac_for(1, x, b, pj, "cppad", wb);
    auto jac = [&](Z t, size_t i, size_t j, const char* what) -> string { int d = g.y[i]; if (bad[d]) return ""; string e = cmp(R, t, h[0].r[d].c[0].d[j].z, h[0].a[d].c[0].d[j].z, h[0].b[d].c[0].d[j].z, 1); return e.size() ? vf::fmt("%s %zu %zu: ", what, i, j) + e : ""; };
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { string e = jac(Z(J[i * n + j]), i, j, "Jacobian"); if (e.size()) return e; if (!in[i][j]) { e = jac(0, i, j, "outside of the Jacobian pattern"); if (e.size()) return e; } }
    for (size_t k = 0; k < a.nnz(); k++) { string e = jac(Z(a.val()[k]), a.row()[k], a.col()[k], "sparse_jac_rev"); if (e.empty()) e = jac(Z(b.val()[k]), b.row()[k], b.col()[k], "sparse_jac_for"); if (e.size()) return e; }
    CppAD::vector<bool> sd(n, true), sr(m, true); f.for_hes_sparsity(sd, sr, false, ph); std::vector<std::vector<char>> ih(n, std::vector<char>(n, 0)); for (size_t k = 0; k < ph.nnz(); k++) ih[ph.row()[k]][ph.col()[k]] = 1;
    for (size_t i = 0; i < m; i++) { int d = g.y[i]; if (bad[d]) continue; V H = f.Hessian(x, i), w(m, B(0)); w[i] = 1; CppAD::sparse_rcv<CppAD::vector<size_t>, V> s(ph); CppAD::sparse_hes_work wk; f.sparse_hes(x, w, s, ph, "cppad.symmetric", wk);
        auto hes = [&](Z t, size_t j, size_t k, const char* what) -> string { string e = cmp(R, t, h[j].r[d].c[1].d[k].z, h[j].a[d].c[1].d[k].z, h[j].b[d].c[1].d[k].z, 1); return e.size() ? vf::fmt("%s of %zu at %zu %zu: ", what, i, j, k) + e : ""; };
        for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) { string e = hes(Z(H[j * n + k]), j, k, "Hessian"); if (e.empty() && !ih[j][k]) e = hes(0, j, k, "outside of the Hessian pattern"); if (e.size()) return e; }
        for (size_t k = 0; k < s.nnz(); k++) { string e = hes(Z(s.val()[k]), s.row()[k], s.col()[k], "sparse_hes"); if (e.size()) return e; } }
    return "";
}
static void check(Run& R, const Prog& g, const std::vector<Pt>& pts) {
    if (!ok(g)) { R.count["not_analytic"]++; return; } string e; uint64_t h = 1469598103934665603ull;
    try {
        const Pt& rp = pts[R.g_idx() % pts.size()]; CppAD::ADFun<B> f, o; record(g, rp, f); o = f; string what; { string opt = R.g_idx() % 2 ? "no_conditional_skip" : ""; o.optimize(opt); } auto af = f.base2ad();
        for (auto& pt : pts) { Ref q = refs(g, pt, XK), u[2]; for (int j = 0; j < 2; j++) { Z xk[2][4] = {}; xk[j][1] = 1; u[j] = refs(g, pt, xk); } std::vector<char> bad = ::bad_nodes(g, q.r);
            { bool skip = false; for (auto& i : g.ins) if (i.op == VLD || i.op == VST) { double ix = (double)q.r[i.a[0]].c[0].v.z.real(); if (!(ix >= 0 && ix < 3)) skip = true; } if (skip) continue; }
            for (auto& t : q.r) h = h * 31 + uint64_t(int64_t(std::abs(t.c[1].v.z) < 1e6L ? t.c[1].v.z.imag() * 64 : 0));
            e = observe(R, g, f, pt, q, bad, 3); if (e.empty()) { e = drivers(R, g, f, pt, u, bad); what = "drivers "; } if (e.empty()) { e = observe(R, g, o, pt, q, bad, 3); what = "optimized "; } if (e.empty()) { e = drivers(R, g, o, pt, u, bad); what = "optimized drivers "; } if (e.empty()) { e = observe(R, g, af, pt, q, bad, 1); what = "base2ad "; } if (e.size()) { e = what + e; break; } }
    } catch (std::exception& x) { AB::abort_recording(); AAB::abort_recording(); e = x.what(); }
    if (e.size()) R.fail(vf::fmt("complex<%s>: ", sizeof(Rl) == 4 ? "float" : "double") + e); R.outcome(h);
}
// operations that complex numbers do not have, applied to parameters and variables, while recording or not
static void invalid(Run& R) {
    if (!R.family("invalid")) return;
    typedef std::function<void(const AB&, const AB&)> F; std::vector<std::pair<string, F>> L;
#define INV1(f) L.push_back({#f, [](const AB& a, const AB&) { AB r = CppAD::f(a); (void)r; }});
    INV1(abs) INV1(fabs) INV1(acos) INV1(asin) INV1(atan) INV1(sign) INV1(asinh) INV1(acosh) INV1(atanh) INV1(erf) INV1(erfc) INV1(expm1) INV1(log1p)
#define INV2(n, x) L.push_back({n, [](const AB& a, const AB& b) { x; }});
    INV2("<", (void)(a < b)) INV2("<=", (void)(a <= b)) INV2(">", (void)(a > b)) INV2(">=", (void)(a >= b))
#define INVC(c) INV2(#c, AB r = CppAD::c(a, b, a, b); (void)r)
    INVC(CondExpLt) INVC(CondExpLe) INVC(CondExpGe) INVC(CondExpGt)
    INV2("LessThanZero", (void)CppAD::LessThanZero(a)) INV2("LessThanOrZero", (void)CppAD::LessThanOrZero(a)) INV2("GreaterThanZero", (void)CppAD::GreaterThanZero(a)) INV2("GreaterThanOrZero", (void)CppAD::GreaterThanOrZero(a))
    for (auto& l : L) for (int mode = 0; mode < 10; mode++) if (R.next([&] { return vf::fmt("%s mode %d", l.first.c_str(), mode); })) {
        bool err = false; AB a(B(0.5, 0.25)), b(B(0.75, -0.5)); string what; R.case_nontrivial = true;
        try { if (mode == 0) l.second(a, b); else { CppAD::vector<AB> x(2), p(1); x[0] = a; x[1] = b; p[0] = a; CppAD::Independent(x, size_t(0), true, p); int k = mode - 1; AB u = k % 3 == 0 ? x[0] : k % 3 == 1 ? p[0] : a, w = k / 3 == 0 ? x[1] : k / 3 == 1 ? p[0] : b; l.second(u, w); AB::abort_recording(); } }
        catch (vf::CppadError&) { err = true; AB::abort_recording(); }
        R.comparisons++; if (!err) R.fail(l.first + " was not reported as an error");
        // recording still works
        CppAD::vector<AB> x(1), y(1); x[0] = a; CppAD::Independent(x); y[0] = x[0] * x[0]; CppAD::ADFun<B> f(x, y); CppAD::vector<B> v(1), t; v[0] = B(1, 2); t = f.Forward(0, v); if (t[0] != B(-3, 4)) R.fail("recording after the error"); R.outcome(mode * 100 + err);
    }
}
// what the documentation says about single numbers
static void scalars(Run& R) {
    if (!R.family("scalars")) return;
    std::vector<Rl> re = {0, Rl(0.5), -1, 1, Rl(2.75), Rl(-2.75)};
    for (Rl a : re) for (Rl b : re) for (Rl c : re) for (Rl d : re) if (R.next([&] { return vf::fmt("(%g,%g) (%g,%g)", (double)a, (double)b, (double)c, (double)d); })) {
        B x(a, b), y(c, d); AB ax(x), ay(y); string e; R.case_nontrivial = true; R.comparisons += 12; auto bad = [&](const char* s) { if (e.empty()) e = s; };
        if (CppAD::EqualOpSeq(x, y) != (x == y)) bad("EqualOpSeq"); if (!CppAD::IdenticalCon(x)) bad("IdenticalCon"); if (CppAD::IdenticalZero(x) != (a == 0 && b == 0) || CppAD::IdenticalOne(x) != (a == 1 && b == 0)) bad("IdenticalZero/One"); if (CppAD::IdenticalEqualCon(x, y) != (x == y)) bad("IdenticalEqualCon");
        if (CppAD::Integer(x) != int(a) || CppAD::Integer(ax) != int(a)) bad("Integer"); if (CppAD::azmul(x, y) != (x == B(0) ? B(0) : x * y)) bad("azmul"); if (CppAD::isnan(x)) bad("isnan"); B n(Rl(NAN), 0); if (!CppAD::isnan(n) || !CppAD::isnan(B(0, Rl(NAN)))) bad("isnan of nan"); if (CppAD::azmul(B(0), n) != B(0)) bad("azmul with nan");
        { AB r = CppAD::CondExpEq(ax, ay, AB(B(2)), AB(B(3))); if (CppAD::Value(r) != (x == y ? B(2) : B(3))) bad("CondExpEq"); } if (CppAD::abs_geq(x, y) != (std::abs(x) >= std::abs(y))) bad("abs_geq"); if ((ax == ay) != (x == y) || (ax != ay) == (x == y)) bad("=="); if (CppAD::Value(ax * ay) != x * y || CppAD::Value(ax + ay) != x + y || CppAD::Value(ax - ay) != x - y || (y != B(0) && CppAD::Value(ax / ay) != x / y)) bad("arithmetic");
        { std::complex<Rl> t; std::istringstream s(CppAD::to_string(x)); s >> t; if (t != x) bad("to_string"); }
        if (std::abs(CppAD::pow(x, 3) - x * x * x) > Rl(EPS * 100) * std::abs(x * x * x)) bad("pow int");
        if (e.size()) R.fail(e); R.outcome(CppAD::Integer(x) * 16 + (x == y) + 2 * CppAD::abs_geq(x, y));
    }
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler);
    return vf::guarded_main(R, [&] {
        bool th = R.thorough(); Opt o; o.cexp = false; auto c = [&](const Prog& g) { check(R, g, points); }; auto v = [&](const Prog& g) { check(R, g, vpoints); };
        depth1(R, o, c); if (th) depth2(R, o, c); shared(R, "all2", std::vector<Op>{ADD, SUB, MUL, DIV, POW, ZMUL, ATA, EXP, LOG, SQRT, SIN, COS, SINH, COSH, LOG10, NEG}, {0, 2, 6}, 2, c, 2);
        vecad(R, o, 2, v, "vec2"); if (th) vecad(R, o, 3, v, "vec3"); sums(R, "sums", th ? 4 : 3, c); invalid(R); scalars(R);
    });
}
