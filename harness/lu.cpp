// C28: LuFactor, LuInvert, LuSolve and LuRatio on every matrix with entries from a small set.
#include "vfc.hpp"
#include <complex>
#include <numeric>
#include <valarray>
using vf::Run; using std::string;
typedef long I;
// exact rational numbers; log is additive: log(x y) = log(x) + log(y), from the exponents of the primes
struct rat { I p, q; rat() : p(0), q(1) {} rat(int a) : p(a), q(1) {} rat(double a) : p((long)a), q(1) {} rat(I a, I b) : p(a), q(b) { norm(); }
    static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
    void norm() { if (q < 0) { p = -p; q = -q; } I g = gcd(p, q); if (g > 1) { p /= g; q /= g; } }
    rat operator-() const { rat r(*this); r.p = -p; return r; } rat operator+() const { return *this; }
    rat& operator+=(const rat& b) { return *this = rat(p * b.q + b.p * q, q * b.q); } rat& operator-=(const rat& b) { return *this = rat(p * b.q - b.p * q, q * b.q); }
    rat& operator*=(const rat& b) { return *this = rat(p * b.p, q * b.q); } rat& operator/=(const rat& b) { if (b.p == 0) throw std::runtime_error("division by zero"); return *this = rat(p * b.q, q * b.p); }
    double d() const { return (double)p / (double)q; } };
static rat operator+(rat a, const rat& b) { return a += b; } static rat operator-(rat a, const rat& b) { return a -= b; } static rat operator*(rat a, const rat& b) { return a *= b; } static rat operator/(rat a, const rat& b) { return a /= b; }
static bool operator==(const rat& a, const rat& b) { return a.p == b.p && a.q == b.q; } static bool operator!=(const rat& a, const rat& b) { return !(a == b); }
static bool operator<=(const rat& a, const rat& b) { return a.p * b.q <= b.p * a.q; } static bool operator>=(const rat& a, const rat& b) { return b <= a; } static bool operator<(const rat& a, const rat& b) { return !(b <= a); } static bool operator>(const rat& a, const rat& b) { return b < a; }
static rat rabs(const rat& a) { return a < rat(0) ? -a : a; }
static rat log(const rat& x) { if (!(x > rat(0))) throw std::runtime_error("log of a number that is not positive"); long r = 0, w = 1; I a = x.p, b = x.q; for (int pr : {2, 3, 5, 7, 11, 13, 17}) { while (a % pr == 0) { a /= pr; r += w; } while (b % pr == 0) { b /= pr; r -= w; } w *= 50; } return rat((I)r, 1); }
typedef std::complex<double> Z; typedef CppAD::AD<double> AD1; typedef CppAD::AD<Z> ADZ;
namespace CppAD { CPPAD_BOOL_BINARY(std::complex<double>, AbsGeq) CPPAD_BOOL_UNARY(std::complex<double>, LeqZero) }
// determinant and cofactors by their definition
template <class T> T det(const std::vector<T>& A, int n) { if (n == 0) return T(1); std::vector<int> s(n); std::iota(s.begin(), s.end(), 0); T r(0); do { int sg = 1; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (s[j] > s[i]) sg = -sg; T t(sg); for (int i = 0; i < n; i++) t = t * A[i * n + s[i]]; r = r + t; } while (std::next_permutation(s.begin(), s.end())); return r; }
template <class T> T cof(const std::vector<T>& A, int n, int i, int j) { std::vector<T> B; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != i && b != j) B.push_back(A[a * n + b]); T d = det(B, n - 1); return (i + j) % 2 ? T(0) - d : d; }
static bool perm(const std::vector<size_t>& ip, int* sg) { *sg = 1; for (size_t i = 0; i < ip.size(); i++) { if (ip[i] >= ip.size()) return false; for (size_t j = 0; j < i; j++) { if (ip[i] == ip[j]) return false; if (ip[j] > ip[i]) *sg = -*sg; } } return true; }
static std::vector<rat> rhs(int n, int m) { std::vector<rat> B(n * m); for (int i = 0; i < n * m; i++) B[i] = rat((i * 7 + 3) % 5 - 1); return B; }
// exact: the factorization, pivots, permutation, determinant, solution
template <class V> static string exact(Run& R, const std::vector<rat>& A, int n, int mm) {
    std::vector<size_t> ip(n, 99), jp(n, 99); V LU(n * n); for (int i = 0; i < n * n; i++) LU[i] = A[i]; rat d = det(A, n); int sg = CppAD::LuFactor(ip, jp, LU); R.comparisons++; R.outcome(sg + 1 + 7 * size_t(d.p + 100));
    if ((sg != 0) != (d != rat(0))) return vf::fmt("sign is %d, determinant %g", sg, d.d());
    auto at = [&](int i, int j) { return LU[ip[i] * n + jp[j]]; };
    if (sg != 0) { R.case_nontrivial = true; int a, b; if (!perm(ip, &a) || !perm(jp, &b)) return "ip or jp is not a permutation"; if (a * b != sg) return vf::fmt("sign is %d, sign of the permutations %d", sg, a * b);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { rat s(0); for (int k = 0; k <= std::min(i, j); k++) s += at(i, k) * (k == j ? rat(1) : at(k, j)); if (s != A[ip[i] * n + jp[j]]) return vf::fmt("L U is not P at %d %d", i, j); R.comparisons++; }
        rat q(sg); for (int p = 0; p < n; p++) q *= at(p, p); if (q != d) return vf::fmt("product of pivots %g, determinant %g", q.d(), d.d());
        // pivots: of largest absolute value in what remains
        std::vector<rat> W(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W[i * n + j] = A[ip[i] * n + jp[j]];
        for (int p = 0; p < n; p++) { for (int i = p; i < n; i++) for (int j = p; j < n; j++) if (rabs(W[i * n + j]) > rabs(W[p * n + p])) return vf::fmt("pivot %d is not the largest", p); for (int i = p + 1; i < n; i++) { rat f = W[i * n + p] / W[p * n + p]; for (int j = p; j < n; j++) W[i * n + j] -= f * W[p * n + j]; } }
        for (int m = 1; m <= mm; m++) { auto B = rhs(n, m); V X(n * m); for (int i = 0; i < n * m; i++) X[i] = B[i]; CppAD::LuInvert(ip, jp, LU, X); for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) { rat s(0); for (int j = 0; j < n; j++) s += A[i * n + j] * X[j * m + k]; if (s != B[i * m + k]) return vf::fmt("LuInvert with %d right hand sides: row %d of A X - B is not zero", m, i); R.comparisons++; } } }
    for (int m = 0; m <= mm; m++) { auto Bv = rhs(n, m); V a(n * n), B(n * m), X(n * m); for (int i = 0; i < n * n; i++) a[i] = A[i]; for (int i = 0; i < n * m; i++) { B[i] = Bv[i]; X[i] = rat(77); } rat ld(5); int s2 = CppAD::LuSolve(n, m, a, B, X, ld); R.comparisons++;
        for (int i = 0; i < n * n; i++) if (a[i] != A[i]) return "LuSolve changed A"; for (int i = 0; i < n * m; i++) if (B[i] != Bv[i]) return "LuSolve changed B";
        if (s2 != (d > rat(0) ? 1 : d < rat(0) ? -1 : 0)) return vf::fmt("LuSolve returns %d, determinant %g", s2, d.d()); if (s2 == 0) continue; if (ld != log(rabs(d))) return "logdet of LuSolve";
        for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) { rat s(0); for (int j = 0; j < n; j++) s += A[i * n + j] * X[j * m + k]; if (s != Bv[i * m + k]) return vf::fmt("LuSolve with %d right hand sides: row %d of A X - B is not zero", m, i); } }
    return "";
}
template <class F> static void matrices(Run& R, const char* name, int n, const std::vector<int>& vals, F&& body) {
    if (!R.family(name)) return; long N = 1; for (int i = 0; i < n * n; i++) N *= vals.size();
    for (long k = 0; k < N; k++) { std::vector<rat> A; auto get = [&] { std::vector<rat> a; long t = k; for (int i = 0; i < n * n; i++) { a.push_back(rat(vals[t % vals.size()])); t /= vals.size(); } return a; };
        if (!R.next([&] { string s = vf::fmt("%d by %d:", n, n); for (auto& t : get()) s += vf::fmt(" %d", (int)t.p); return s; })) continue; string e; try { e = body(get(), n); } catch (std::exception& x) { AD1::abort_recording(); ADZ::abort_recording(); e = x.what(); } if (e.size()) R.fail(e); }
}
// floating point: double, float
template <class T, class V> static string floating(Run& R, const std::vector<rat>& A, int n, int m) {
    V a(n * n), B(n * m), X(n * m); double eps = sizeof(T) == 4 ? 2e-5 : 1e-12, dd = det(A, n).d(); for (int i = 0; i < n * n; i++) a[i] = T(A[i].d()); auto Bv = rhs(n, m); for (int i = 0; i < n * m; i++) B[i] = T(Bv[i].d()); T ld; int s = CppAD::LuSolve(size_t(n), size_t(m), a, B, X, ld); double v = s == 0 ? 0 : s * std::exp((double)ld); R.comparisons++; R.outcome(s + 1 + 10 * long(dd * 3));
    if (!(std::fabs(v - dd) <= eps * (1 + std::fabs(dd)))) return vf::fmt("LuSolve: determinant %g, expected %g", v, dd); if (dd == 0) return ""; R.case_nontrivial = true; if (s != (dd > 0 ? 1 : -1)) return "sign of the determinant";
    for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) { double t = 0, sc = 1; for (int j = 0; j < n; j++) { double u = A[i * n + j].d() * (double)X[j * m + k]; t += u; sc += std::fabs(u); } if (!(std::fabs(t - Bv[i * m + k].d()) <= eps * sc * 10)) return vf::fmt("LuSolve: row %d of A X - B is %g", i, t - Bv[i * m + k].d()); }
    return "";
}
// complex numbers: entries are (p mod 3) + i (p / 3) - 1 - i from the entry p
static Z zof(const rat& r) { int p = (int)r.p; return Z(p % 3 - 1, p / 3 - 1); }
struct gi { I a, b; gi(int x = 0) : a(x), b(0) {} }; static gi operator+(gi x, const gi& y) { x.a += y.a; x.b += y.b; return x; } static gi operator-(gi x, const gi& y) { x.a -= y.a; x.b -= y.b; return x; } static gi operator*(const gi& x, const gi& y) { gi r; r.a = x.a * y.a - x.b * y.b; r.b = x.a * y.b + x.b * y.a; return r; }
static string complexes(Run& R, const std::vector<rat>& A, int n) {
    const int m = 2; typedef CppAD::vector<Z> V; V a(n * n), B(n * m), X(n * m); std::vector<gi> g(n * n); for (int i = 0; i < n * n; i++) { a[i] = zof(A[i]); g[i].a = (int)a[i].real(); g[i].b = (int)a[i].imag(); } for (int i = 0; i < n * m; i++) B[i] = Z(i % 3 - 1, i % 2); gi gd = det(g, n); Z d((double)gd.a, (double)gd.b), ld; int s = CppAD::LuSolve(n, m, a, B, X, ld); Z v = s ? double(s) * std::exp(ld) : Z(0); R.comparisons++; R.outcome(long(d.real() * 1000 + d.imag()));
    if (!(std::abs(v - d) <= 1e-12 * (1 + std::abs(d)))) return vf::fmt("LuSolve: determinant (%g,%g), expected (%g,%g)", v.real(), v.imag(), d.real(), d.imag());
    if (d == Z(0)) return ""; R.case_nontrivial = true;
    for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) { Z t = -B[i * m + k]; for (int j = 0; j < n; j++) t += a[i * n + j] * X[j * m + k]; if (!(std::abs(t) < 1e-11)) return "A X - B is not zero"; }
    std::vector<size_t> ip(n), jp(n); V LU(a); int sg = CppAD::LuFactor(ip, jp, LU), pa, pb; if (!perm(ip, &pa) || !perm(jp, &pb) || sg != pa * pb) return "sign of the permutations"; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Z t = -a[ip[i] * n + jp[j]]; for (int k = 0; k <= std::min(i, j); k++) t += LU[ip[i] * n + jp[k]] * (k == j ? Z(1) : LU[ip[k] * n + jp[j]]); if (!(std::abs(t) < 1e-12)) return "L U is not P"; }
    if (n > 2) return ""; // derivatives: of the logarithm of the determinant
    typedef CppAD::vector<ADZ> VA; VA ax(n * n), aB(n * m), aX(n * m), ay(1 + n * m); for (int i = 0; i < n * n; i++) ax[i] = a[i]; for (int i = 0; i < n * m; i++) aB[i] = B[i]; CppAD::Independent(ax); ADZ al; int s2 = CppAD::LuSolve(n, m, ax, aB, aX, al); if (s2 != s) return "sign for AD< complex<double> >"; ay[0] = al; for (int i = 0; i < n * m; i++) ay[1 + i] = aX[i]; CppAD::ADFun<Z> f(ax, ay); V w(1 + n * m, Z(0)); w[0] = 1; V dw = f.Reverse(1, w);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { gi c = cof(g, n, i, j); Z t = Z((double)c.a, (double)c.b) / d; R.comparisons++; if (!(std::abs(dw[i * n + j] - t) < 1e-11)) return vf::fmt("derivative of logdet by the entry %d %d", i, j); }
    for (int r = 0; r < n; r++) { w[0] = 0; for (int i = 0; i < n * m; i++) w[1 + i] = Z(i == r * m ? 1 : 0); dw = f.Reverse(1, w); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { gi c = cof(g, n, i, r); Z t = -Z((double)c.a, (double)c.b) / d * X[j * m]; if (!(std::abs(dw[i * n + j] - t) < 1e-11)) return vf::fmt("derivative of X by the entry %d %d", i, j); } }
    return "";
}
// elimination with given pivots in exact arithmetic; also the ratio of LuRatio. false: a pivot is zero
static bool pivots(const std::vector<rat>& A, int n, const std::vector<size_t>& ip, const std::vector<size_t>& jp, std::vector<rat>& LU, rat& ratio) {
    LU = A; ratio = rat(1); auto at = [&](int i, int j) -> rat& { return LU[ip[i] * n + jp[j]]; };
    for (int p = 0; p < n; p++) { if (at(p, p) == rat(0)) return false; for (int i = p; i < n; i++) for (int j = p; j < n; j++) { rat q = rabs(at(i, j) / at(p, p)); if (q > ratio) ratio = q; } for (int j = p + 1; j < n; j++) at(p, j) /= at(p, p); for (int i = p + 1; i < n; i++) for (int j = p + 1; j < n; j++) at(i, j) -= at(i, p) * at(p, j); }
    return true;
}
// recorded: LuRatio, LuSolve and derivatives, evaluated at other matrices with the same pivots
static string recorded(Run& R, const std::vector<rat>& A, int n, const std::vector<int>& vals, long step) {
    typedef CppAD::vector<AD1> VA; typedef CppAD::vector<double> V; const int m = 2; rat d = det(A, n); std::vector<size_t> ip(n), jp(n), iq(n), jq(n); VA ax(n * n), LU(n * n); AD1 ratio; for (int i = 0; i < n * n; i++) ax[i] = A[i].d();
    CppAD::Independent(ax); for (int i = 0; i < n * n; i++) LU[i] = ax[i]; int sg = CppAD::LuRatio(ip, jp, LU, ratio);
    if (sg == 0) { AD1::abort_recording(); R.comparisons++; return d == rat(0) ? "" : "sign of LuRatio is zero for an invertible matrix"; }
    auto Bv = rhs(n, m); VA B(n * m), X(n * m), ay; for (int i = 0; i < n * m; i++) B[i] = Bv[i].d(); AD1 ld; int s = CppAD::LuSolve(n, m, ax, B, X, ld); for (int i = 0; i < n * n; i++) ay.push_back(LU[i]); ay.push_back(ratio); ay.push_back(ld); for (int i = 0; i < n * m; i++) ay.push_back(X[i]);
    CppAD::ADFun<double> f; f.Dependent(ax, ay); f.check_for_nan(false);
    if (d == rat(0)) { R.count["singular_by_rounding"]++; return ""; }   // elimination in double did not find an exact zero
    { int a, b; if (!perm(ip, &a) || !perm(jp, &b) || sg != a * b) return "sign of LuRatio"; if (s != (d > rat(0) ? 1 : -1)) return "sign of LuSolve for AD<double>"; }
    { V x(n * n); for (int i = 0; i < n * n; i++) x[i] = A[i].d(); CppAD::vector<double> lu(n * n); for (int i = 0; i < n * n; i++) lu[i] = x[i]; int s3 = CppAD::LuFactor(iq, jq, lu); if (s3 != sg || iq != ip || jq != jp) return "LuFactor and LuRatio choose different pivots"; V y = f.Forward(0, x); if (!(std::fabs(y[n * n] - 1) < 1e-12)) return vf::fmt("ratio is %g where it was recorded", y[n * n]); }
    long N = 1; for (int i = 0; i < n * n; i++) N *= vals.size(); R.case_nontrivial = true;
    for (long k = (R.g_idx() * 7) % step; k < N; k += step) { std::vector<rat> C(n * n), L; long t = k; for (int i = 0; i < n * n; i++) { C[i] = rat(vals[t % vals.size()]); t /= vals.size(); } rat q; if (!pivots(C, n, ip, jp, L, q)) { R.count["zero_pivot"]++; continue; } R.transitions++;
        V x(n * n); for (int i = 0; i < n * n; i++) x[i] = C[i].d(); V y = f.Forward(0, x); rat dc = det(C, n);
        for (int i = 0; i < n * n; i++) { R.comparisons++; if (!(std::fabs(y[i] - L[i].d()) <= 1e-12 * (1 + std::fabs(L[i].d())))) return vf::fmt("factor %d with the recorded pivots at matrix %ld", i, k); } if (!(std::fabs(y[n * n] - q.d()) <= 1e-12 * (1 + q.d()))) return vf::fmt("ratio with the recorded pivots is %g, expected %g (matrix %ld)", y[n * n], q.d(), k);
        // logdet is the sum of the logarithms of the pivots with the recorded signs: defined when all pivots keep their signs
        bool same = true; { std::vector<rat> L0; rat q0; pivots(A, n, ip, jp, L0, q0); for (int p = 0; p < n; p++) same = same && (L0[ip[p] * n + jp[p]] > rat(0)) == (L[ip[p] * n + jp[p]] > rat(0)); }
        for (int i = 0; i < n; i++) for (int c = 0; c < m; c++) { double u = 0; for (int j = 0; j < n; j++) u += C[i * n + j].d() * y[n * n + 2 + j * m + c]; if (!(std::fabs(u - Bv[i * m + c].d()) < 1e-10)) return vf::fmt("solution with the recorded pivots at matrix %ld", k); }
        V w(f.Range(), 0.0);
        if (same) { if (!(std::fabs(s * std::exp(y[n * n + 1]) - dc.d()) <= 1e-11 * (1 + std::fabs(dc.d())))) return vf::fmt("determinant with the recorded pivots at matrix %ld", k); w[n * n + 1] = 1; V dw = f.Reverse(1, w); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!(std::fabs(dw[i * n + j] - (cof(C, n, i, j) / dc).d()) < 1e-10)) return vf::fmt("derivative of logdet by entry %d %d at matrix %ld", i, j, k); w[n * n + 1] = 0; }
        int r = k % n, c = k % m; w[n * n + 2 + r * m + c] = 1; V dw = f.Reverse(1, w); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double e = -(cof(C, n, i, r) / dc).d() * y[n * n + 2 + j * m + c]; if (!(std::fabs(dw[i * n + j] - e) < 1e-9)) return vf::fmt("derivative of the solution by entry %d %d is %g, expected %g (matrix %ld)", i, j, dw[i * n + j], e, k); } }
    return "";
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler);
    return vf::guarded_main(R, [&] {
        bool th = R.thorough(); typedef CppAD::vector<rat> VC; typedef std::vector<rat> VS;
        auto ex = [&](const std::vector<rat>& A, int n) { string e = exact<VC>(R, A, n, 3); return e.empty() && n < 3 ? exact<VS>(R, A, n, 2) : e; };
        auto ex1 = [&](const std::vector<rat>& A, int n) { return exact<VC>(R, A, n, 1); };
        matrices(R, "exact0", 0, {1}, ex); matrices(R, "exact1", 1, {0, 1, -1, 2, -3, 5, 7}, ex); matrices(R, "exact2", 2, {0, 1, -1, 2, -2, 3, -4, 5, 6}, ex); matrices(R, "exact3", 3, th ? std::vector<int>{0, 1, -1, 2, -3, 5} : std::vector<int>{0, 1, -1, 2, -3}, ex); matrices(R, "exact4", 4, th ? std::vector<int>{0, 1, -1} : std::vector<int>{0, 1}, ex1); if (th) matrices(R, "exact5", 5, {0, 1}, [&](const std::vector<rat>& A, int n) { return exact<VC>(R, A, n, 1); });
        auto fl = [&](const std::vector<rat>& A, int n) { string e = floating<double, CppAD::vector<double>>(R, A, n, 2); if (e.empty()) e = floating<double, std::vector<double>>(R, A, n, 1); if (e.empty()) e = floating<double, std::valarray<double>>(R, A, n, 1); return e.empty() ? floating<float, CppAD::vector<float>>(R, A, n, 1) : "float: " + e; };
        matrices(R, "float2", 2, {0, 1, -1, 2, -2, 3, -4, 5, 6}, fl); matrices(R, "float3", 3, th ? std::vector<int>{0, 1, -1, 2, -3} : std::vector<int>{0, 1, -1, 3}, fl); matrices(R, "float4", 4, {0, 1}, fl);
        auto cx = [&](const std::vector<rat>& A, int n) { return complexes(R, A, n); };
        matrices(R, "complex1", 1, {0, 1, 2, 3, 4, 5, 6, 7, 8}, cx); matrices(R, "complex2", 2, {0, 1, 2, 3, 4, 5, 6, 7, 8}, cx); matrices(R, "complex3", 3, th ? std::vector<int>{4, 5, 3, 7, 8} : std::vector<int>{4, 5, 3, 7}, cx);
        std::vector<int> v2 = {0, 1, -1, 2, -3}, v3 = {0, 1, -2};
        matrices(R, "record1", 1, {1, -2, 3}, [&](const std::vector<rat>& A, int n) { return recorded(R, A, n, {1, -2, 3, 5}, 1); });
        matrices(R, "record2", 2, v2, [&](const std::vector<rat>& A, int n) { return recorded(R, A, n, v2, 1); });
        matrices(R, "record3", 3, v3, [&](const std::vector<rat>& A, int n) { return recorded(R, A, n, v3, th ? 11 : 97); });
    });
}
