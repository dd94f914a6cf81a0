// C38: the atomic functions in the installed example headers, compared with the same calculation recorded inline.
// argument: vector mat lin_ode three
#include "atomcmp.hpp"
#include <cppad/example/atomic_four/vector/vector.hpp>
#include <cppad/example/atomic_four/lin_ode/lin_ode.hpp>
#ifdef SHIP_THREE
#include <cppad/example/atomic_three/mat_mul.hpp>
#else
#include <cppad/example/atomic_four/mat_mul/mat_mul.hpp>
#endif
struct Atom { string name; size_t n, m; std::function<void(const V1&, V1&)> call, inl; size_t K, Q; bool base2ad; double rel, abs; bool exact; std::function<void(const V1&, V1&)> pat; };
static std::vector<Atom> atoms(const Run& R) {
    std::vector<Atom> v; bool th = R.thorough(); (void)th;
#ifndef SHIP_THREE
    if ((R.has_arg("vector") || R.has_arg("finding"))) { typedef CppAD::atomic_vector<double> AV; static AV* o = new AV("atomic_vector"); static const char* nm[] = {"add", "div", "mul", "neg", "sub"};
        for (int op = 0; op < 5; op++) for (size_t m = 1; m <= (th ? 3 : 2); m++) { size_t n = op == 3 ? m : 2 * m;
            v.push_back({fmt("vector %s %zu", nm[op], m), n, m, [op](const V1& x, V1& y) { (*o)(AV::op_enum_t(op), x, y); }, [op, m](const V1& x, V1& y) { for (size_t i = 0; i < m; i++) switch (op) { case AV::add_enum: y[i] = x[i] + x[m + i]; break; case AV::sub_enum: y[i] = x[i] - x[m + i]; break; case AV::mul_enum: y[i] = x[i] * x[m + i]; break; case AV::div_enum: y[i] = x[i] / x[m + i]; break; default: y[i] = 0.0 - x[i]; } }, 3, 0, true, 1e-9, 1e-10, op != 1, nullptr}); } }
    static CppAD::atomic_mat_mul<double>* mm = R.has_arg("mat") || R.has_arg("finding") ? new CppAD::atomic_mat_mul<double>("mat_mul") : nullptr;
#else
    static atomic_mat_mul* mm = new atomic_mat_mul;
#endif
    if (R.has_arg("mat") || R.has_arg("three") || R.has_arg("finding")) { static const size_t sh[][3] = {{1,1,1}, {1,2,1}, {2,1,1}, {1,1,2}, {1,3,1}, {2,1,2}, {2,2,1}, {1,2,2}, {3,1,1}, {3,1,2}, {2,2,2}, {1,3,2}, {2,3,1}};
        for (auto& s : sh) { size_t a = s[0], b = s[1], c = s[2]; if (a * b + b * c > 8 && !th) continue;
            auto inl = [a, b, c](const V1& x, V1& y) { for (size_t i = 0; i < a; i++) for (size_t j = 0; j < c; j++) { AD1 t = x[i * b] * x[a * b + j]; for (size_t l = 1; l < b; l++) t += x[i * b + l] * x[a * b + l * c + j]; y[i * c + j] = t; } };
#ifdef SHIP_THREE
            auto call = [a, b, c](const V1& x, V1& y) { V1 u(3 + x.size()); u[0] = double(a); u[1] = double(b); u[2] = double(c); for (size_t j = 0; j < x.size(); j++) u[3 + j] = x[j]; (*mm)(u, y); };
            v.push_back({fmt("three mat_mul %zu %zu %zu", a, b, c), a * b + b * c, a * c, call, inl, 3, 0, false, 1e-10, 1e-11, true, nullptr});
#else
            auto call = [a, b, c](const V1& x, V1& y) { size_t id = mm->set(a, b, c); (*mm)(id, x, y); };
            v.push_back({fmt("mat_mul %zu %zu %zu", a, b, c), a * b + b * c, a * c, call, inl, 3, 0, true, 1e-10, 1e-11, true, nullptr});
#endif
        } }
#ifndef SHIP_THREE
    if (R.has_arg("lin_ode") || R.has_arg("finding")) { static auto* o = new CppAD::atomic_lin_ode<double>("lin_ode");
        for (size_t m = 1; m <= (th ? 3 : 2); m++) for (int bits = 0; bits < (m == 3 ? 64 : 1 << (m * m)); bits++) for (int tr = 0; tr < 2; tr++) for (int rr = 0; rr < 2; rr++) { if (!th && !R.has_arg("finding") && rr != ((bits + tr) & 1)) continue;
            // m = 3: 64 patterns with all of the diagonal bits equal to bit 0 of the off diagonal ones
            std::vector<std::pair<size_t, size_t>> e; int k = 0; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { bool b; if (m < 3) b = bits >> k++ & 1; else if (i == j) b = bits & 1; else b = bits >> k++ & 1; if (b) e.push_back({i, j}); }
            RC pat(m, m, e.size()); for (size_t q = 0; q < e.size(); q++) pat.set(q, e[q].first, e[q].second);
            double r = rr ? 0.25 : 0.1, step = r / (th ? 20 : 10);
            size_t n = e.size() + m;
            auto series = [r, e, m, tr](const V1& x, V1& y, int nk) { std::vector<AD1> w(m); for (size_t i = 0; i < m; i++) { w[i] = x[e.size() + i]; y[i] = w[i]; } for (int k = 1; k < nk; k++) { std::vector<AD1> u(m, AD1(0.0)); for (size_t q = 0; q < e.size(); q++) { size_t i = tr ? e[q].second : e[q].first, j = tr ? e[q].first : e[q].second; u[i] += x[q] * w[j] * (r / k); } w = u; for (size_t i = 0; i < m; i++) y[i] += w[i]; } };
            v.push_back({fmt("lin_ode %zu pattern %d transpose %d r %g", m, bits, tr, r), n, m, [r, step, pat, tr](const V1& x, V1& y) { bool t = tr; RC pt = pat; size_t id = o->set(r, step, pt, t); (*o)(id, x, y); },
                [series](const V1& x, V1& y) { series(x, y, 16); },
                1, 1, true, 2e-4, 2e-4, false, [series](const V1& x, V1& y) { series(x, y, 5); }}); } }
#endif
    return v;
}
// The calls that known_findings.txt lists as defects of the example headers: what they affect is left out here, one example of each is run in family "finding".
struct Avoid { bool skip = false, optpat = true, zero_dyn = true, jac = true, hes = true, fwd2ad = true, rev2ad = true; size_t Q = 0; };
static Avoid avoid(const string& name, size_t n, size_t m, const std::vector<int>& kind) {
    Avoid a; bool var = false, dyn = false, zero = false; for (int k : kind) { var |= k == 0 || k == 3; dyn |= k == 1; zero |= k == 4; } unsigned d[3];
    if (name.compare(0, 7, "vector ") == 0) { if (name[7] == 'd' || name[7] == 'm') a.hes = false; if (name[7] == 'd') { a.zero_dyn = false; for (size_t j = m; j < n; j++) if (kind[j] == 4) a.skip = true; } }
    else if (sscanf(name.c_str(), "mat_mul %u %u %u", d, d + 1, d + 2) == 3) { a.Q = 1; if (dyn && var) { a.fwd2ad = a.rev2ad = false; if (zero) a.skip = true; } if (zero || m > n) a.jac = a.hes = false; a.optpat = false; }
    else if (sscanf(name.c_str(), "three mat_mul %u %u %u", d, d + 1, d + 2) == 3) { if (d[0] != d[1]) a.skip = true; if (dyn && var && zero) a.skip = true; }
    else { size_t nnz = n - m; a.rev2ad = false; a.Q = 99; a.hes = false; if (name.find("transpose 1") != string::npos) a.fwd2ad = false; (void)nnz; if (dyn && var) a.skip = true; for (size_t j = 0; j < nnz; j++) if (kind[j] == 1 || kind[j] == 2 || kind[j] == 4) a.jac = false; }
    return a;
}
static const char* kind_name[] = {"variable", "dynamic", "constant", "product", "zero"};
static void record_call(const std::function<void(const V1&, V1&)>& call, size_t n, size_t m, const std::vector<int>& kind, int use, FunD& f) {
    V1 x(2), p(2); x[0] = 0.3; x[1] = 0.7; p[0] = 0.45; p[1] = -0.8; CppAD::Independent(x, size_t(0), true, p); V1 a(n), y(m), z;
    for (size_t j = 0; j < n; j++) { double c = 1.0 + 0.25 * j; switch (kind[j]) { case 0: a[j] = use == 1 ? x[j % 2] : x[j % 2] * c; break; case 1: a[j] = use == 1 ? p[j % 2] : p[j % 2] * c; break; case 2: a[j] = 0.5 + 0.3 * j; break; case 3: a[j] = x[0] * x[1] + 0.2 * c; break; default: a[j] = 0.0; } }
    call(a, y);
    if (use == 0 || use == 1) z = y;
    else { z.push_back(y[m - 1]); z.push_back(CondExpLt(x[0], x[1], y[0] * x[1], x[0])); }     // some results only, one only in a branch
    f.Dependent(x, z);
}
static string compare(Run& R, const Atom& A, const std::vector<int>& k, int use, const Avoid& av, uint64_t& h) {
    bool th = R.thorough(); string e;
    try {
        FunD a, b, ph; if (A.pat) record_call(A.pat, A.n, A.m, k, use, ph); record_call(A.inl, A.n, A.m, k, use, a); record_call(A.call, A.n, A.m, k, use, b); a.check_for_nan(false); b.check_for_nan(false); FunD c; c = b; bool zero = false; for (int q : k) zero |= q == 4;
        for (size_t i = 0; i < a.Range() && e.empty(); i++) if (b.Parameter(i) && !a.Parameter(i)) e = fmt("Parameter(%zu) is %d, inline %d", i, b.Parameter(i), a.Parameter(i));
        size_t np = th && av.zero_dyn ? 4 : 2;   // the other points have zero dynamic parameters
        if (e.empty()) e = values(R, a, b, np, h, A.K, av.Q, A.rel, A.abs); if (e.empty()) e = pats(R, a, b, A.exact && !zero, true, A.pat ? &ph : nullptr, av.jac, av.hes);
        if (e.empty()) { FunD d; d = c; d.optimize(); e = values(R, a, d, 2, h, A.K > 1 ? 2 : 1, av.Q, A.rel, A.abs); if (e.empty()) e = pats(R, a, d, false, true, A.pat ? &ph : nullptr, av.jac && av.optpat, av.hes && av.optpat); if (e.size()) e = "after optimize: " + e; }
        if (e.empty() && A.base2ad) for (int rv = 0; rv < 2 && e.empty(); rv++) { if (!(rv ? av.rev2ad : av.fwd2ad)) continue; FunD ja, jb; jacfun(a, ja, rv, A.K); jacfun(c, jb, rv, A.K); ja.check_for_nan(false); jb.check_for_nan(false); e = values(R, ja, jb, 2, h, A.K > 1 ? 2 : 1, av.Q, A.rel * 10, A.abs * 10); if (e.size()) e = fmt("derivatives recorded by base2ad (%s): ", rv ? "reverse" : "forward") + e; }
    } catch (std::exception& x) { AD1::abort_recording(); e = x.what(); }
    return e;
}
// One example of each defect of the example headers. They are listed in known_findings.txt, because examples are not to be changed.
struct Finding { const char *atom, *what; std::vector<int> k; Avoid av; int use = 0; };
static std::vector<Finding> findings() {
    auto only = [](bool jac, bool hes, size_t Q, bool fwd, bool rev) { Avoid a; a.jac = jac; a.hes = hes; a.optpat = false; a.Q = Q; a.fwd2ad = fwd; a.rev2ad = rev; return a; };
    return {
        {"vector div 1", "Hessian pattern", {0, 0}, only(false, true, 1, false, false)},
        {"vector mul 1", "Hessian pattern, select_x", {0, 0}, only(false, true, 1, false, false)},
        {"mat_mul 2 2 1", "reverse orders above one", {0, 0, 0, 0, 0, 0}, only(false, false, 0, false, false), 2},
        {"mat_mul 1 1 1", "reverse orders above one", {0, 0}, only(false, false, 0, false, false), 2},
        {"mat_mul 1 1 2", "Jacobian pattern", {2, 4, 0}, only(true, false, 1, false, false)},
        {"mat_mul 1 2 1", "dynamic results in base2ad", {0, 1, 4, 1}, only(false, false, 1, true, true)},
        {"three mat_mul 1 2 1", "size check", {0, 0, 0, 0}, only(false, false, 1, false, false)},
        {"lin_ode 2 pattern 15 transpose 0 r 0.1", "reverse", {0, 0, 0, 0, 0, 0}, only(false, false, 1, false, false)},
        {"lin_ode 2 pattern 2 transpose 0 r 0.1", "base2ad reverse", {0, 0, 0}, only(false, false, 99, false, true)},
        {"lin_ode 2 pattern 2 transpose 0 r 0.1", "dynamic results", {0, 1, 1}, only(false, false, 99, false, false)},
        {"lin_ode 2 pattern 15 transpose 0 r 0.1", "Jacobian pattern with parameter elements", {2, 2, 2, 2, 0, 0}, only(true, false, 99, false, false)},
        {"lin_ode 2 pattern 15 transpose 0 r 0.1", "Hessian pattern, select_x", {0, 0, 0, 0, 0, 0}, only(false, true, 99, false, false)},
        {"three mat_mul 2 2 1", "dynamic results", {0, 1, 0, 1, 4, 1}, only(false, false, 1, false, false)},
        {"lin_ode 2 pattern 6 transpose 1 r 0.25", "base2ad forward after the other pattern order", {0, 0, 0, 0}, only(false, false, 99, true, false)},
    };
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(throw_handler); (void)the_atom(); (void)the_mix();
    return guarded_main(R, [&] {
        bool th = R.thorough();
        if (R.has_arg("finding")) { R.family("finding"); auto all = atoms(R);
            for (auto& F : findings()) for (auto& A : all) if (A.name == F.atom) { if (!R.next([&] { return A.name + ": " + F.what; })) continue; uint64_t h = 1; if (string(F.what).find("after the other") != string::npos) for (auto& B : all) if (B.name == "lin_ode 2 pattern 6 transpose 0 r 0.25") compare(R, B, F.k, 0, F.av, h);
                string e = compare(R, A, F.k, F.use, F.av, h); if (e.size()) R.fail(e); R.outcome(h); }
            return; }
        for (auto& A : atoms(R)) { if (!R.family(A.name)) continue;
            std::vector<std::vector<int>> kinds; int nk = th ? 5 : 4; double tot = std::pow(nk, double(A.n));
            if (tot <= (th ? 5000 : 300)) { for (uint64_t c = 0; c < uint64_t(tot); c++) { uint64_t r = c; std::vector<int> k; for (size_t j = 0; j < A.n; j++) { k.push_back(r % nk); r /= nk; } kinds.push_back(k); } }
            else { std::set<std::vector<int>> s; for (int base = 0; base < 3; base++) for (int other = 0; other < 4; other++) for (size_t i = 0; i < A.n; i++) for (size_t j = i; j < (th || A.n < 7 ? A.n : i + 1); j++) { std::vector<int> k(A.n, base); k[i] = k[j] = other; s.insert(k); } for (uint64_t c = 0; c < (1u << A.n); c++) { std::vector<int> k; for (size_t j = 0; j < A.n; j++) k.push_back(c >> j & 1 ? 0 : 2 - (c & 1)); if (th || c % 3 == 0) s.insert(k); } kinds.assign(s.begin(), s.end()); }
            for (auto& k : kinds) for (int use = 0; use < 3; use++) { Avoid av = avoid(A.name, A.n, A.m, k); if (av.skip) continue; if (A.Q == 1 && av.Q == 0) av.Q = A.Q;
                if (!R.next([&] { string s = fmt("use %d; arguments", use); for (int q : k) s += string(" ") + kind_name[q]; return s; })) continue;
                uint64_t h = 1469598103934665603ull; string e = compare(R, A, k, use, av, h);
                if (e.size()) R.fail(e); R.outcome(h);
            } }
    });
}
