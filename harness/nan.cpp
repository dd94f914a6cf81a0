// C34: nan checking: reported exactly when a returned value is nan, message and file, and the setting through every operation.
#include "vfc.hpp"
#include <cstring>
#include <unistd.h>
#include <fstream>
using namespace vf; using CppAD::AD; using std::string; using std::vector; typedef CppAD::ADFun<double> F; typedef AD<double> A;
static const double NaN = std::nan(""), Inf = INFINITY;
static const double XV[] = {1.0, 0.0, -1.0, Inf, NaN, 0.5};
static bool anynan(const vector<double>& v) { for (double d : v) if (std::isnan(d)) return true; return false; }
static const int NC = 13;
static const char* cname[] = {"x0", "sqrt(x0)", "log(x1)", "x0/x1", "p0*log(x0)", "CondExp(x0<x1, sqrt(x0), x1)", "v[i]", "nan", "azmul(x0,log(x1))", "pow(x0,x1)", "p1/p0", "x0-x0*x1", "atan2(x1,x0)"};
static A comp(int c, const vector<A>& x, const vector<A>& p, CppAD::VecAD<double>& v, bool vec) {
    switch (c) { case 0: return x[0]; case 1: return sqrt(x[0]); case 2: return log(x[1]); case 3: return x[0] / x[1]; case 4: return p[0] * log(x[0]); case 5: return CondExpLt(x[0], x[1], sqrt(x[0]), x[1]);
        case 6: if (vec) return v[CondExpGt(x[0], A(0), A(1), A(0))]; return x[0]; case 7: return A(NaN); case 8: return azmul(x[0], log(x[1])); case 9: return pow(x[0], x[1]); case 10: return p[1] / p[0]; case 11: return x[0] - x[0] * x[1]; default: return atan2(x[1], x[0]); }
}
static void record(F& f, const vector<int>& cs) {
    vector<A> x(2), p(2), y; x[0] = 0.5; x[1] = 2.0; p[0] = 1.0; p[1] = 0.25; CppAD::Independent(x, size_t(0), false, p); bool vec = false; for (int c : cs) vec |= c == 6;
    CppAD::VecAD<double> v(2); if (vec) { v[A(0)] = x[1] * 2.0; v[A(1)] = sqrt(x[1]); } A unused = log(x[0] - 10.0) + sqrt(x[1] - 10.0); (void)unused; for (int c : cs) y.push_back(comp(c, x, p, v, vec)); f.Dependent(x, y);
}
// runs a call on the function that checks; ref is what the function that does not check returns
template <class G> static bool reported(G g, CppadError** out, vector<double>& y) { static std::unique_ptr<CppadError> keep; *out = nullptr; try { y = g(); } catch (CppadError& e) { keep.reset(new CppadError(e)); *out = keep.get(); return true; } return false; }
static string msg_check(const CppadError& e, const vector<double>& x, size_t index) {
    auto field = [&](const string& k) { size_t i = e.msg.find(k + " = "); if (i == string::npos) return string("?"); i += k.size() + 3; size_t j = e.msg.find('\n', i); return j == string::npos ? string("?") : e.msg.substr(i, j - i); };
    string file = field("file_name"); CppAD::vector<double> v(x.size()); for (size_t j = 0; j < v.size(); j++) v[j] = 77; bool ok = file != "?" && access(file.c_str(), R_OK) == 0; if (ok) { CppAD::get_check_for_nan(v, file); std::ifstream t(file, std::ios::ate | std::ios::binary); ok = size_t(t.tellg()) == 8 * x.size(); unlink(file.c_str()); }
    if (!ok) return "file of the message cannot be read: " + file; if (field("vector_size") != fmt("%zu", x.size())) return "vector_size = " + field("vector_size"); if (field("index") != fmt("%zu", index)) return "index = " + field("index") + fmt(", expected %zu", index);
    for (size_t j = 0; j < x.size(); j++) if (memcmp(&v[j], &x[j], 8) && !(std::isnan(v[j]) && std::isnan(x[j]))) return fmt("file has %g for independent %zu, expected %g", v[j], j, x[j]); return "";
}
static string one_call(Run& R, F& f, F& r, std::function<vector<double>(F&)> call, const string& what, const vector<double>* x0, uint64_t& h, bool* bad) {
    vector<double> a, b; CppadError* e; bool rb = reported([&] { return call(r); }, &e, b); if (rb) return what + " with checking off: " + e->what();
    bool want = anynan(b), got = reported([&] { return call(f); }, &e, a); R.comparisons++; h = hash_bytes(&want, 1, h); if (bad) *bad = got;
    if (got != want) return what + (got ? string(" reports: ") + e->what() + "; no returned value is nan" : " does not report a nan");
    if (got && !e->known) return what + " is not a known error: " + e->what();
    bool file = got && e->msg.find("file_name = ") != string::npos;
    if (got && x0 && file) { size_t index = 0, m = b.size(); (void)m; size_t q1 = b.size() / r.Range(); bool zero = false; for (size_t i = 0; i < r.Range() && !zero; i++) if (std::isnan(b[i * q1])) { index = i; zero = true; } if (!zero) return what + ": zero order message, but no zero order value is nan"; string s = msg_check(*e, *x0, index); if (s.size()) return what + ": " + s; }
    else if (file) return what + " writes a file";
    else if (got && x0) { size_t q1 = b.size() / r.Range(); for (size_t i = 0; i < r.Range(); i++) if (std::isnan(b[i * q1])) return what + ": no file for a nan zero order value"; }
    if (!got) for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return what + fmt(" component %zu is %g, with checking off %g", i, a[i], b[i]);
    return "";
}
static string calls(Run& R, F& f, uint64_t& h, bool th) {
    F r; r = f; r.check_for_nan(false); if (!f.check_for_nan() || r.check_for_nan()) return "setting not kept";
    size_t m = f.Range(); string e; bool bad;
    for (double p0 : {1.0, 0.0}) for (double a : XV) for (double b : XV) { vector<double> x{a, b}, p{p0, 0.0 * p0}; f.new_dynamic(p); r.new_dynamic(p); string at = fmt(" at x = %g %g, p0 = %g", a, b, p0);
        e = one_call(R, f, r, [&](F& g) { return g.Forward(0, x); }, "Forward(0)", &x, h, &bad); if (e.size()) return e + at;
        for (double d : {1.0, NaN}) { vector<double> xq{a, d, 0.5, b, -1.0, d}; e = one_call(R, f, r, [&](F& g) { return g.Forward(2, xq); }, "Forward(2, xq)", &x, h, nullptr); if (e.size()) return e + at; if (!bad) { vector<double> x1{d, 0.25}; e = one_call(R, f, r, [&](F& g) { g.Forward(0, x); return g.Forward(1, x1); }, "Forward(1)", nullptr, h, nullptr); if (e.size()) return e + at;
            vector<double> xr{d, 1.0, 0.5, 0.0}; e = one_call(R, f, r, [&](F& g) { g.Forward(0, x); return g.Forward(1, 2, xr); }, "Forward(1, 2, xq)", nullptr, h, nullptr); if (e.size()) return e + at; } }
        if (bad) continue;
        for (double w0 : {1.0, 0.0, NaN}) { vector<double> w(m, 1.0); w[0] = w0; e = one_call(R, f, r, [&](F& g) { g.Forward(0, x); return g.Reverse(1, w); }, "Reverse(1)", nullptr, h, nullptr); if (e.size()) return e + at;
            vector<double> x1{1.0, 0.5}, w2(2 * m, 0.5); w2[0] = w0; vector<double> t; CppadError* er; if (reported([&] { f.Forward(0, x); return f.Forward(1, x1); }, &er, t)) continue; e = one_call(R, f, r, [&](F& g) { g.Forward(0, x); g.Forward(1, x1); return g.Reverse(2, w2); }, "Reverse(2)", nullptr, h, nullptr); if (e.size()) return e + at; }
        for (size_t ell = 0; ell < m; ell++) for (int pre = 0; pre < 2; pre++) { e = one_call(R, f, r, [&](F& g) { g.Forward(0, x); g.subgraph_reverse(vector<bool>(2, true)); vector<double> dw(2, pre ? NaN : 0.0), o; vector<size_t> col; g.subgraph_reverse(1, ell, col, dw); for (size_t c : col) o.push_back(dw[c]); return o; }, pre ? "subgraph_reverse, result vector containing nan" : "subgraph_reverse", nullptr, h, nullptr); if (e.size()) return e + at;
            if (pre) e = one_call(R, f, r, [&](F& g) { g.Forward(0, x); g.subgraph_reverse(vector<bool>(2, true)); { CppAD::vector<double> junk(2); junk[0] = junk[1] = NaN; } CppAD::vector<double> dw; vector<double> o; vector<size_t> col; g.subgraph_reverse(1, ell, col, dw); for (size_t c : col) o.push_back(dw[c]); return o; }, "subgraph_reverse, CppAD::vector", nullptr, h, nullptr); if (e.size()) return e + at; }
        if (!th) continue;
        e = one_call(R, f, r, [&](F& g) { return g.Jacobian(x); }, "Jacobian", nullptr, h, nullptr); if (e.size() && e.find("file") == string::npos) return e + at; }
    return "";
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(throw_handler);
    return guarded_main(R, [&] {
        bool th = R.thorough();
        if (R.family("values")) for (int a = 0; a < NC; a++) for (int b = -1; b < NC; b++) for (int t = 0; t < 3; t++) {
            if (!R.next([&] { return string(cname[a]) + (b < 0 ? "" : string(", ") + cname[b]) + (t == 0 ? "" : t == 1 ? ", optimized" : ", base2ad of AD<AD<double>> recording"); })) continue; uint64_t h = 1469598103934665603ull; string e;
            try { F f; vector<int> cs{a}; if (b >= 0) cs.push_back(b); record(f, cs); if (t == 1) f.optimize(); if (t == 2) { f.check_for_nan(false); auto g = f.base2ad(); vector<A> x(2), p(2); x[0] = 0.5; x[1] = 2; p[0] = 1; p[1] = 0.25; CppAD::Independent(x, size_t(0), false, p); g.new_dynamic(p); vector<A> y = g.Forward(0, x); F k; k.Dependent(x, y); f = k; } e = calls(R, f, h, th); } catch (std::exception& x) { A::abort_recording(); e = x.what(); }
            if (e.size()) R.fail(e); R.outcome(h); }
        if (R.family("constructor")) for (int a = 0; a < NC; a++) for (double u : XV) for (double w : XV) { if (!R.next([&] { return fmt("ADFun(x, y) of %s at %g %g", cname[a], u, w); })) continue; vector<A> x(2), p(2), y(1); x[0] = u; x[1] = w; p[0] = 1.0; p[1] = 0.0; string e; bool isn = false, rep = false; if (std::isnan(u) || std::isnan(w)) { R.outcome(2); continue; }
            try { CppAD::Independent(x, size_t(0), false, p); CppAD::VecAD<double> v(2); if (a == 6) { v[A(0)] = x[1] * 2.0; v[A(1)] = sqrt(x[1]); } y[0] = comp(a, x, p, v, a == 6); isn = CppAD::isnan(Value(Var2Par(y[0]))); try { F f(x, y); } catch (CppadError& c) { rep = true; if (!c.known) e = c.what(); A::abort_recording(); } } catch (std::exception& c) { e = c.what(); A::abort_recording(); }
            R.comparisons++; if (e.empty() && rep != isn) e = rep ? "reported, but the value is not nan" : "nan not reported"; if (e.size()) R.fail(e); R.outcome(isn); }
        if (R.family("setting")) { static const int NO = 15; static const char* on[] = {"f.check(false)", "f.check(true)", "f.optimize", "g = f", "f.swap(g)", "f.Dependent", "g.check(false)", "f = g", "f.from_graph(g)", "f.from_json(g)", "f.optimize(val_graph)", "f = move(g)", "base2ad", "f.Forward", "f.new_dynamic"};
            int depth = th ? 5 : 4; uint64_t tot = 1; for (int i = 0; i < depth; i++) tot *= NO;
            for (uint64_t c = 0; c < tot; c++) { if (!R.next([&] { string s; uint64_t q = c; for (int i = 0; i < depth; i++) { s += string(i ? "; " : "") + on[q % NO]; q /= NO; } return s; })) continue; string e; uint64_t h = 0;
                try { static F base, based; static bool init = false; if (!init) { record(base, {0, 3}); record(based, {1}); init = true; } F f, g; bool bf = true, bg = true; f = base; g = based; uint64_t q = c;
                    for (int i = 0; i < depth && e.empty(); i++) { int o = q % NO; q /= NO;
                        switch (o) { case 0: f.check_for_nan(false); bf = false; break; case 1: f.capacity_order(0); /* optimize repeats the zero order calculation of stored coefficients */ f.check_for_nan(true); bf = true; break; case 2: f.optimize(); break; case 3: g = f; bg = bf; break; case 4: f.swap(g); std::swap(bf, bg); break; case 5: record(f, {11}); break; case 6: g.check_for_nan(false); bg = false; break; case 7: f = g; bf = bg; break;
                            case 8: case 9: { F k; k = g; if (o == 8) { CppAD::cpp_graph cg; k.to_graph(cg); f.from_graph(cg); } else f.from_json(k.to_json()); if (k.check_for_nan() != bg) e = "to_graph changes the setting"; break; }
                            case 10: f.optimize("val_graph no_conditional_skip"); break; case 11: { F k; k = g; f = std::move(k); bf = bg; break; } case 12: { auto b = f.base2ad(); R.comparisons++; if (b.check_for_nan() != bf) e = "base2ad does not keep the setting"; break; }
                            case 13: { bool rep = false; try { f.Forward(0, vector<double>(2, NaN)); } catch (CppadError& x) { rep = true; size_t k = x.msg.find("file_name = "); if (k != string::npos) { k += 12; unlink(x.msg.substr(k, x.msg.find('\n', k) - k).c_str()); } } R.comparisons++; if (rep != bf) e = bf ? "nan not reported" : "nan reported with checking off"; break; }
                            default: f.new_dynamic(vector<double>(f.size_dyn_ind(), 1.0)); }
                        R.comparisons += 2; if (e.empty() && (f.check_for_nan() != bf || g.check_for_nan() != bg)) e = fmt("setting is %d, %d, expected %d, %d", f.check_for_nan(), g.check_for_nan(), bf, bg); if (e.size()) e += fmt(" at operation %d", i + 1); h = h * 4 + bf * 2 + bg; } } catch (std::exception& x) { A::abort_recording(); e = x.what(); }
                if (e.size()) R.fail(e); R.outcome(h); } }
    });
}
