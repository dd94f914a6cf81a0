// C32: PrintFor: all kinds of first argument and value, texts, one to three calls, every transformation, all signs.
#include "vfc.hpp"
#include <iostream>
using namespace vf; using CppAD::AD; using CppAD::ADFun; using std::string; using std::vector;
static const int NK = 12;   // kinds of notpos and value
static const char* kn[] = {"-1.5", "0", "2.25", "p0", "p0+p1", "x0", "x0*x1+p0", "x0-x1", "v[0]", "v[i(x0)]", "branch", "none"};
struct Pr { int np, va; string before, after; };
static double val(int k, const double* x, const double* p) {
    switch (k) { case 0: return -1.5; case 1: return 0; case 2: return 2.25; case 3: return p[0]; case 4: return p[0] + p[1]; case 5: return x[0]; case 6: return x[0] * x[1] + p[0]; case 7: return x[0] - x[1];
        case 8: return x[1]; case 9: return x[0] > 0 ? p[1] : x[1]; case 10: return x[0] * 3.0; default: return 0; }
}
template <class A, class Vec> static void print(const Pr& q, const vector<A>& kv, Vec& v, const A& zero, const A& ind) {
    if (q.np == 11) { if (q.va == 8) PrintFor(q.before.c_str(), v[zero]); else if (q.va == 9) PrintFor(q.before.c_str(), v[ind]); else PrintFor(q.before.c_str(), kv[q.va]); return; }
    bool rn = q.np == 8 || q.np == 9, rv = q.va == 8 || q.va == 9; const A& in = q.np == 8 ? zero : ind; const A& iv = q.va == 8 ? zero : ind;
    if (rn && rv) PrintFor(v[in], q.before.c_str(), v[iv], q.after.c_str()); else if (rn) PrintFor(v[in], q.before.c_str(), kv[q.va], q.after.c_str());
    else if (rv) PrintFor(kv[q.np], q.before.c_str(), v[iv], q.after.c_str()); else PrintFor(kv[q.np], q.before.c_str(), kv[q.va], q.after.c_str());
}
static bool has(const vector<Pr>& l, std::initializer_list<int> ks) { for (auto& q : l) for (int k : ks) if (q.np == k || q.va == k) return true; return false; }
// place: 0 all at the end, 1 operations between the calls, 2 all calls before the operations of the result
template <class A, class B> static void record(const vector<Pr>& l, int place, ADFun<B>& f) {
    vector<A> x(2), p(2), y(2); x[0] = 0.5; x[1] = 1.25; p[0] = -0.75; p[1] = 0.375; CppAD::Independent(x, size_t(0), false, p);
    A zero = A(0), ind = A(0); CppAD::VecAD<B> v(2); bool vec = has(l, {8, 9}); if (vec) { v[zero] = x[1]; v[A(1)] = p[1]; if (has(l, {9})) ind = CondExpGt(x[0], zero, A(1), zero); }
    vector<A> kv(12); kv[0] = -1.5; kv[1] = 0; kv[2] = 2.25; if (has(l, {3, 4})) kv[3] = p[0]; if (has(l, {4})) kv[4] = p[0] + p[1]; kv[5] = x[0]; kv[6] = x[0] * x[1] + p[0]; if (has(l, {7})) kv[7] = x[0] - x[1]; kv[10] = x[0] * A(3);
    auto rest = [&] { y[0] = kv[6] * x[1]; y[1] = CondExpLt(x[0], x[1], kv[10] + A(1), x[1]); };
    if (place == 2) rest(); size_t i = 0; for (auto& q : l) { print(q, kv, v, zero, ind); if (place == 1 && i++ == 0) rest(); } if (place == 0 || l.empty()) rest();
    f.Dependent(x, y);
}
static string expected(const vector<Pr>& l, const double* x, const double* p, bool once = false, int prec = 6) {
    std::ostringstream s; s.precision(prec); for (size_t i = 0; i < l.size(); i++) { auto& q = l[i]; bool dup = false; if (once) for (size_t j = 0; j < i; j++) dup |= (l[j].np % 11 == q.np % 11 || (l[j].np == 11 && q.np == 1) || (l[j].np == 1 && q.np == 11)) && l[j].va == q.va && l[j].before == q.before && (l[j].np == 11 ? "" : l[j].after) == (q.np == 11 ? "" : q.after); if (dup) continue; if (!(val(q.np, x, p) > 0)) s << q.before << val(q.va, x, p) << (q.np == 11 ? "" : q.after); } return s.str();
}
#include <regex>
static string quote(const string& s) { return s.find('\n') != string::npos ? quote(std::regex_replace(s, std::regex("\n"), "\\n")) : s.size() > 60 ? "'" + s.substr(0, 60) + "..." + fmt("' (%zu)", s.size()) : "'" + s + "'"; }
struct Cout { std::ostringstream s; std::streambuf* old; Cout() { old = std::cout.rdbuf(s.rdbuf()); } ~Cout() { std::cout.rdbuf(old); } };
static const double PV[3] = {-1.5, 0.0, 2.125};
static string run(Run& R, ADFun<double>& f, const vector<Pr>& l, bool removed, bool once, int npt, uint64_t& h) {
    Cout c; f.check_for_nan(false); vector<double> w(2, 1.0), dx(2, 0.5), xq(6);
    for (int ip = 0; ip < npt; ip++) { int q = npt == 81 ? ip : (ip * 10 + ip / 3) % 81; double x[2] = {PV[q % 3], PV[q / 3 % 3]}, p[2] = {PV[q / 9 % 3], PV[q / 27 % 3]}; vector<double> vx(x, x + 2), vp(p, p + 2);
        string e = removed ? "" : expected(l, x, p, once); auto at = [&] { return fmt(" at x = %g %g, p = %g %g", x[0], x[1], p[0], p[1]); };
        f.new_dynamic(vp); std::ostringstream s; f.Forward(0, vx, s); R.comparisons++; if (once && s.str() != e) { string full = expected(l, x, p); if (s.str() == full) { once = false; e = full; } }   // equal prints of values that are not known to be equal
        h = hash_bytes(e.data(), e.size(), h); if (s.str() != e) return "Forward(0, x, s) prints " + quote(s.str()) + ", expected " + quote(e) + at();
        f.Forward(1, dx, s); f.Reverse(2, w); if (s.str() != e) return "Forward(1, dx, s) prints" + at();
        std::ostringstream t; for (int j = 0; j < 2; j++) { xq[3 * j] = x[j]; xq[3 * j + 1] = 0.5; xq[3 * j + 2] = -1; } f.Forward(2, xq, t); R.comparisons++; if (t.str() != e) return "Forward(2, xq, s) prints " + quote(t.str()) + ", expected " + quote(e) + at();
        if (c.s.str().size()) return "something was printed on the standard output: " + quote(c.s.str()) + at();
        f.Forward(0, vx); R.comparisons++; if (c.s.str() != e) return "Forward(0, x) prints " + quote(c.s.str()) + " on the standard output, expected " + quote(e) + at(); c.s.str("");
        std::ostringstream u; u.precision(12); u << 0.125 << "-"; f.Forward(0, vx, u); string e2 = "0.125-" + (removed ? string() : expected(l, x, p, once, 12)); R.comparisons++; if (u.str() != e2) return "second Forward(0, x, s) prints " + quote(u.str()) + ", expected " + quote(e2) + at();
    }
    vector<bool> sel(2, true); CppAD::sparse_rc<vector<size_t>> id(2, 2, 2), out; id.set(0, 0, 0); id.set(1, 1, 1); f.for_jac_sparsity(id, false, false, false, out); f.rev_jac_sparsity(id, false, false, false, out); f.rev_hes_sparsity(sel, false, false, out); f.for_hes_sparsity(sel, sel, false, out); f.subgraph_jac_rev(sel, sel, vector<double>(2, 0.5), *std::make_unique<CppAD::sparse_rcv<vector<size_t>, vector<double>>>());
    if (c.s.str().size() && (f.size_order() == 0 || true)) { string a = c.s.str(); double x[2] = {0.5, 0.5}; (void)x; if (a.size()) { /* subgraph_jac_rev evaluates order zero at its argument */ double p[2] = {0, 0}; int q = npt == 81 ? 80 : ((npt - 1) * 10 + (npt - 1) / 3) % 81; p[0] = PV[q / 9 % 3]; p[1] = PV[q / 27 % 3]; if (a != (removed ? "" : expected(l, x, p, once))) return "sparsity or subgraph calculation prints " + quote(a); } }
    return "";
}
static string all(Run& R, const vector<Pr>& l, int place, int npt, uint64_t& h, bool th) {
    Cout outer;   // sees what recording, optimize and conversions print
    ADFun<double> f; record<AD<double>>(l, place, f); bool vec = has(l, {8, 9}); string e = run(R, f, l, false, false, npt, h); if (e.size()) return "as recorded: " + e;
    ADFun<double> fresh; record<AD<double>>(l, place, fresh);
    struct T { const char* name; const char* opt; bool removed, once; }; static const T ts[] = {{"optimize", "", false, false}, {"optimize no_print_for_op", "no_print_for_op", true, false}, {"optimize no_conditional_skip no_compare_op", "no_conditional_skip no_compare_op", false, false}, {"optimize val_graph", "val_graph no_conditional_skip", false, true}, {"optimize val_graph no_print_for_op", "val_graph no_print_for_op no_conditional_skip", true, true}, {"optimize no_cumulative_sum_op collision_limit=1", "no_cumulative_sum_op collision_limit=1", false, false}};
    for (auto& t : ts) { ADFun<double> g; g = fresh; g.optimize(t.opt); e = run(R, g, l, t.removed, t.once, npt, h); if (e.size()) return string(t.name) + ": " + e; }
    { ADFun<double> g, k; g = f; e = run(R, g, l, false, false, th ? npt : 2, h); if (e.size()) return "copy: " + e; k.swap(g); e = run(R, k, l, false, false, 2, h); if (e.size()) return "swap: " + e; }
    if (!vec) for (int o = 0; o < 2; o++) { ADFun<double> a; a = fresh; if (o) a.optimize("no_conditional_skip"); CppAD::cpp_graph cg; a.to_graph(cg); ADFun<double> g, j; g.from_graph(cg); e = run(R, g, l, false, false, npt, h); if (e.size()) return (o ? "graph of optimized: " : "graph: ") + e; bool nul = false; for (auto& q : l) nul |= q.before.find('"') != string::npos; if (nul) continue; j.from_json(a.to_json()); e = run(R, j, l, false, false, npt, h); if (e.size()) return (o ? "JSON of optimized: " : "JSON: ") + e; }
    { Cout c; auto g = fresh.base2ad(); typedef AD<double> A; vector<A> ax(2), ap(2), ay; for (int ip = 0; ip < 3; ip++) { double x[2] = {PV[ip], PV[(ip + 1) % 3]}, p[2] = {PV[(ip * 2 + 1) % 3], PV[ip]}; for (int j = 0; j < 2; j++) { ax[j] = x[j]; ap[j] = p[j]; } bool fix = has(l, {9});
            // base2ad keeps the VecAD indices of the recording
            std::ostringstream s; g.new_dynamic(ap); if (!fix) { g.Forward(0, ax, s); R.comparisons++; string e = expected(l, x, p); if (s.str() != e) return "base2ad Forward(0, ax, s) prints " + quote(s.str()) + ", expected " + quote(e); }
            CppAD::Independent(ax); std::ostringstream t; ay = g.Forward(0, ax, t); ADFun<double> r(ax, ay); R.comparisons++; string e = expected(l, x, p); if (!fix && t.str() != e) return "base2ad while recording prints " + quote(t.str()) + ", expected " + quote(e); std::ostringstream u; r.Forward(0, vector<double>(x, x + 2), u); if (u.str().size()) return "function recorded from base2ad prints " + quote(u.str()); if (c.s.str().size()) return "base2ad prints on the standard output"; } }
    { Cout c; typedef AD<double> A; ADFun<A> g; record<AD<A>>(l, place, g); vector<A> ax(2), ap(2); for (int ip = 0; ip < 3; ip++) { double x[2] = {PV[ip], PV[(ip + 1) % 3]}, p[2] = {PV[(ip * 2 + 1) % 3], PV[ip]}; for (int j = 0; j < 2; j++) { ax[j] = x[j]; ap[j] = p[j]; } g.new_dynamic(ap); std::ostringstream s; g.Forward(0, ax, s); R.comparisons++; string e = expected(l, x, p); if (s.str() != e) return "AD<AD<double>> Forward(0, ax, s) prints " + quote(s.str()) + ", expected " + quote(e); } }
    { typedef AD<double> A; vector<A> kv(12, A(-1)); CppAD::VecAD<double> v(2); v[0] = 1.0; v[1] = 2.0; Cout c; for (auto& q : l) print(q, kv, v, A(0), A(1)); if (c.s.str().size()) return "PrintFor without a recording prints"; }
    if (outer.s.str().size()) return "recording, optimize, copy or conversion prints " + quote(outer.s.str());
    return "";
}
static string dsc(const vector<Pr>& l, int place) { string s = fmt("place %d", place); for (auto& q : l) s += fmt("; PrintFor(%s, %s, %s, %s)", kn[q.np], quote(q.before).c_str(), kn[q.va], quote(q.after).c_str()); return s; }
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(throw_handler);
    return guarded_main(R, [&] {
        bool th = R.thorough();
        auto one = [&](const vector<Pr>& l, int place, int npt) { if (!R.next([&] { return dsc(l, place); })) return; uint64_t h = 1469598103934665603ull; string e; try { e = all(R, l, place, npt, h, th); } catch (std::exception& x) { AD<double>::abort_recording(); AD<AD<double>>::abort_recording(); e = x.what(); } if (e.size()) R.fail(e); R.outcome(h); };
        vector<std::pair<string, string>> txt = {{"a=", ";"}, {"", ""}, {"line\nb\tc = ", "\n"}, {"", " end"}, {string(1000, 'z'), string(1000, 'y')}, {"a{}[],: 1.5e3 ", " //\\n'%s"}};
        if (R.family("one")) for (int a = 0; a < NK; a++) for (int b = 0; b < NK - 1; b++) for (size_t t = 0; t < txt.size(); t++) for (int place = 0; place < 3; place++) { if (t && place && !th) continue; one({{a, b, txt[t].first, txt[t].second}}, place, t == 0 || th ? 81 : 9); }
        if (R.family("two")) for (int a = 0; a < NK; a++) for (int b = 0; b < NK - 1; b++) for (int c = 0; c < NK; c++) for (int d = 0; d < NK - 1; d++) { if (!th && (a * 7 + b * 3 + c * 5 + d) % 6) { if (!(a == c && b == d)) continue; } one({{a, b, "a", "b\n"}, {c, d, (a + b + c) % 2 ? "a" : "cc ", "b\n"}}, (a + c) % 3, 3); }
        if (R.family("three")) { static const int ka[] = {1, 3, 6, 7}, kb[] = {4, 5, 7, 10}; for (int i = 0; i < 4096; i++) { if (!th && i % 4 != (i / 16) % 4) continue; vector<Pr> l; int q = i; for (int k = 0; k < 3; k++) { l.push_back({ka[q % 4], kb[q / 4 % 4], string(1, 'a' + k % 2), k == 1 ? "" : "/"}); q /= 16; } one(l, 1, 3); } }
        if (R.family("limits")) for (int w = 0; w < 4; w++) { if (!R.next([&] { return fmt("text of 1001 characters, case %d", w); })) continue; typedef AD<double> A; vector<A> x(1, A(1)); CppAD::Independent(x); string big(1001, 'q'); bool ok = false; try { if (w == 0) PrintFor(big.c_str(), x[0]); else if (w == 1) PrintFor(x[0], big.c_str(), x[0], ""); else if (w == 2) PrintFor(x[0], "", x[0], big.c_str()); else { A k(1); PrintFor(k, big.c_str(), k, big.c_str()); } } catch (CppadError& e) { ok = e.known; } A::abort_recording(); R.comparisons++; if (!ok) R.fail("text of 1001 characters is not reported as a known error"); R.outcome(w); }
    });
}
