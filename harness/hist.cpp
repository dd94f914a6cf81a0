// C21: every sequence of operations on a function object (and a second one it is copied to, swapped with and moved to),
// each result compared with that of a fresh object that was given only what the documentation says the result depends on.
#include "adhook.hpp"
#include <map>
#include <sstream>
using namespace vf; using namespace adhook;
using std::string; using std::vector; using CppAD::ADFun; using CppAD::AD;
typedef vector<double> Vec; typedef vector<bool> VB; typedef vector<size_t> VS; typedef vector<std::set<size_t>> VSet; typedef CppAD::sparse_rc<VS> RC; typedef CppAD::sparse_rcv<VS, Vec> RCV;
typedef ADFun<double> F;
static const Vec XA{0.6, 1.75}, XB{1.4, 0.25}, U{1.0, -0.5}, W{0.25, 2.0}, Z{-0.75, 0.5}, W3{1.0, -2.0, 0.5};
static const Vec PA{1.0, -0.5}, PB{2.0, 1.25};
// ------------------------------------------------------------------ recordings: 2 independents, 3 dependents, 2 or 0 dynamics
static CppAD::chkpoint_two<double>& chk() {
    static CppAD::chkpoint_two<double>* c = nullptr;
    if (!c) { vector<AD1> x(2), y(2); x[0] = 0.5; x[1] = 1.5; CppAD::Independent(x); y[0] = x[0] * exp(x[1]); y[1] = x[1] * x[1] + sin(x[0]) * x[1]; F g(x, y); c = new CppAD::chkpoint_two<double>(g, "hist_chk", true, true, true, false); }
    return *c;
}
static const int NPROG = 4;
static size_t n_dyn(int prog) { return prog == 2 ? 0 : 2; }
static void record(int prog, F& f, bool ctor = false) {
    vector<AD1> x{XB[0], XB[1]}, p(n_dyn(prog)), y(3); for (size_t j = 0; j < p.size(); j++) p[j] = PA[j];
    CppAD::Independent(x, size_t(0), true, p);
    if (prog == 0) {
        AD1 a = x[0] * x[1] + p[0]; if (x[0] > 1.0) a *= 2.0; if (a < x[1]) a += 1.0;
        AD1 b = CppAD::CondExpLt(x[0], AD1(1.0), exp(x[1] * p[1]), sin(x[0]) * x[1]), c = CppAD::CondExpGt(x[1], p[0], a * b, CppAD::CondExpLe(x[0], x[1], a, b - p[1]));
        CppAD::VecAD<double> v(3); v[AD1(0)] = x[0] * x[1]; v[AD1(1)] = p[1]; v[AD1(2)] = 0.5; AD1 i = CppAD::CondExpLt(x[0], AD1(1.0), AD1(0.0), AD1(1.0)); v[p[0]] = b; AD1 d = v[i] + v[AD1(2)] * x[1];
        y[0] = a + b; y[1] = c * d; y[2] = dis1(x[1]) + x[0] + x[1] * 2.0 - d + p[0] * x[0];
    } else if (prog == 1) {
        vector<AD1> u(2), w(2); u[0] = x[0] * p[0]; u[1] = x[1]; chk()(u, w); AD1 r0, r1, s0, s1; atomcall<double>(w[0], x[1], r0, r1); mixcall<double>(x[0] + p[1], x[1], s0, s1);
        vector<AD1> q(2); q[0] = p[0]; q[1] = p[1]; vector<AD1> t(2); chk()(q, t);
        y[0] = r0 + s1 * t[0]; y[1] = w[1] * x[0]; y[2] = s0 + r1 - t[1];
    } else if (prog == 2) { AD1 a = x[0] * x[1], b = exp(a), c = a * b; y[0] = c + sqrt(x[1]); y[1] = atan(x[0]) / x[1]; y[2] = pow(x[1], 3) + a; }
    else { y[0] = p[0] * p[1]; y[1] = x[1]; AD1 a = x[0] + p[0]; a = a + x[1] + 2.0 - x[0] * p[1]; y[2] = a + a; }
    if (ctor) { F g(x, y); f = std::move(g); } else f.Dependent(x, y);
}
// ------------------------------------------------------------------ transformations of the recording (part of the key)
static void transform(F& f, char t) { switch (t) { case 'o': f.optimize(); break; case 'n': f.optimize("no_conditional_skip no_compare_op"); break; case 'c': f.optimize("no_cumulative_sum_op no_conditional_skip"); break; } }
struct Key { int prog = -1; string tr; int dyn = 0; };   // dyn: 0 PA, 1 PB
static void fresh(const Key& k, F& f) { record(k.prog, f); for (char t : k.tr) transform(f, t); if (k.dyn >= 0 && n_dyn(k.prog)) f.new_dynamic(k.dyn ? PB : PA); }
struct M {                                   // the ideal state of an object
    Key k; bool taylor_known = true; vector<vector<Vec>> x;   // x[order][direction]
    size_t ndir = 1; int fb = 0, fs = 0;     // stored forward patterns: 0 none, -1 unknown, else 1, 2
    int sel = 0; int used = 0;               // subgraph selection, dependents already used
    int count = 1; int cmp_x = -1; bool cmp_known = true; int skip_x = -1; bool nan = true; int name = 0; bool any() const { return k.prog >= 0; }
    size_t orders() const { return x.size(); }
};
static string xkey(const M& m, size_t upto) { string s; for (size_t k = 0; k < upto && k < m.x.size(); k++) { for (auto& d : m.x[k]) for (double v : d) s += fmt("%g,", v); s += ";"; } return s; }
static string bkey(const Key& k) { return fmt("%d%s/%d|", k.prog, k.tr.c_str(), k.dyn); }
// ------------------------------------------------------------------ the results
typedef Vec Res;
static std::map<string, Res> g_cache;
static void put(Res& r, const Vec& v) { r.push_back(v.size()); for (double d : v) r.push_back(d); }
template <class B> static void putb(Res& r, const B& v) { r.push_back(v.size()); for (size_t i = 0; i < v.size(); i++) r.push_back(v[i]); }
static void put(Res& r, const VSet& v) { for (auto& s : v) { r.push_back(-1); for (size_t e : s) r.push_back(double(e)); } }
static void put(Res& r, const RC& p) { r.push_back(p.nr()); r.push_back(p.nc()); VS o = p.row_major(); for (size_t k : o) { r.push_back(p.row()[k]); r.push_back(p.col()[k]); } }
static void put(Res& r, const string& s) { r.push_back(double(hash_bytes(s.data(), s.size(), 7) >> 12)); }
// set the Taylor coefficients of a fresh object to those of the model, orders below upto
static void load_taylor(F& f, const M& m, size_t upto) { std::ostringstream s; for (size_t k = 0; k < upto && k < m.x.size(); k++) { if (k == 0) f.Forward(0, m.x[0][0], s); else { Vec v; for (int j = 0; j < 2; j++) for (auto& d : m.x[k]) v.push_back(d[j]); if (m.x[k].size() == 1) f.Forward(k, v); else f.Forward(k, m.x[k].size(), v); } } }
template <class G> static const Res& want(const string& key, const Key& k, G&& g) {
    auto it = g_cache.find(key); if (it != g_cache.end()) return it->second;
    F f; fresh(k, f); Res r; g(f, r); return g_cache[key] = r;
}
static Vec ident(int q) { Vec v(2 * q, 0.0); for (int i = 0; i < q; i++) v[i * q + i] = 1; return v; }
struct World {
    F a, b; M ma, mb; string err; Run& R; World(Run& r, int prog, int start) : R(r) { record(prog, a, start == 1); ma.k.prog = prog; if (start == 1) { ma.x = {{XB}}; ma.skip_x = -1; ma.cmp_known = false; } }
    bool known(std::function<void()> f, const char* what) { try { f(); } catch (CppadError& e) { if (!e.known) err = string(what) + ": not a known error: " + e.what(); return true; } err = string(what) + " was not reported as an error"; return true; }
    // compare g on the object with g on a fresh object
    template <class G> bool cmp(const string& key, G&& g, bool load_t = false, size_t upto = 0, const char* name = "") {
        const M m = ma; const Res& w = want(bkey(m.k) + key, m.k, [&](F& f, Res& r) { if (load_t) load_taylor(f, m, upto); g(f, r); });
        Res r; g(a, r); return same(w, r, name);
    }
    bool same(const Res& w, const Res& r, const char* name) {
        R.comparisons++; if (w.size() != r.size()) { err = fmt("%s: %zu numbers, a fresh object gives %zu", name, r.size(), w.size()); return true; }
        for (size_t i = 0; i < w.size(); i++) if (!(close(w[i], r[i], 1e-11, 1e-12) || (w[i] != w[i] && r[i] != r[i]))) { err = fmt("%s: result %zu is %.17g, a fresh object gives %.17g", name, i, r[i], w[i]); return true; } return true; }
    bool fwd(size_t q, const vector<Vec>& dirs, bool all = false) {   // false: not allowed here
        size_t r = dirs.size(); std::ostringstream s; if (!ma.any()) return false;
        if (all) { M m = ma; m.x.clear(); Vec v(2 * (q + 1)); for (size_t k = 0; k <= q; k++) { m.x.push_back({dirs[k]}); for (int j = 0; j < 2; j++) v[j * (q + 1) + k] = dirs[k][j]; } m.ndir = 1; string key = fmt("fa%zu;", q) + xkey(m, q + 1);
            bool ok = cmp(key, [&](F& f, Res& o) { std::ostringstream t; put(o, f.Forward(q, v, t)); }, false, 0, "Forward with all orders"); ma.x = m.x; ma.ndir = 1; ma.taylor_known = true; if (dirs[0] == XA) ma.skip_x = 0; else ma.skip_x = 1; ma.cmp_x = ma.skip_x; ma.cmp_known = true; return ok; }
        if (q == 0) { M m = ma; m.x = {{dirs[0]}}; ma.taylor_known = true; cmp("f0;" + xkey(m, 1), [&](F& f, Res& o) { std::ostringstream t; put(o, f.Forward(0, dirs[0], t)); }, false, 0, "Forward(0)"); ma.x = m.x; ma.ndir = 1; ma.skip_x = ma.cmp_x = dirs[0] == XA ? 0 : 1; ma.cmp_known = true; return true; }
        Vec v; for (int j = 0; j < 2; j++) for (auto& d : dirs) v.push_back(d[j]);
        if (!ma.taylor_known) return false;
        if (ma.orders() < q) { return known([&] { if (r == 1) a.Forward(q, v); else a.Forward(q, r, v); }, "Forward with too few orders stored"); }
        if (r == 1 && ma.ndir != 1) { if (q == 1) return false; return known([&] { a.Forward(q, v); }, "Forward with one direction after several"); }
        if (r > 1 && q > 1 && ma.ndir != r) return known([&] { a.Forward(q, r, v); }, "Forward with another number of directions");
        M m = ma; m.x.resize(q); m.x.push_back(dirs); m.ndir = r;
        cmp(fmt("f%zu,%zu;", q, r) + xkey(m, q + 1), [&](F& f, Res& o) { put(o, r == 1 ? f.Forward(q, v) : f.Forward(q, r, v)); }, true, q, r == 1 ? "Forward" : "Forward of several directions");
        ma.x = m.x; ma.ndir = r; return true;
    }
    bool rev(size_t q, const Vec& w) {
        if (!ma.any() || !ma.taylor_known) return false;
        if (ma.orders() < q) return known([&] { a.Reverse(q, w); }, "Reverse with too few orders stored");
        if (q > 1 && ma.ndir != 1) return known([&] { a.Reverse(q, w); }, "Reverse of several directions");
        if (ma.ndir != 1) { ma.x.resize(1); ma.ndir = 1; }
        return cmp(fmt("r%zu,%zu;", q, w.size()) + xkey(ma, q), [&](F& f, Res& o) { put(o, f.Reverse(q, w)); }, true, q, "Reverse");
    }
    // a driver that leaves zero order coefficients at x
    bool driver(int which, const Vec& x) {
        if (!ma.any()) return false;
        cmp(fmt("d%d;%g", which, x[0]), [&](F& f, Res& o) {
            switch (which) {
                case 0: put(o, f.Jacobian(x)); break; case 1: put(o, f.Hessian(x, W3)); break;
                case 2: { RC p(2, 2, 2), q; p.set(0, 0, 0); p.set(1, 1, 1); f.for_jac_sparsity(p, false, false, false, q); RCV s(q); CppAD::sparse_jac_work w; f.sparse_jac_for(2, x, s, q, "cppad", w); put(o, s.val()); } break;
                case 3: { VB d(2, true), r(3, true); RC q; f.for_hes_sparsity(d, r, false, q); RCV s(q); CppAD::sparse_hes_work w; f.sparse_hes(x, W3, s, q, "cppad.symmetric", w); put(o, s.val()); } break;
                case 4: { RC p(3, 2, 6); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) p.set(i * 2 + j, i, j); RCV s(p); f.subgraph_jac_rev(x, s); put(o, s.val()); } break;
                case 5: put(o, f.SparseJacobian(x)); break; case 6: put(o, f.RevTwo(x, VS{0, 2}, VS{1, 0})); break; case 7: put(o, f.ForTwo(x, VS{0, 1}, VS{1, 1})); break;
                case 8: put(o, f.ForOne(x, 1)); break; case 9: put(o, f.RevOne(x, 2)); break; case 10: put(o, f.SparseHessian(x, W3)); break;
            } }, false, 0, "a driver");
        ma.x = {{x}}; ma.taylor_known = false; ma.ndir = 1; ma.skip_x = -1; ma.cmp_known = false;
        if (which == 2) { ma.fs = 3; ma.fb = 0; } if (which == 5 || which == 10) ma.fb = ma.fs = -1; if (which == 4) ma.sel = -1;
        return true;
    }
    static const int NOP = 61;
    static string name(int c) { static const char* s[NOP] = {"F0(xa)", "F0(xb)", "F1(u)", "F1(w)", "F2(z)", "F3(u)", "Fall1(xa,w)", "Fall2(xb,u,z)", "F(1,2dir)", "F(2,2dir)", "F(1,3dir)", "R1", "R2", "R3", "R2(all)", "cap0", "cap1", "cap2", "cap4", "dynA", "dynB", "optimize", "optimize(no_compare)", "b=a", "swap", "move", "FSJ bool", "FSJ set part", "RSH bool", "RSH set", "fjs bool part", "fjs set", "rhs bool", "rhs set", "rjs", "fhs", "ForSparseHes", "free bool", "free set", "subsel all", "subsel 1", "subrev(1,0)", "subrev(2,2)", "clear_subgraph", "subgraph_sparsity", "count0", "count2", "Jacobian", "Hessian", "sparse_jac_for", "sparse_hes", "subgraph_jac_rev", "SparseJacobian", "RevTwo", "ForTwo", "base2ad", "to_json", "record other", "nan off", "name", "RSJ"}; return s[c]; }
    bool apply(int c) {
        switch (c) {
            case 0: return fwd(0, {XA}); case 1: return fwd(0, {XB}); case 2: return fwd(1, {U}); case 3: return fwd(1, {W}); case 4: return fwd(2, {Z}); case 5: return fwd(3, {U});
            case 6: return fwd(1, {XA, W}, true); case 7: return fwd(2, {XB, U, Z}, true); case 8: return fwd(1, {U, W}); case 9: return fwd(2, {Z, U}); case 10: return fwd(1, {W, U, Z});
            case 11: return rev(1, W3); case 12: return rev(2, W3); case 13: return rev(3, W3); case 14: return rev(2, {1.0, 0.5, -1.0, 2.0, 0.25, -0.5});
            case 15: case 16: case 17: case 18: { size_t k = c == 18 ? 4 : c - 15; a.capacity_order(k); if (ma.x.size() > k) ma.x.resize(k); if (k < 2) { ma.ndir = 1; } return true; }
            case 19: case 20: if (!ma.any()) return false; ma.k.dyn = c - 19; a.new_dynamic(n_dyn(ma.k.prog) ? (c == 19 ? PA : PB) : Vec()); ma.x.clear(); ma.taylor_known = true; ma.cmp_known = false; ma.skip_x = -1; return true;
            case 21: case 22: if (!ma.any() || ma.k.tr.size() > 1) return false; ma.k.tr += c == 21 ? 'o' : 'n'; transform(a, ma.k.tr.back()); ma.x.clear(); ma.taylor_known = true; ma.fb = ma.fs = 0; ma.sel = 0; ma.cmp_known = false; ma.skip_x = -1; return true;
            case 23: b = a; mb = ma; return true; case 24: a.swap(b); std::swap(ma, mb); return true; case 25: { F t(std::move(a)); F u; u = std::move(t); a.swap(u); } return true;
            case 26: if (!ma.any()) return false; ma.fb = 1; ma.fs = 0; return cmp("fsjb", [](F& f, Res& o) { vector<bool> r(4, false); r[0] = r[3] = true; putb(o, f.ForSparseJac(2, r)); }, false, 0, "ForSparseJac");
            case 27: if (!ma.any()) return false; ma.fs = 2; ma.fb = 0; return cmp("fsjs", [](F& f, Res& o) { VSet r(2); r[1].insert(0); put(o, f.ForSparseJac(1, r)); }, false, 0, "ForSparseJac of sets");
            case 28: case 29: { if (!ma.any()) return false; int k = c == 28 ? ma.fb : ma.fs; if (k < 0) return false; size_t q = k == 2 ? 1 : 2;
                auto g = [=](F& f, Res& o) { if (c == 28) { vector<bool> s(3, true); s[1] = false; putb(o, f.RevSparseHes(q, s)); } else { VSet s(1); s[0] = {0, 2}; put(o, f.RevSparseHes(q, s)); } };
                if (k == 0) return known([&] { Res o; g(a, o); }, "RevSparseHes without ForSparseJac");
                return with_pattern(k, c == 28, fmt("rsh%d,%d", c, k), g, "RevSparseHes"); }
            case 30: case 31: { if (!ma.any()) return false; bool bl = c == 30; (bl ? ma.fb : ma.fs) = bl ? 2 : 3; (bl ? ma.fs : ma.fb) = 0; return cmp(fmt("fjs%d", c), [=](F& f, Res& o) { RC q; pat(f, bl ? 2 : 3, bl, q); put(o, q); }, false, 0, "for_jac_sparsity"); }
            case 32: case 33: { if (!ma.any()) return false; bool bl = c == 32; int k = bl ? ma.fb : ma.fs; if (k < 0) return false; auto g = [=](F& f, Res& o) { VB s{true, true, false}; RC q; f.rev_hes_sparsity(s, false, bl, q); put(o, q); };
                if (k == 0) return known([&] { Res o; g(a, o); }, "rev_hes_sparsity without for_jac_sparsity"); return with_pattern(k, bl, fmt("rhs%d,%d", c, k), g, "rev_hes_sparsity"); }
            case 34: if (!ma.any()) return false; return cmp("rjs", [](F& f, Res& o) { RC p(3, 3, 2), q; p.set(0, 0, 0); p.set(1, 1, 2); f.rev_jac_sparsity(p, false, true, true, q); put(o, q); f.rev_jac_sparsity(p, false, false, false, q); put(o, q); }, false, 0, "rev_jac_sparsity");
            case 35: if (!ma.any()) return false; return cmp("fhs", [](F& f, Res& o) { VB d{true, true}, r{true, true, false}; RC q; f.for_hes_sparsity(d, r, true, q); put(o, q); f.for_hes_sparsity(d, r, false, q); put(o, q); }, false, 0, "for_hes_sparsity");
            case 36: if (!ma.any()) return false; return cmp("FSH", [](F& f, Res& o) { vector<bool> r(2, true), s(3, true); putb(o, f.ForSparseHes(r, s)); VSet rr(1), ss(1); rr[0] = {0, 1}; ss[0] = {0, 2}; put(o, f.ForSparseHes(rr, ss)); }, false, 0, "ForSparseHes");
            case 37: a.size_forward_bool(0); ma.fb = 0; if (a.size_forward_bool()) err = "size_forward_bool is not zero after it was freed"; return true; case 38: a.size_forward_set(0); ma.fs = 0; if (a.size_forward_set()) err = "size_forward_set is not zero after it was freed"; return true;
            case 39: case 40: if (!ma.any()) return false; { VB s{c == 39, true}; a.subgraph_reverse(s); ma.sel = c - 38; ma.used = 0; } return true;
            case 41: case 42: { if (!ma.any() || ma.sel < 1 || !ma.taylor_known) return false; size_t q = c - 40, ell = c == 41 ? 0 : 2; if (ma.ndir != 1) return false; if (ma.orders() < q || (ma.used >> ell) & 1) return false; ma.used |= 1 << ell; int sel = ma.sel;
                auto g = [=](F& f, Res& o) { VS col; Vec dw; f.subgraph_reverse(q, ell, col, dw); std::map<size_t, Vec> s; for (size_t j : col) { Vec v; for (size_t k = 0; k < q; k++) v.push_back(dw[j * q + k]); s[j] = v; } for (auto& e : s) { o.push_back(e.first); put(o, e.second); } };
                const M m = ma; const Res& w = want(bkey(m.k) + fmt("sr%d,%d;", c, sel) + xkey(m, q), m.k, [&](F& f, Res& o) { load_taylor(f, m, q); VB s{sel == 1, true}; f.subgraph_reverse(s); g(f, o); }); Res r; g(a, r); return same(w, r, "subgraph_reverse"); }
            case 43: a.clear_subgraph(); ma.sel = 0; return true;
            case 44: if (!ma.any()) return false; ma.sel = -1; return cmp("sgs", [](F& f, Res& o) { VB d{true, false}, r{true, true, true}; RC q; f.subgraph_sparsity(d, r, false, q); put(o, q); }, false, 0, "subgraph_sparsity");
            case 45: case 46: a.compare_change_count(c == 45 ? 0 : 2); ma.count = c == 45 ? 0 : 2; ma.cmp_x = -1; ma.cmp_known = true; return true;
            case 47: return driver(0, XA); case 48: return driver(1, XB); case 49: return driver(2, XA); case 50: return driver(3, XA); case 51: return driver(4, XB); case 52: return driver(5, XA); case 53: return driver(6, XB); case 54: return driver(7, XA);
            case 55: if (!ma.any()) return false; return cmp("b2a", [](F& f, Res& o) { ADFun<AD1, double> g = f.base2ad(); vector<AD1> x{XA[0], XA[1]}; std::ostringstream s; vector<AD1> y = g.Forward(0, x, s); for (auto& e : y) o.push_back(CppAD::Value(e)); }, false, 0, "base2ad");
            case 56: if (!ma.any() || ma.k.prog == 0) return false; { string nm = ma.name ? "other" : ""; M m = ma; return cmp(fmt("json%d", ma.name), [=](F& f, Res& o) { if (m.name) f.function_name_set("other"); put(o, f.to_json()); }, false, 0, "to_json"); }
            case 57: { int p = ma.any() ? (ma.k.prog + 1) % NPROG : 0; M m; m.k.prog = p; m.nan = ma.nan; m.name = ma.name; m.cmp_known = false; record(p, a); m.count = -1; ma = m; a.compare_change_count(1); ma.count = 1; ma.cmp_known = true; return true; }
            case 58: a.check_for_nan(!a.check_for_nan()); ma.nan = !ma.nan; return true; case 59: a.function_name_set("other"); ma.name = 1; return true;
            case 60: if (!ma.any()) return false; return cmp("RSJ", [](F& f, Res& o) { vector<bool> s(3, true); putb(o, f.RevSparseJac(1, s)); VSet t(1); t[0] = {0, 2}; put(o, f.RevSparseJac(1, t)); }, false, 0, "RevSparseJac");
        }
        return false;
    }
    static void pat(F& f, int k, bool bl, RC& q) { RC p(2, k == 2 ? 1 : 2, k == 2 ? 1 : 2); if (k == 2) p.set(0, 1, 0); else { p.set(0, 0, 0); p.set(1, 1, 1); } f.for_jac_sparsity(p, false, false, bl, q); }
    template <class G> bool with_pattern(int k, bool bl, const string& key, G g, const char* name) {   // k: 1, 3 identity, 2 second variable only
        const Key kk = ma.k; const Res& w = want(bkey(kk) + key, kk, [&](F& f, Res& o) { RC q; pat(f, k, bl, q); g(f, o); }); Res r; g(a, r); return same(w, r, name); }
    // what may be asked of an object at any time
    void query(F& f, const M& m, const char* which) {
        R.comparisons++;
        if (!m.any()) { if (f.Domain() || f.Range() || f.size_order() || f.size_op() > 0) err = string(which) + ": an empty function is not empty"; return; }
        const Res& w = want(bkey(m.k) + "q", m.k, [](F& g, Res& o) { for (size_t v : {g.Domain(), g.Range(), g.size_dyn_ind(), g.size_var(), g.size_par(), g.size_op(), g.size_op_arg(), g.size_text(), g.size_VecAD(), g.size_dyn_par(), size_t(g.Parameter(0)), size_t(g.Parameter(1)), size_t(g.Parameter(2)), g.size_op_seq()}) o.push_back(double(v)); });
        Res r; for (size_t v : {f.Domain(), f.Range(), f.size_dyn_ind(), f.size_var(), f.size_par(), f.size_op(), f.size_op_arg(), f.size_text(), f.size_VecAD(), f.size_dyn_par(), size_t(f.Parameter(0)), size_t(f.Parameter(1)), size_t(f.Parameter(2)), f.size_op_seq()}) r.push_back(double(v));
        same(w, r, "sizes"); if (err.size()) { err = string(which) + ": " + err; return; }
        if (m.taylor_known && f.size_order() != m.orders()) err = fmt("%s: size_order is %zu, should be %zu", which, f.size_order(), m.orders());
        else if (m.taylor_known && m.orders() > 1 && f.size_direction() != m.ndir) err = fmt("%s: size_direction is %zu, should be %zu", which, f.size_direction(), m.ndir);
        else if (m.fb > 0 && f.size_forward_bool() == 0) err = fmt("%s: size_forward_bool is zero", which);
        else if (m.fs > 0 && f.size_forward_set() == 0) err = fmt("%s: size_forward_set is zero", which);
        else if (f.check_for_nan() != m.nan) err = fmt("%s: check_for_nan", which); else if (f.function_name_get() != (m.name ? "other" : "")) err = fmt("%s: function_name is %s", which, f.function_name_get().c_str());
        if (err.size()) return;
        if (m.cmp_known) { Res c{0, 0}; if (m.cmp_x >= 0 && m.count) c = want(bkey(m.k) + fmt("cc%d,%d", m.cmp_x, m.count), m.k, [&](F& g, Res& o) { g.compare_change_count(m.count); std::ostringstream s; g.Forward(0, m.cmp_x ? XB : XA, s); o.push_back(g.compare_change_number()); o.push_back(g.compare_change_op_index()); });
            Res r{double(f.compare_change_number()), double(f.compare_change_op_index())}; same(c, r, "compare_change_number, op_index"); if (err.size()) { err = string(which) + ": " + err; return; } }
        if (m.skip_x >= 0) { const Res& c = want(bkey(m.k) + fmt("sk%d", m.skip_x), m.k, [&](F& g, Res& o) { std::ostringstream s; g.Forward(0, m.skip_x ? XB : XA, s); o.push_back(g.number_skip()); }); Res r{double(f.number_skip())}; same(c, r, "number_skip"); if (err.size()) err = string(which) + ": " + err; }
    }
    void check() { if (err.empty()) query(a, ma, "the object"); if (err.empty()) query(b, mb, "the other object"); }
    uint64_t hash() const { uint64_t h = 3; for (const M* m : {&ma, &mb}) { string s = bkey(m->k) + xkey(*m, 9) + fmt("%d,%zu,%d,%d,%d,%d,%d,%d,%d,%d,%d", m->taylor_known, m->ndir, m->fb, m->fs, m->sel, m->used, m->count, m->cmp_x, m->nan, m->name, m->skip_x); h = hash_bytes(s.data(), s.size(), h); } return h; }
};
static std::unordered_set<uint64_t> g_seen;
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler handler(throw_handler);
    return guarded_main(R, [&] {
        CppAD::thread_alloc::hold_memory(true); chk();
        auto explore = [&](const char* fam, int prog, int start, const vector<int>& pre, const vector<int>& alpha, int depth) {
            if (!R.family(fmt("%s%d", fam, prog) + (start ? "c" : ""))) return;
            auto text = [](const vector<int>& v) { string d; for (int c : v) d += World::name(c) + "; "; return d; };
            // returns false if the last operation is not available there
            auto run = [&](const vector<int>& code) -> bool {
                string e; bool ok = true; uint64_t h = 0; size_t i = 0;
                try { World w(R, prog, start); for (; i < code.size() && ok && w.err.empty(); i++) ok = w.apply(code[i]); if (ok) { w.check(); h = w.hash(); } e = w.err; if (e.size() && i < code.size()) e += fmt(" (operation %zu)", i); }
                catch (CppadError& x) { e = "error reported: " + string(x.what()); }
                CppAD::AD<double>::abort_recording();
                if (!ok) return false; R.transitions += code.size(); if (g_seen.insert(h + prog).second) R.states++; R.outcome(h); if (e.size()) R.fail("after " + text(code) + e); return true;
            };
            std::function<void(vector<int>&, int)> rec = [&](vector<int>& code, int left) { if (!run(code)) return; if (left == 0) return; for (int c : alpha) { if (R.case_failed) return; code.push_back(c); rec(code, left - 1); code.pop_back(); } };
            for (int c : alpha) for (int d : alpha) { vector<int> code = pre; code.push_back(c); code.push_back(d); if (!R.next([=] { return text(code) + fmt("all continuations of %d", depth - 2); })) continue; rec(code, depth - 2); }
        };
        vector<int> all; for (int i = 0; i < World::NOP; i++) all.push_back(i);
        bool th = R.thorough();
        for (int p = 0; p < NPROG; p++) explore("all", p, 0, {}, all, 3);
        explore("all", 0, 1, {}, all, 3);
        const vector<int> tay{0, 1, 3, 4, 7, 8, 9, 11, 12, 16, 18, 20, 21, 23, 24, 47}, spa{26, 27, 28, 29, 30, 32, 33, 31, 21, 23, 24, 37, 38, 52, 36}, sub{0, 2, 7, 8, 39, 40, 41, 42, 43, 44, 21, 23, 24, 20, 51}, skp{0, 1, 6, 20, 21, 22, 23, 24, 25, 45, 46, 48, 51, 57};
        for (int p = 0; p < NPROG; p++) { explore("tay", p, 0, {}, tay, th ? 6 : p < 2 ? 5 : 4); explore("sub", p, 0, {}, sub, th ? 6 : p < 2 ? 5 : 4); explore("spa", p, 0, {}, spa, th ? 6 : p < 2 ? 5 : 4); }
        explore("skp", 0, 0, {}, skp, th ? 6 : 5); if (th) explore("skp", 1, 0, {}, skp, 6);
    });
}
