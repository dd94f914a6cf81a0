// C22: every sequence of starting, filling, ending and aborting recordings at two AD levels, including misuse,
// compared with symbolic expressions in which values of another recording are constants.
#include "vfc.hpp"
#include <memory>
using namespace vf; using CppAD::AD; using CppAD::ADFun;
using std::string; using std::vector;
typedef AD<double> A1; typedef AD<A1> A2;
// expressions over the independents (var) and dynamics (dyn) of one recording
template <class V> struct Ex { char op; std::shared_ptr<Ex> a, b, c, d; int rec; int idx; V val; char kind; };   // kind 'c' 'd' 'v'
template <class V> using P = std::shared_ptr<Ex<V>>;
static int g_cur1 = -1, g_cur2 = -1;
static int cur(double) { return g_cur1; } static int cur(P<double>) { return g_cur2; }
typedef P<double> V1; typedef P<V1> V2;
template <class V> static P<V> con(const V& v) { auto e = std::make_shared<Ex<V>>(); e->op = 'k'; e->rec = -1; e->val = v; e->kind = 'c'; return e; }
template <class V> static P<V> inp(const V& v, int rec, int idx, char kind) { auto e = std::make_shared<Ex<V>>(); e->op = 'x'; e->rec = rec; e->idx = idx; e->val = v; e->kind = kind; return e; }
template <class V> static P<V> now(const P<V>& a) { if (a->rec >= 0 && a->rec == cur(V())) return a; return a->rec < 0 ? a : con<V>(a->val); }
template <class V> static char kind_now(const P<V>& a) { return a->rec >= 0 && a->rec == cur(V()) ? a->kind : 'c'; }
static bool deepc(double) { return true; } static bool deepc(const V1& a) { return kind_now<double>(a) == 'c'; }
static double num(double x) { return x; } static double num(const V1& x) { return x->val; }
static double bin(char o, double a, double b) { return o == '+' ? a + b : o == '-' ? a - b : a * b; }
static double cond(double a, double b, double c, double d) { return a < b ? c : d; }
template <class V> static P<V> bin(char o, const P<V>& a, const P<V>& b);
template <class V> static P<V> cond(const P<V>& a, const P<V>& b, const P<V>& c, const P<V>& d);
template <class V> static P<V> mk(char o, std::initializer_list<P<V>> l, const V& v) {
    auto e = std::make_shared<Ex<V>>(); e->op = o; e->val = v; e->kind = 'c'; e->rec = -1; P<V>* s[4] = {&e->a, &e->b, &e->c, &e->d}; int i = 0;
    for (auto& p : l) { P<V> q = now<V>(p); *s[i++] = q; if (q->kind == 'v') e->kind = 'v'; else if (q->kind == 'd' && e->kind == 'c') e->kind = 'd'; }
    if (e->kind == 'c') return con<V>(v); e->rec = cur(V()); return e;
}
template <class V> static P<V> bin(char o, const P<V>& a, const P<V>& b) { if (o == '*') for (const P<V>& e : {a, b}) if (kind_now<V>(e) == 'c' && deepc(e->val) && num(e->val) == 0.0) return con<V>(e->val); return mk<V>(o, {a, b}, bin(o, a->val, b->val)); }
template <class V> static P<V> cond(const P<V>& a, const P<V>& b, const P<V>& c, const P<V>& d) { if (kind_now<V>(a) == 'c' && kind_now<V>(b) == 'c' && deepc(a->val) && deepc(b->val)) return now<V>(num(a->val) < num(b->val) ? c : d); return mk<V>('?', {a, b, c, d}, cond(a->val, b->val, c->val, d->val)); }
struct Dual { double v, d; };
static Dual bin(char o, Dual a, Dual b) { return o == '+' ? Dual{a.v + b.v, a.d + b.d} : o == '-' ? Dual{a.v - b.v, a.d - b.d} : Dual{a.v * b.v, a.v * b.d + a.d * b.v}; }
static Dual cond(Dual a, Dual b, Dual c, Dual d) { return a.v < b.v ? c : d; }
static void lift(double v, Dual& w) { w = Dual{v, 0}; } static void lift(double v, double& w) { w = v; } static void lift(const V1& v, V1& w) { w = v; } static void lift(const V1& v, Dual& w) { w = Dual{v->val, 0}; }
template <class W, class V> static W eval(const P<V>& e, const vector<W>& x, const vector<W>& p) {
    W w; switch (e->op) { case 'k': lift(e->val, w); return w; case 'x': return e->kind == 'v' ? x[e->idx] : p[e->idx];
        case '?': return cond(eval<W, V>(e->a, x, p), eval<W, V>(e->b, x, p), eval<W, V>(e->c, x, p), eval<W, V>(e->d, x, p)); }
    return bin(e->op, eval<W, V>(e->a, x, p), eval<W, V>(e->b, x, p));
}
struct F1 { std::unique_ptr<ADFun<double>> f; vector<V1> y; size_t nx, np; vector<double> p0; int forwards; };
struct F2 { std::unique_ptr<ADFun<A1>> f; vector<V2> y; size_t nx; };
struct World {
    vector<A1> x1, d1, pool1; vector<V1> mx1, m1; vector<A2> x2, pool2; vector<V2> mx2, m2; vector<F1> f1; vector<F2> f2; int nrec = 0; size_t np = 0; string err; bool act1 = false, act2 = false;
    World() { g_cur1 = g_cur2 = -1; pool1.push_back(A1(1.5)); m1.push_back(con<double>(1.5)); pool2.push_back(A2(2.5)); m2.push_back(con<V1>(con<double>(2.5))); }
    void add1(const A1& a, const V1& v) { pool1.push_back(a); m1.push_back(v); } void add2(const A2& a, const V2& v) { pool2.push_back(a); m2.push_back(v); }
    template <class F> bool bad(F f, const char* what) { try { f(); } catch (CppadError& e) { if (!e.known) err = string(what) + " is not reported as a known error: " + e.what(); return true; } err = string(what) + " was not reported"; return true; }
    static const int NOP = 20;
    static string name(int c) { static const char* s[NOP] = {"Independent1", "Independent1 with dynamic", "last*first+0.5", "last-first", "CondExp", "Dependent1", "ADFun1(x,y)", "abort1", "evaluate all", "Independent2", "level 2 last*first+0.5", "level 2 minus", "Dependent2", "abort2", "function 2 at level 1 values", "delete oldest function 1", "copy function 1", "level 2 CondExp with level 1 values", "last=old pool value+0.25", "Var2Par"}; return s[c]; }
    void start1(bool dyn) {
        vector<A1> x(2), d(dyn ? 1 : 0); x[0] = 0.5 + nrec; x[1] = pool1.back(); double v1 = m1.back()->val; if (dyn) d[0] = 2.0 + nrec;
        auto go = [&] { if (dyn) CppAD::Independent(x, 0, false, d); else CppAD::Independent(x); };
        if (act1) { bad(go, "Independent while recording"); return; }
        go(); act1 = true; g_cur1 = nrec++; x1 = x; d1 = d; np = d.size(); mx1 = {inp<double>(x[0] == x[0] ? 0.5 + g_cur1 : 0, g_cur1, 0, 'v'), inp<double>(v1, g_cur1, 1, 'v')};
        add1(x[0], mx1[0]); add1(x[1], mx1[1]); if (dyn) add1(d[0], inp<double>(2.0 + g_cur1, g_cur1, 0, 'd'));
    }
    void end1(bool ctor) {
        vector<A1> y{pool1.back(), pool1.front(), pool1[pool1.size() / 2]}; F1 r; for (size_t i : {m1.size() - 1, size_t(0), m1.size() / 2}) r.y.push_back(now<double>(m1[i]));
        if (!act1) { vector<A1> x(x1); if (x.empty()) x.resize(2, A1(1.0)); ADFun<double> f; bad([&] { if (ctor) ADFun<double> g(x, y); else f.Dependent(x, y); }, "Dependent without a recording"); return; }
        if (ctor) r.f.reset(new ADFun<double>(x1, y)); else { r.f.reset(new ADFun<double>); r.f->Dependent(x1, y); }
        r.nx = 2; r.np = np; r.p0.clear(); for (auto& d : d1) r.p0.push_back(CppAD::Value(d)); r.forwards = ctor; act1 = false; g_cur1 = -1;
        if (r.f->Domain() != 2 || r.f->Range() != 3 || r.f->size_dyn_ind() != r.np) err = "sizes of the function"; if (r.f->size_order() != (ctor ? 1u : 0u)) err = fmt("size_order is %zu after the end of a recording", r.f->size_order());
        if (CppAD::Variable(y[0]) || CppAD::Variable(x1[0])) err = "variable after the end of its recording";
        f1.push_back(std::move(r));
    }
    void check_f1(Run& R, F1& r) {
        for (int k = 0; k < 2 && err.empty(); k++) {
            vector<double> x{0.75 - k, 1.25 + 2 * k}, p = r.p0; if (k && r.np) { p[0] = -1.5; r.f->new_dynamic(p); } else if (r.np) r.f->new_dynamic(p);
            vector<double> y = r.f->Forward(0, x), w(3), dx; 
            for (int i = 0; i < 3; i++) { double z = eval<double, double>(r.y[i], x, p); R.comparisons++; if (!close(y[i], z, 1e-12, 1e-13)) { err = fmt("a function has value %.17g, should be %.17g", y[i], z); return; } }
            for (int i = 0; i < 3; i++) { w.assign(3, 0); w[i] = 1; dx = r.f->Reverse(1, w); for (int j = 0; j < 2; j++) { vector<Dual> X{{x[0], j == 0}, {x[1], j == 1}}, Q; for (double q : p) Q.push_back({q, 0}); Dual z = eval<Dual, double>(r.y[i], X, Q); R.comparisons++; if (!close(dx[j], z.d, 1e-11, 1e-12)) { err = fmt("a function has partial %.17g, should be %.17g", dx[j], z.d); return; } } }
            for (int i = 0; i < 3; i++) if (r.f->Parameter(i) != (r.y[i]->kind != 'v')) { err = fmt("Parameter(%d) is %d", i, r.f->Parameter(i)); return; }
        } if (r.np) r.f->new_dynamic(r.p0);
    }
    void check(Run& R) {
        for (size_t i = 0; i < m1.size() && err.empty(); i++) { R.comparisons++; char k = kind_now<double>(m1[i]); const A1& a = pool1[i];
            if (CppAD::Variable(a) != (k == 'v') || CppAD::Dynamic(a) != (k == 'd') || CppAD::Constant(a) != (k == 'c') || CppAD::Parameter(a) != (k != 'v')) err = fmt("value %zu of level 1: Variable %d Dynamic %d, should be %c", i, CppAD::Variable(a), CppAD::Dynamic(a), k);
            A1 t = CppAD::Var2Par(a); if (CppAD::Value(t) != m1[i]->val) err = fmt("value %zu of level 1 is %g, should be %g", i, CppAD::Value(t), m1[i]->val); }
        for (size_t i = 0; i < m2.size() && err.empty(); i++) { R.comparisons++; char k = kind_now<V1>(m2[i]); const A2& a = pool2[i];
            if (CppAD::Variable(a) != (k == 'v') || CppAD::Constant(a) != (k == 'c')) err = fmt("value %zu of level 2: Variable %d, should be %c", i, CppAD::Variable(a), k);
            A1 b = CppAD::Value(CppAD::Var2Par(a)); A1 t = CppAD::Var2Par(b); if (!close(CppAD::Value(t), m2[i]->val->val, 1e-13)) err = "value of level 2";
            else if (CppAD::Variable(b) != (kind_now<double>(m2[i]->val) == 'v')) err = fmt("the base of value %zu of level 2 has Variable %d, should be %c", i, CppAD::Variable(b), kind_now<double>(m2[i]->val)); }
    }
    void apply(Run& R, int c) {
        switch (c) {
            case 0: start1(false); break; case 1: start1(true); break;
            case 2: add1(pool1.back() * pool1.front() + 0.5, bin('+', bin('*', m1.back(), m1.front()), con(0.5))); break;
            case 3: { size_t k = m1.size() / 2; add1(pool1.back() - pool1[k], bin('-', m1.back(), m1[k])); } break;
            case 4: { size_t k = m1.size() / 2; add1(CppAD::CondExpLt(pool1.front(), pool1[k], pool1.back(), A1(3.0)), cond(m1.front(), m1[k], m1.back(), con(3.0))); } break;
            case 5: end1(false); break; case 6: end1(true); break;
            case 7: A1::abort_recording(); act1 = false; g_cur1 = -1; break;
            case 8: for (auto& r : f1) check_f1(R, r); break;
            case 9: { vector<A2> x(2); V1 a = m1.back(), b = m1.front(); x[0] = pool1.back(); x[1] = pool1.front(); if (act2) { bad([&] { CppAD::Independent(x); }, "Independent at level 2 while recording"); break; } CppAD::Independent(x); act2 = true; g_cur2 = nrec++; x2 = x; mx2 = {inp<V1>(a, g_cur2, 0, 'v'), inp<V1>(b, g_cur2, 1, 'v')}; add2(x[0], mx2[0]); add2(x[1], mx2[1]); } break;
            case 10: add2(pool2.back() * pool2.front() + A2(0.5), bin('+', bin('*', m2.back(), m2.front()), con<V1>(con(0.5)))); break;
            case 11: { size_t k = m2.size() / 2; add2(pool2.back() - A2(pool1.back()) * pool2[k], bin('-', m2.back(), bin('*', con<V1>(m1.back()), m2[k]))); } break;
            case 12: { vector<A2> y{pool2.back(), pool2[pool2.size() / 2]}; F2 r; r.y = {now<V1>(m2.back()), now<V1>(m2[m2.size() / 2])}; r.nx = 2; if (!act2) { vector<A2> x(x2); if (x.empty()) x.resize(2, A2(1.0)); ADFun<A1> f; bad([&] { f.Dependent(x, y); }, "Dependent at level 2 without a recording"); break; } r.f.reset(new ADFun<A1>); r.f->Dependent(x2, y); act2 = false; g_cur2 = -1; f2.push_back(std::move(r)); } break;
            case 13: A2::abort_recording(); act2 = false; g_cur2 = -1; break;
            case 14: if (f2.size()) { F2& r = f2.back(); vector<A1> x{pool1.back() + 0.25, pool1[pool1.size() / 2]}; vector<V1> m{bin('+', m1.back(), con(0.25)), m1[m1.size() / 2]}; vector<A1> y = r.f->Forward(0, x); for (int i = 0; i < 2; i++) add1(y[i], eval<V1, V1>(r.y[i], m, {})); } break;
            case 15: if (f1.size()) f1.erase(f1.begin()); break;
            case 16: if (f1.size()) { F1 t; F1& r = f1.back(); t.f.reset(new ADFun<double>); *t.f = *r.f; t.y = r.y; t.nx = r.nx; t.np = r.np; t.p0 = r.p0; f1.push_back(std::move(t)); } break;
            case 17: { size_t k = m2.size() / 2; add2(CppAD::CondExpGt(pool2.back(), A2(pool1.front()), pool2[k], A2(pool1.back())), cond(con<V1>(m1.front()), m2.back(), m2[k], con<V1>(m1.back()))); } break;
            case 18: add1(pool1[(m1.size() - 1) / 2] + 0.25, bin('+', m1[(m1.size() - 1) / 2], con(0.25))); break;
            case 19: { A1 v = CppAD::Var2Par(pool1.back()); add1(v + A1(0.0), con(m1.back()->val)); } break;
        }
    }
    uint64_t hash() const { uint64_t h = 5; auto add = [&](int c) { h = h * 1099511628211ull + c; }; add(act1); add(act2); for (auto& m : m1) add(kind_now<double>(m)); for (auto& m : m2) { add(kind_now<V1>(m)); add(kind_now<double>(m->val)); } add(f1.size()); add(f2.size()); return h; }
};
static std::unordered_set<uint64_t> g_seen;
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler handler(throw_handler);
    return guarded_main(R, [&] {
        int depth = R.thorough() ? 7 : 6; const int N = World::NOP;
        auto run = [&](const vector<int>& code) -> bool {
            string e; uint64_t h = 0; bool useful = true;
            { World w; try { for (size_t i = 0; i < code.size(); i++) { size_t a = w.f1.size() + w.f2.size() + w.m1.size() + w.m2.size(); bool p = w.act1, q = w.act2; int c = code[i];
                    if ((c == 8 || c == 15 || c == 16) && w.f1.empty()) { useful = false; break; } if (c == 14 && w.f2.empty()) { useful = false; break; } if ((c == 7 && !w.act1) || (c == 13 && !w.act2)) { if (i + 1 < code.size() && code.size() > 3) { useful = false; break; } }
                    w.apply(R, c); if (w.err.size()) break; (void)a; (void)p; (void)q; }
                if (useful) { if (w.err.empty()) w.check(R); h = w.hash(); for (auto& r : w.f1) if (w.err.empty()) w.check_f1(R, r);
                    // the recordings that are still open can be completed
                    if (w.err.empty() && w.act2) w.apply(R, 12); if (w.err.empty() && w.f2.size()) w.apply(R, 14); if (w.err.empty() && w.act1) { w.apply(R, 2); w.end1(false); if (w.err.empty()) w.check_f1(R, w.f1.back()); } if (w.err.empty()) w.check(R); }
                e = w.err; } catch (CppadError& x) { e = x.what(); }
              try { A1::abort_recording(); A2::abort_recording(); } catch (CppadError& x) { if (e.empty()) e = x.what(); } }
            if (!useful) return false;
            R.transitions += code.size(); if (g_seen.insert(h).second) R.states++; R.outcome(h);
            if (e.size()) { string d; for (int c : code) d += World::name(c) + "; "; R.fail("after " + d + e); } return true;
        };
        std::function<void(vector<int>&)> rec = [&](vector<int>& code) { if (!run(code)) return; if (int(code.size()) == depth) return; for (int c = 0; c < N && !R.case_failed; c++) { code.push_back(c); rec(code); code.pop_back(); } };
        if (R.family("seq")) for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { if (!R.next([=] { return World::name(a) + "; " + World::name(b) + fmt("; all continuations to depth %d", depth); })) continue; vector<int> code{a, b}; rec(code); }
        // from states in which both levels record, and after a finished and an aborted recording
        const vector<vector<int>> starts = {{1, 2, 9, 10}, {9, 0, 11, 2}, {0, 2, 5, 1, 3}, {1, 2, 7, 0, 18}, {0, 9, 11, 12, 2}, {9, 11, 12, 1, 14}, {1, 2, 6, 8, 16, 0}};
        if (R.family("later")) for (size_t s = 0; s < starts.size(); s++) for (int a = 0; a < N; a++) { if (!R.next([=] { string d; for (int c : starts[s]) d += World::name(c) + "; "; return d + World::name(a) + fmt("; all continuations of %d", depth - 1); })) continue; vector<int> code = starts[s]; int keep = depth; depth = int(code.size()) + keep - 1; code.push_back(a); rec(code); depth = keep; }
    });
}
