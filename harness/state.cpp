// Classification of AD objects (class), comparison change counting (cmp), VecAD as an array (vec), conditional skip (skip).
#include "families.hpp"
#include "battery.hpp"
using namespace prog; using namespace battery; using vf::Run;
typedef CppAD::ADFun<double> F;

template <class B> struct Guard { Run& R; B b;
    template <class G> void operator()(const G& g) {
        try { b(g); } catch (vf::Stop&) { throw; } catch (std::exception& e) { AD1::abort_recording(); AD2::abort_recording(); R.fail(std::string("exception ") + e.what()); } } };
template <class B> Guard<B> guard(Run& R, B b) { return Guard<B>{R, b}; }

// ------------------------------------------------------------------------------------------------ class
static int kind_of(const AD1& a) { return CppAD::Variable(a) ? 2 : CppAD::Dynamic(a) ? 1 : 0; }
static int kind_of(const AD2& a) { return CppAD::Variable(a) ? 2 : CppAD::Dynamic(a) ? 1 : 0; }
template <class A> static std::string one_kind(const A& a) {
    bool c = CppAD::Constant(a), d = CppAD::Dynamic(a), p = CppAD::Parameter(a), v = CppAD::Variable(a);
    if (int(c) + int(d) + int(v) != 1 || p == v) return vf::fmt("Constant %d Dynamic %d Parameter %d Variable %d", c, d, p, v);
    return "";
}
static const char* kname[] = {"constant", "dynamic parameter", "variable"};
struct Cls {
    Run& R; const std::vector<Point>& pts; int mode;   // mode 1: also two levels
    void operator()(const Prog& g) {
        int N = g.nnode();
        // what the values say: 2 if the value changes with x for equal p, 1 if it changes with p
        std::vector<char> must(N, 0); std::vector<char> up = classify(g);
        { bool vv = false; for (size_t k = 0; k < g.ins.size(); k++) { auto& s = g.ins[k]; int i = g.nleaf() + (int)k;      // a vector that was indexed by a dynamic parameter or variable is a variable
            if (s.op != VLD && s.op != VST) { if (vv) up[i] = 2; continue; }
            if (s.op == VLD && vv) up[i] = 2; if (up[s.a[0]] > 0 || (s.op == VST && up[s.a[1]] > 0)) vv = true; } }
        for (auto& px : pts) { const auto& p = px.p;
            std::vector<std::vector<double>> vs; std::vector<std::vector<char>> bad;
            for (auto& q : pts) { vs.push_back(run<double>(g, q.x, p)); bad.push_back(bad_nodes(g, vs.back(), false)); }
            for (int i = 0; i < N; i++) for (size_t a = 1; a < vs.size(); a++) if (!bad[0][i] && !bad[a][i] && vs[0][i] != vs[a][i]) must[i] = 2; }
        for (auto& px : pts) { const auto& x = px.x;
            std::vector<std::vector<double>> vs; std::vector<std::vector<char>> bad;
            for (auto& q : pts) { vs.push_back(run<double>(g, x, q.p)); bad.push_back(bad_nodes(g, vs.back(), false)); }
            for (int i = 0; i < N; i++) for (size_t a = 1; a < vs.size(); a++) if (!bad[0][i] && !bad[a][i] && vs[0][i] != vs[a][i]) must[i] = std::max<char>(must[i], 1); }
        for (size_t rec = 0; rec < 2; rec++) {
            const Point& at = pts[rec * 2];
            std::vector<double> dv = run<double>(g, at.x, at.p); std::vector<char> dbad = bad_nodes(g, dv, false);
            V1 ax(g.n), ap(g.m); for (int i = 0; i < g.n; i++) ax[i] = at.x[i]; for (int i = 0; i < g.m; i++) ap[i] = at.p[i];
            CppAD::Independent(ax, size_t(0), true, ap);
            std::vector<AD1> v = run<AD1>(g, ax, ap);
            std::vector<char> kd(N); uint64_t h = 1469598103934665603ull;
            for (int i = 0; i < N; i++) {
                std::string e = one_kind(v[i]); if (e.size()) { AD1::abort_recording(); R.fail(g.node(i) + ": " + e); return; }
                kd[i] = kind_of(v[i]); R.comparisons++;
                if (kd[i] < must[i]) { AD1::abort_recording(); R.fail(g.node(i) + vf::fmt(" is a %s but its value changes with the %s", kname[(int)kd[i]], must[i] == 2 ? "independent variables" : "dynamic parameters")); return; }
                if (kd[i] > up[i]) { AD1::abort_recording(); R.fail(g.node(i) + vf::fmt(" is a %s but it is computed from %s only", kname[(int)kd[i]], up[i] == 1 ? "parameters" : "constants")); return; }
                AD1 copy(v[i]), asg; asg = v[i]; AD1 vp = CppAD::Var2Par(v[i]);
                if (kind_of(copy) != kd[i] || kind_of(asg) != kd[i]) { AD1::abort_recording(); R.fail(g.node(i) + ": a copy is classified differently"); return; }
                if (CppAD::Variable(vp)) { AD1::abort_recording(); R.fail(g.node(i) + ": Var2Par returned a variable"); return; }
                double a = CppAD::Value(vp); if (!dbad[i] && !vf::close(a, dv[i], 1e-12, 1e-14)) { AD1::abort_recording(); R.fail(g.node(i) + vf::fmt(": Value(Var2Par) is %.17g, expected %.17g", a, dv[i])); return; }
                h = vf::hash_bytes(&kd[i], 1, h);
            }
            F f; bool abort = R.g_idx() % 3 == 2 && rec == 1;
            if (abort) AD1::abort_recording();
            else { V1 ay(N); for (int i = 0; i < N; i++) ay[i] = v[i]; f.Dependent(ax, ay);
                for (int i = 0; i < N; i++) if (f.Parameter(i) != (kd[i] != 2)) { R.fail(g.node(i) + vf::fmt(": f.Parameter is %d, the object was a %s", (int)f.Parameter(i), kname[(int)kd[i]])); return; } }
            // the recording is over: everything is a constant with the value it had
            for (int i = 0; i < N; i++) if (!CppAD::Constant(v[i]) || CppAD::Variable(v[i]) || CppAD::Dynamic(v[i]) || !CppAD::Parameter(v[i])) { R.fail(g.node(i) + " is not a constant after the recording"); return; }
            {   V1 z(1), q(N); z[0] = 2.0; CppAD::Independent(z);
                for (int i = 0; i < N; i++) q[i] = v[i] + z[0];
                bool any = false; for (int i = 0; i < N; i++) any |= kind_of(v[i]) != 0;
                F k; k.Dependent(z, q); k.check_for_nan(false); VD zz(1), w; zz[0] = -5.0; w = k.Forward(0, zz);
                if (any) { R.fail("an object of an earlier recording is not a constant in the next recording"); return; }
                for (int i = 0; i < N; i++) if (!dbad[i] && !vf::close(w[i], dv[i] - 5.0, 1e-12, 1e-13)) { R.fail(g.node(i) + vf::fmt(" used in the next recording: %.17g, expected %.17g", w[i], dv[i] - 5.0)); return; }
                if (N > 1 && k.size_var() != size_t(2 + N) && k.size_var() != size_t(2 + N) - 0) R.count["next_size"]++;
            }
            if (!abort) for (int w = 0; w < 2; w++) {
                F k; bool fin = true; for (int i = 0; i < N; i++) fin &= std::isfinite(dv[i]) && !dbad[i];
                bool vec = false; for (auto& s : g.ins) vec |= s.op == VLD || s.op == VST;
                if (w == 0) { k = f; k.optimize(); } else { if (vec || !fin) continue; CppAD::cpp_graph cg; f.to_graph(cg); k.from_graph(cg); }
                for (int i = 0; i < N; i++) { R.comparisons++; if (k.Parameter(i) && must[i] == 2) { R.fail(g.node(i) + vf::fmt(": Parameter is true after %s but the value changes with the independent variables", w ? "a graph round trip" : "optimize")); return; } }
            }
            if (mode && rec == 0) {   // two levels: the same at the second level while the first one records
                std::vector<char> must2(N, 0);
                for (auto& q : pts) { auto v0 = run<double>(g, q.x, at.p); auto b0 = bad_nodes(g, v0, false); for (int i = 0; i < N; i++) if (!b0[i] && !dbad[i] && v0[i] != dv[i]) must2[i] = 2; }
                V1 a1(g.n); for (int i = 0; i < g.n; i++) a1[i] = at.x[i];
                CppAD::Independent(a1);
                V2 a2(g.n), p2(g.m); for (int i = 0; i < g.n; i++) a2[i] = a1[i]; for (int i = 0; i < g.m; i++) p2[i] = at.p[i];
                CppAD::Independent(a2, size_t(0), true, p2);
                std::vector<AD2> v2 = run<AD2>(g, a2, p2);
                auto stop = [&](const std::string& m) { AD2::abort_recording(); AD1::abort_recording(); R.fail(m); };
                for (int i = 0; i < N; i++) {
                    std::string e = one_kind(v2[i]); if (e.size()) { stop("second level " + g.node(i) + ": " + e); return; }
                    int k2 = kind_of(v2[i]); bool mix = false; for (auto& s : g.ins) mix |= s.op == MXA || s.op == MXB || s.op == ATA || s.op == ATB;
                    R.comparisons++;
                    if (k2 < must[i]) { stop("second level " + g.node(i) + vf::fmt(" is a %s but its value changes", kname[k2])); return; }
                    if (!mix && k2 > up[i]) { stop("second level " + g.node(i) + vf::fmt(" is a %s but it is computed from %s only", kname[k2], up[i] == 1 ? "parameters" : "constants")); return; }
                }
                V2 y2(N); for (int i = 0; i < N; i++) y2[i] = v2[i];
                CppAD::ADFun<AD1> f2; if (R.g_idx() % 3 == 1) AD2::abort_recording(); else f2.Dependent(a2, y2);
                for (int i = 0; i < N; i++) {
                    if (!CppAD::Constant(v2[i])) { AD1::abort_recording(); R.fail("second level " + g.node(i) + " is not a constant after the recording"); return; }
                    AD1 w = CppAD::Value(v2[i]);
                    if (must2[i] == 2 && !CppAD::Variable(w)) { AD1::abort_recording(); R.fail("first level value of " + g.node(i) + " is not a variable while the first level records"); return; }
                    if (up[i] < 2 && CppAD::Variable(w)) { bool vec = false; for (auto& s : g.ins) vec |= s.op == VLD || s.op == VST; if (!vec) { AD1::abort_recording(); R.fail("first level value of " + g.node(i) + " is a variable"); return; } }
                }
                AD1::abort_recording();
                for (int i = 0; i < N; i++) if (CppAD::Variable(CppAD::Value(v2[i]))) { R.fail(g.node(i) + " is a variable after both recordings ended"); return; }
            }
            R.outcome(h);
        }
    }
};
// VecAD objects as a whole, compound assignment, and the element references
static void cls_vecad(Run& R) {
    if (!R.family("vobj")) return;
    // operations on one vector: 0 store const at const, 1 store dynamic, 2 store variable, 3 store const at dynamic index, 4 store at variable index, 5 load const index, 6 load variable index
    for (int len = 0; len <= 3; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= 7;
        for (int code = 0; code < tot; code++) for (int end = 0; end < 2; end++) {
            if (!R.next([=] { return vf::fmt("len %d ops %d end %d", len, code, end); })) continue;
            CppAD::VecAD<double> v(2); v[size_t(0)] = 1.0; v[size_t(1)] = 2.0;
            V1 x(2), p(2); x[0] = 1.0; x[1] = 0.5; p[0] = 1.0; p[1] = 0.25;
            auto chk = [&](bool want_var, bool need_var, const char* when) {
                bool c = CppAD::Constant(v), d = CppAD::Dynamic(v), pa = CppAD::Parameter(v), va = CppAD::Variable(v); R.comparisons++;
                if (va == pa || int(c) + int(d) + int(va) != 1) { AD1::abort_recording(); R.fail(vf::fmt("%s: Constant %d Dynamic %d Parameter %d Variable %d", when, c, d, pa, va)); return false; }
                if (need_var && !va) { AD1::abort_recording(); R.fail(vf::fmt("%s: an element depends on the independent variables and the vector is not a variable", when)); return false; }
                if (!want_var && va) { AD1::abort_recording(); R.fail(vf::fmt("%s: no element depends on the independent variables and the vector is a variable", when)); return false; }
                return true; };
            if (!chk(false, false, "before the recording")) continue;
            try {
            CppAD::Independent(x, size_t(0), true, p);
            bool may = false, need = false; int c = code; bool bad = false; AD1 sum = x[0];
            if (!chk(false, false, "start")) continue;
            for (int i = 0; i < len && !bad; i++, c /= 7) {
                AD1 z;
                switch (c % 7) {
                    case 0: v[AD1(1.0)] = AD1(3.0); break;                              // constants only
                    case 1: v[AD1(0.0)] = p[1]; may = true; break;
                    case 2: v[AD1(0.0)] = x[1]; may = need = true; break;
                    case 3: v[p[0]] = AD1(4.0); may = true; break;
                    case 4: v[x[0]] = AD1(5.0); may = need = true; break;
                    case 5: z = v[AD1(1.0)]; sum += z; if (need ? false : (!may && CppAD::Variable(z))) { bad = true; } break;
                    case 6: z = v[x[0]]; sum += z; may = true; need = need || false; break;
                }
                if (bad) { AD1::abort_recording(); R.fail("an element of a constant vector is a variable"); break; }
                if (!chk(may, need, "during the recording")) bad = true;
            }
            if (bad) continue;
            F f; V1 y(1); y[0] = sum; if (end) AD1::abort_recording(); else f.Dependent(x, y);
            if (!chk(false, false, "after the recording")) continue;
            R.outcome(code % 97 + 100 * end);
            } catch (std::exception& e) { AD1::abort_recording(); R.fail(e.what()); }
        } }
}

// ------------------------------------------------------------------------------------------------ cmp
struct Cmp { int rel, l, r; };     // operands: 0 x0, 1 x1, 2 x0*x1, 3 p0, 4 p0+p0, 5 AD constant 1, 6 double 1, 7 int 1
static const char* relname[] = {"<", "<=", ">", ">=", "==", "!="}; static const char* opname[] = {"x0", "x1", "x0*x1", "p0", "p0+p0", "AD(1)", "1.0", "int(1)"};
static bool rel_of(int rel, double a, double b) { switch (rel) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } }
template <class L, class Q> static bool rel_ad(int rel, const L& a, const Q& b) { switch (rel) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } }
static bool do_cmp(const Cmp& c, const AD1* v) {
    if (c.l >= 6) return c.l == 6 ? rel_ad(c.rel, 1.0, v[c.r]) : rel_ad(c.rel, 1, v[c.r]);
    if (c.r >= 6) return c.r == 6 ? rel_ad(c.rel, v[c.l], 1.0) : rel_ad(c.rel, v[c.l], 1);
    return rel_ad(c.rel, v[c.l], v[c.r]);
}
struct CPt { double x0, x1, p0; };
static double cval(int k, const CPt& q) { double t[] = {q.x0, q.x1, q.x0 * q.x1, q.p0, q.p0 + q.p0, 1.0, 1.0, 1.0}; return t[k]; }
static std::string cstr(const std::vector<Cmp>& s) { std::string r; for (auto& c : s) r += std::string(opname[c.l]) + relname[c.rel] + opname[c.r] + "; "; return r; }
struct CmpRun {
    Run& R; const std::vector<CPt>& eval; bool deep;
    // returns the number of comparisons that were executed (less than all if an error was raised)
    int record(const std::vector<Cmp>& s, const CPt& at, F& f, size_t abort_op, bool rec_cmp, std::vector<char>& res) {
        V1 x(2), p(1); x[0] = at.x0; x[1] = at.x1; p[0] = at.p0; int done = 0; res.clear();
        try {
            CppAD::Independent(x, abort_op, rec_cmp, p);
            AD1 v[6]; v[0] = x[0]; v[1] = x[1]; v[2] = x[0] * x[1]; v[3] = p[0]; v[4] = p[0] + p[0]; v[5] = 1.0;
            for (auto& c : s) { res.push_back(do_cmp(c, v)); done++; }
            V1 y(1); y[0] = v[2] + v[4]; f.Dependent(x, y); return (int)s.size() + 1;
        } catch (vf::CppadError& e) { AD1::abort_recording(); if (!abort_op) throw; return done; }
    }
    void operator()(const std::pair<std::vector<Cmp>, CPt>& in) {
        const std::vector<Cmp>& s = in.first; const CPt& at = in.second; int K = (int)s.size();
        F f; std::vector<char> res; record(s, at, f, 0, true, res);
        std::vector<char> want0(K);
        for (int i = 0; i < K; i++) { want0[i] = rel_of(s[i].rel, cval(s[i].l, at), cval(s[i].r, at)); if (want0[i] != res[i]) { R.fail(vf::fmt("comparison %d returned %d, the values give %d", i, (int)res[i], (int)want0[i])); return; } }
        // canonical form of what optimize may merge
        std::vector<std::array<int,3>> can(K);
        for (int i = 0; i < K; i++) { int rel = s[i].rel, l = std::min(s[i].l, 5), r = std::min(s[i].r, 5); bool t = want0[i];
            if (rel == 2 || rel == 3) { std::swap(l, r); rel -= 2; }
            if (rel <= 1 && !t) { std::swap(l, r); rel = 1 - rel; }
            if (rel >= 4) { if (!t) rel = 9 - rel; if (l > r) std::swap(l, r); }
            can[i] = {rel, l, r}; }
        auto is_const = [](int k) { return k >= 5; };
        std::vector<F*> fs = {&f}; std::vector<std::string> nm = {"recorded"}; F copy, opt, nocmp, json, nor; std::vector<int> type = {0};
        { copy = f; F tmp; tmp = f; copy.swap(tmp); fs.push_back(&copy); nm.push_back("copy"); type.push_back(0); }
        { opt = f; opt.optimize(); fs.push_back(&opt); nm.push_back("optimized"); type.push_back(1); }
        if (deep || R.g_idx() % 4 == 0) {
            nocmp = f; nocmp.optimize("no_compare_op"); fs.push_back(&nocmp); nm.push_back("optimize(no_compare_op)"); type.push_back(2);
            record(s, at, nor, 0, false, res); fs.push_back(&nor); nm.push_back("record_compare false"); type.push_back(2);
            json.from_json(f.to_json()); fs.push_back(&json); nm.push_back("JSON round trip"); type.push_back(3); }
        std::map<int, size_t> where; uint64_t h = 7; 
        for (size_t k = 0; k < fs.size(); k++) {
            F& q = *fs[k]; size_t last_num = 0;
            for (size_t ie = 0; ie < eval.size(); ie++) {
                const CPt& e = eval[ie];
                std::vector<int> chg; std::set<std::array<int,3>> dist;
                for (int i = 0; i < K; i++) { bool now = rel_of(s[i].rel, cval(s[i].l, e), cval(s[i].r, e)); if (now != (bool)want0[i]) { chg.push_back(i); dist.insert(can[i]); } }
                for (int i : chg) if (is_const(s[i].l) && is_const(s[i].r)) { R.fail("harness: constants changed"); return; }
                VD x(2), p(1); x[0] = e.x0; x[1] = e.x1; p[0] = e.p0;
                size_t ncount = k == 0 ? K + 2 : 2;
                for (size_t cc = 0; cc < ncount; cc++) {
                    size_t count = (cc + ie) % ncount; if (k == 0 || (deep && k == 3)) q.compare_change_count(count); else count = 1;
                    if (k == 0) { if (q.compare_change_number() || q.compare_change_op_index()) { R.fail("compare_change_count does not reset the number or index"); return; } }
                    q.new_dynamic(p); q.Forward(0, x); R.comparisons++;
                    size_t num = q.compare_change_number(), ix = q.compare_change_op_index();
                    size_t hi = count ? chg.size() : 0, lo = hi;
                    if (type[k] == 1 || type[k] == 3) lo = count ? dist.size() : 0;
                    if (type[k] == 2) hi = lo = 0;
                    std::string w = nm[k] + vf::fmt(" recorded at (%g,%g,%g) evaluated at (%g,%g,%g) count %zu: ", at.x0, at.x1, at.p0, e.x0, e.x1, e.p0, count);
                    if (num < lo || num > hi) { R.fail(w + vf::fmt("number %zu, expected %zu", num, hi)); return; }
                    if (type[k] == 1 || type[k] == 2) { if (ix && type[k] == 1) { R.fail(w + "op_index of an optimized function is not zero"); return; } if (type[k] == 2 && ix) { R.fail(w + "op_index without comparisons"); return; } }
                    else if ((ix != 0) != (count > 0 && num >= count)) { R.fail(w + vf::fmt("op_index %zu, number %zu", ix, num)); return; }
                    if (k == 0 && ix) { int i = chg[count - 1]; auto it = where.find(i); if (it == where.end()) where[i] = ix; else if (it->second != ix) { R.fail(w + vf::fmt("op_index %zu, the same comparison was %zu before", ix, it->second)); return; } }
                    if (k == 1 && ix && where.count(chg[0]) && where[chg[0]] != ix) { R.fail(w + "op_index differs in a copy"); return; }
                    last_num = num; h = h * 1099511628211ull + num;
                }
            }
            (void)last_num;
        }
        size_t prev = 0; for (auto& w : where) { if (w.second <= prev) { R.fail("op_index is not increasing with the comparisons"); return; } prev = w.second; }
        // abort_op_index: recording again stops at exactly this comparison
        if (deep || R.g_idx() % 4 == 1) for (auto& w : where) { F k; int done = record(s, at, k, w.second, true, res); R.comparisons++; R.transitions++; if (done != w.first) { R.fail(vf::fmt("Independent with abort_op_index %zu stops after %d comparisons, expected at comparison %d", w.second, done, w.first)); return; } }
        R.outcome(h);
    }
};
static void cmp_main(Run& R) {
    bool th = R.thorough(); std::vector<double> vals = {0.5, 1.0, 2.0}; std::vector<CPt> grid, few = {{0.5, 2.0, 1.0}, {1.0, 1.0, 1.0}, {2.0, 0.5, 0.5}, {1.0, 2.0, 2.0}};
    for (double a : vals) for (double b : vals) for (double c : vals) grid.push_back({a, b, c});
    auto pairs = [&](std::vector<int> l) { std::vector<Cmp> r; for (int rel = 0; rel < 6; rel++) for (int a : l) for (int b : l) if (a < 6 || b < 6) r.push_back({rel, a, b}); return r; };
    auto go = [&](std::vector<Cmp> s, const CPt& at, bool deep) { CmpRun c{R, grid, deep}; if (R.next([s] { return cstr(s); })) guard(R, c)(std::make_pair(s, at)); };
    double inf = std::numeric_limits<double>::infinity();
    std::vector<CPt> ext = {{inf, 1.0, 1.0}, {1.0, inf, 1.0}, {inf, inf, 1.0}, {-inf, inf, 1.0}, {-inf, -inf, 1.0}, {1.0, 2.0, inf}, {inf, 2.0, inf}, {-1e308, 1.5e308, 1.0}, {1.5e308, -1e308, 1.0}, {5e-324, 0.0, 1.0}, {0.0, -5e-324, 1.0}, {0.0, -0.0, 0.5}};
    if (R.family("one")) for (auto& c : pairs({0, 1, 2, 3, 4, 5, 6, 7})) for (auto& at : grid) go({c}, at, true);
    if (R.family("extreme")) for (auto& c : pairs({0, 1, 3, 5, 6, 7})) for (auto& at : grid) { CmpRun r{R, ext, true}; std::vector<Cmp> s = {c}; if (R.next([s] { return cstr(s); })) guard(R, r)(std::make_pair(s, at)); }
    if (R.family("two")) for (auto& c : pairs({0, 1, 3, 6})) for (auto& d : pairs({0, 1, 3, 6})) for (auto& at : few) go({c, d}, at, th);
    if (R.family("three")) { auto l = th ? pairs({0, 1, 3}) : pairs({0, 1}); for (auto& c : l) for (auto& d : l) for (auto& e : l) go({c, d, e}, few[(c.rel + d.l + e.r) % 4], false); }
}

// ------------------------------------------------------------------------------------------------ vec
struct Hy { double v = 0, g[3] = {0, 0, 0}, h[3][3] = {{0}}; };       // value, gradient, Hessian with respect to x0, x1, x2
static Hy hc(double v) { Hy r; r.v = v; return r; }
static Hy hcomb(const Hy& a, const Hy& b, double v, double fa, double fb, double faa, double fab, double fbb) {
    Hy r; r.v = v; for (int i = 0; i < 3; i++) r.g[i] = fa * a.g[i] + fb * b.g[i];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.h[i][j] = fa * a.h[i][j] + fb * b.h[i][j] + faa * a.g[i] * a.g[j] + fab * (a.g[i] * b.g[j] + b.g[i] * a.g[j]) + fbb * b.g[i] * b.g[j];
    return r; }
static Hy hop(int op, const Hy& a, const Hy& b) { switch (op) { case 0: return hcomb(a, b, a.v + b.v, 1, 1, 0, 0, 0); case 1: return hcomb(a, b, a.v - b.v, 1, -1, 0, 0, 0);
    case 2: return hcomb(a, b, a.v * b.v, b.v, a.v, 0, 1, 0); default: return hcomb(a, b, a.v / b.v, 1 / b.v, -a.v / (b.v * b.v), 0, -1 / (b.v * b.v), 2 * a.v / (b.v * b.v * b.v)); } }
// index kinds: 0 const 0, 1 const 1, 2 x0, 3 p0, 4 the last loaded value modulo 2 by a discrete-like: p0*x0 (variable times dynamic)
// value kinds: 0 const 1.5, 1 p1, 2 x1, 3 last loaded, 4 x1*x2, 5 x0, 6 sin(x2), 7 AD constant -0.75
struct VStep { int vec, idx, kind, val; };     // kind: 0 load, 1 store
struct VPt { double x[3], p[2]; };
static std::string vstr(const std::vector<VStep>& s) { static const char* in[] = {"0", "1", "x0", "p0", "x0*p0"}; static const char* vn[] = {"1.5", "p1", "x1", "last", "x1*x2", "x0", "sin(x2)", "AD(-.75)"}; static const char* kn[] = {"load", "=", "+=", "-=", "*=", "/="};
    std::string r; for (auto& q : s) { r += vf::fmt("%c[%s]", "uv"[q.vec], in[q.idx]); r += q.kind ? std::string(kn[q.kind]) + vn[q.val] : " load"; r += "; "; } return r; }
static double idx_val(int k, const VPt& q) { double t[] = {0.0, 1.0, q.x[0], q.p[0], q.x[0] * q.p[0]}; return t[k]; }
struct VecRun { Run& R; const std::vector<VPt>& pts; size_t rec_at;
    std::vector<Hy> ref(const std::vector<VStep>& s, const VPt& q) {
        Hy u[2][2] = {{hc(0.25), hc(-0.5)}, {hc(1.25), hc(2.0)}}; Hy x[3]; for (int i = 0; i < 3; i++) { x[i] = hc(q.x[i]); x[i].g[i] = 1; }
        Hy last = x[1]; std::vector<Hy> y;
        for (auto& t : s) { Hy& el = u[t.vec][size_t(idx_val(t.idx, q))];
            if (t.kind == 0) { last = el; y.push_back(last); continue; }
            Hy val; switch (t.val) { case 0: val = hc(1.5); break; case 1: val = hc(q.p[1]); break; case 2: val = x[1]; break; case 3: val = last; break; case 4: val = hop(2, x[1], x[2]); break; case 5: val = x[0]; break;
                case 6: { Hy z = x[2]; val = hcomb(z, z, std::sin(z.v), std::cos(z.v), 0, -std::sin(z.v), 0, 0); break; } default: val = hc(-0.75); }
            if (t.kind == 1) el = val; else el = hop(t.kind - 2, el, val); }
        y.push_back(u[0][0]); y.push_back(u[0][1]); y.push_back(u[1][size_t(q.x[0])]); y.push_back(u[1][size_t(q.p[0])]); return y; }
    void record(const std::vector<VStep>& s, const VPt& q, F& f) {
        CppAD::VecAD<double> u(2), v(2); u[size_t(0)] = 0.25; u[size_t(1)] = -0.5; v[size_t(0)] = 1.25; v[size_t(1)] = 2.0; CppAD::VecAD<double>* w[2] = {&u, &v};
        V1 x(3), p(2); for (int i = 0; i < 3; i++) x[i] = q.x[i]; for (int i = 0; i < 2; i++) p[i] = q.p[i];
        CppAD::Independent(x, size_t(0), true, p);
        std::vector<AD1> y; AD1 last = x[1];
        for (auto& t : s) {
            AD1 ix = t.idx == 0 ? AD1(0.0) : t.idx == 1 ? AD1(1.0) : t.idx == 2 ? x[0] : t.idx == 3 ? p[0] : x[0] * p[0]; CppAD::VecAD<double>& V = *w[t.vec];
            if (t.kind == 0) { last = V[ix]; y.push_back(last); continue; }
            AD1 val; double c = 0; bool isc = false; switch (t.val) { case 0: c = 1.5; isc = true; break; case 1: val = p[1]; break; case 2: val = x[1]; break; case 3: val = last; break; case 4: val = x[1] * x[2]; break; case 5: val = x[0]; break; case 6: val = sin(x[2]); break; default: val = AD1(-0.75); }
            if (isc) V[ix] = c; else V[ix] = val;
        }
        y.push_back(u[AD1(0.0)]); y.push_back(u[AD1(1.0)]); y.push_back(v[x[0]]); y.push_back(v[p[0]]);
        V1 ay(y.size()); for (size_t i = 0; i < y.size(); i++) ay[i] = y[i]; f.Dependent(x, ay); }
    void operator()(const std::vector<VStep>& s) {
        F f; record(s, pts[rec_at], f); uint64_t h = 99;
        size_t n = 3, m = f.Range(); std::vector<char> nzj(m * n, 0), nzh(m * n * n, 0), chg(m * n, 0);
        std::vector<std::vector<Hy>> want; for (auto& q : pts) want.push_back(ref(s, q));
        for (size_t k = 0; k < pts.size(); k++) for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { if (want[k][i].g[j] != 0) nzj[i * n + j] = 1; for (size_t l = 0; l < n; l++) if (want[k][i].h[j][l] != 0) nzh[(i * n + j) * n + l] = 1; }
        for (size_t a = 0; a < pts.size(); a++) for (size_t b = 0; b < pts.size(); b++) { int dx = -1, nd = 0; for (int j = 0; j < 3; j++) if (pts[a].x[j] != pts[b].x[j]) { dx = j; nd++; } if (nd != 1 || pts[a].p[0] != pts[b].p[0] || pts[a].p[1] != pts[b].p[1]) continue;
            for (size_t i = 0; i < m; i++) if (want[a][i].v != want[b][i].v) chg[i * n + dx] = 1; }
        F g; g = f; g.optimize(); F g2; bool three = R.g_idx() % 5 == 0; if (three) { g2 = g; g2.optimize("no_conditional_skip"); }
        F* fs[3] = {&f, &g, &g2}; const char* nm[] = {"", "after optimize: ", "after optimize twice: "};
        for (int w = 0; w < (three ? 3 : 2); w++) { F& k = *fs[w];
            for (size_t ip = 0; ip < pts.size(); ip++) { const VPt& q = pts[ip]; VD x(3), p(2); for (int i = 0; i < 3; i++) x[i] = q.x[i]; for (int i = 0; i < 2; i++) p[i] = q.p[i];
                k.new_dynamic(p); VD y = k.Forward(0, x); const auto& y0 = want[ip];
                auto at = [&] { return std::string(nm[w]) + vf::fmt("at x=(%g,%g,%g) p=(%g,%g): ", q.x[0], q.x[1], q.x[2], q.p[0], q.p[1]); };
                for (size_t i = 0; i < m; i++) { R.comparisons++; if (!vf::close(y[i], y0[i].v, 1e-13, 1e-14)) { R.fail(at() + vf::fmt("y%zu = %.17g, expected %.17g", i, y[i], y0[i].v)); return; } }
                for (int j = 0; j < 3; j++) { VD dx(3, 0.0); for (int i = 0; i < 3; i++) dx[i] = 0.0; dx[j] = 1; VD dy = k.Forward(1, dx);
                    for (size_t i = 0; i < m; i++) { R.comparisons++; if (!vf::close(dy[i], y0[i].g[j], 1e-12, 1e-13)) { R.fail(at() + vf::fmt("forward derivative of y%zu with respect to x%d = %.17g, expected %.17g", i, j, dy[i], y0[i].g[j])); return; } }
                    if (w == 0 || j == int(R.g_idx() % 3)) for (size_t i = 0; i < m; i++) { VD wt(m); for (size_t a = 0; a < m; a++) wt[a] = a == i; VD d = k.Reverse(2, wt);
                        for (int a = 0; a < 3; a++) { R.comparisons++; if (!vf::close(d[2 * a + 1], y0[i].h[a][j], 1e-12, 1e-13) || !vf::close(d[2 * a], y0[i].g[a], 1e-12, 1e-13)) { R.fail(at() + vf::fmt("reverse of y%zu with respect to x%d (direction x%d): %.17g %.17g, expected %.17g %.17g", i, a, j, d[2 * a], d[2 * a + 1], y0[i].g[a], y0[i].h[a][j])); return; } } } }
                h = vf::hash_bytes(y.data(), m * 8, h);
            }
            // patterns hold for every index value
            typedef CppAD::vector<size_t> VS; typedef CppAD::sparse_rc<VS> P; P eye(n, n, n); for (size_t i = 0; i < n; i++) eye.set(i, i, i); P eyem(m, m, m); for (size_t i = 0; i < m; i++) eyem.set(i, i, i);
            for (int dep = 0; dep < 2; dep++) for (int rev = 0; rev < 2; rev++) { P out; if (rev) k.rev_jac_sparsity(eyem, false, dep, R.g_idx() & 1, out); else k.for_jac_sparsity(eye, false, dep, R.g_idx() & 1, out);
                std::vector<char> b(m * n, 0); for (size_t a = 0; a < out.nnz(); a++) b[out.row()[a] * n + out.col()[a]] = 1;
                for (size_t a = 0; a < m * n; a++) { R.comparisons++; if ((nzj[a] || (dep && chg[a])) && !b[a]) { R.fail(std::string(nm[w]) + vf::fmt("%s_jac_sparsity(dependency %d) misses (%zu,%zu)", rev ? "rev" : "for", dep, a / n, a % n)); return; } } }
            {   CppAD::vector<bool> sd(n), sr(m); for (size_t i = 0; i < n; i++) sd[i] = true; for (size_t i = 0; i < m; i++) sr[i] = true; P out;
                std::vector<char> nh(n * n, 0); for (size_t i = 0; i < m; i++) for (size_t a = 0; a < n * n; a++) nh[a] |= nzh[i * n * n + a];
                for (int rev = 0; rev < 2; rev++) { if (rev) { P o2; k.for_jac_sparsity(eye, false, false, false, o2); k.rev_hes_sparsity(sr, false, false, out); } else k.for_hes_sparsity(sd, sr, false, out);
                    std::vector<char> b(n * n, 0); for (size_t a = 0; a < out.nnz(); a++) b[out.row()[a] * n + out.col()[a]] = 1;
                    for (size_t a = 0; a < n * n; a++) { R.comparisons++; if (nh[a] && !b[a]) { R.fail(std::string(nm[w]) + vf::fmt("%s_hes_sparsity misses (%zu,%zu)", rev ? "rev" : "for", a / n, a % n)); return; } } }
                k.subgraph_sparsity(sd, sr, false, out); std::vector<char> b(m * n, 0); for (size_t a = 0; a < out.nnz(); a++) b[out.row()[a] * n + out.col()[a]] = 1;
                for (size_t a = 0; a < m * n; a++) { R.comparisons++; if ((nzj[a] || chg[a]) && !b[a]) { R.fail(std::string(nm[w]) + vf::fmt("subgraph_sparsity misses (%zu,%zu)", a / n, a % n)); return; } } }
        }
        R.outcome(h);
    }
};
static void vec_main(Run& R) {
    bool th = R.thorough();
    static std::vector<VPt> pts = {{{0.3, 0.7, -0.4}, {1.0, 0.6}}, {{1.3, 0.7, -0.4}, {1.0, 0.6}}, {{1.5, -0.6, 0.9}, {0.0, 2.0}}, {{0.0, 1.25, 0.5}, {0.2, -1.0}}};
    auto fam = [&](const char* name, int len, std::vector<int> vecs, std::vector<int> idx, std::vector<int> vals, std::vector<int> kinds, bool last_any = false) {
        if (!R.family(name)) return;
        std::vector<VStep> alpha; for (int v : vecs) for (int i : idx) for (int k : kinds) if (k == 0) alpha.push_back({v, i, 0, 0}); else for (int a : vals) alpha.push_back({v, i, k, a});
        std::vector<size_t> d(len, 0); 
        for (;;) { std::vector<VStep> s; for (size_t k : d) s.push_back(alpha[k]);
            bool ok = true; if (!last_any) { bool st = false; for (auto& q : s) st |= q.kind != 0; ok = st; }
            if (ok && R.next([s] { return vstr(s); })) { VecRun v{R, pts, size_t(R.g_idx() % 2 * 3)}; guard(R, v)(s); }
            int j = len - 1; while (j >= 0 && ++d[j] == alpha.size()) d[j--] = 0; if (j < 0) break; } };
    fam("v1", 1, {0, 1}, {0, 1, 2, 3, 4}, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1}, true);
    fam("v2", 2, {0, 1}, {0, 1, 2, 3, 4}, th ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 1, 3, 4}, {0, 1});
    fam("v3", 3, {0, 1}, {1, 2, 3}, th ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{1, 3, 4}, {0, 1});
    if (th) fam("v4", 4, {0, 1}, {1, 2}, {1, 3, 4}, {0, 1});
    else fam("v4", 4, {0}, {1, 2}, {3, 4}, {0, 1});
    if (R.deep()) fam("v5", 5, {0}, {1, 2}, {1, 4}, {0, 1});
}

// ------------------------------------------------------------------------------------------------ skip
static std::vector<Point> skip_points() { std::vector<Point> v = std_points(); v.push_back({{0.5, 0.5}, {2.0, -1.5}}); v.push_back({{-1.25, -1.5}, {0.45, 0.3}}); return v; }
struct Skip { Run& R; const std::vector<Point>& pts; bool all_pairs;
    void operator()(const Prog& g) {
        F f; record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false);
        F k, ns; k = f; k.optimize(); k.check_for_nan(false); ns = f; ns.optimize("no_conditional_skip"); ns.check_for_nan(false);
        size_t np = pts.size(), n = 2, m = f.Range(); std::vector<Sig> want(np); std::vector<std::vector<char>> bv(np), bd(np); Options o; 
        std::vector<size_t> num(np, ~size_t(0)); uint64_t h = 5;
        typedef CppAD::vector<size_t> VS; typedef CppAD::sparse_rc<VS> P; P eyem(m, m, m), p0; for (size_t i = 0; i < m; i++) eyem.set(i, i, i); k.rev_jac_sparsity(eyem, false, true, false, p0);
        CppAD::vector<bool> sd(n), sr(m); for (size_t i = 0; i < n; i++) sd[i] = true; for (size_t i = 0; i < m; i++) sr[i] = true; P h0; k.for_hes_sparsity(sd, sr, false, h0);
        auto same = [](const P& a, const P& b) { std::set<std::pair<size_t,size_t>> s, t; for (size_t i = 0; i < a.nnz(); i++) s.insert({a.row()[i], a.col()[i]}); for (size_t i = 0; i < b.nnz(); i++) t.insert({b.row()[i], b.col()[i]}); return s == t; };
        for (size_t i = 0; i < np; i++) { bad_deps(g, pts[i], bv[i], bd[i]); observe(f, pts[i], want[i], o, &bd[i]); R.comparisons++; if (f.number_skip()) { R.fail("number_skip is not zero before optimize"); return; }
            VD x(2), p(2); for (int j = 0; j < 2; j++) { x[j] = pts[i].x[j]; p[j] = pts[i].p[j]; } ns.new_dynamic(p); ns.Forward(0, x); if (ns.number_skip()) { R.fail("number_skip is not zero after optimize(no_conditional_skip)"); return; } }
        // every ordered pair of points occurs as (previous, current)
        std::vector<size_t> walk; for (size_t i = 0; i < np; i++) { walk.push_back(i); if (all_pairs) for (size_t j = i + 1; j < np; j++) { walk.push_back(j); walk.push_back(i); } else walk.push_back((i + R.g_idx()) % np); }
        for (size_t w = 0; w < walk.size(); w++) { size_t ip = walk[w]; const Point& pt = pts[ip]; Sig s;
            // alternate: full observation, or only a value, or a value through a sparsity calculation
            if (w % 3 == 1) { VD x(2), p(2); for (int j = 0; j < 2; j++) { x[j] = pt.x[j]; p[j] = pt.p[j]; } k.new_dynamic(p); VD y = k.Forward(0, x); for (size_t i = 0; i < m; i++) if (!bv[ip][i]) { R.comparisons++; if (!vf::close(y[i], want[ip].v[i], 1e-12, 1e-13)) { R.fail(vf::fmt("point %zu after point %zu: y%zu = %.17g, expected %.17g", ip, w ? walk[w - 1] : ip, i, y[i], want[ip].v[i])); return; } } }
            else { observe(k, pt, s, o, &bd[ip]); std::string e = diff(want[ip], s, bv[ip], bd[ip], R); if (e.size()) { R.fail(vf::fmt("point %zu after point %zu: ", ip, w ? walk[w - 1] : ip) + e); return; } }
            size_t c = k.number_skip(); R.transitions++;
            bool finite = true; { std::vector<double> v = run<double>(g, pt.x, pt.p); auto b = bad_nodes(g, v, false); for (char q : b) finite &= !q; }
            if (finite) { if (num[ip] == ~size_t(0)) num[ip] = c; else if (num[ip] != c) { R.fail(vf::fmt("number_skip is %zu at point %zu after point %zu, it was %zu before", c, ip, walk[w - 1], num[ip])); return; } }
            if (c) R.count["skipped"]++; if (c >= k.size_var()) { R.fail("number_skip is not less than the number of variables"); return; }
            h = h * 31 + c;
            if (w % 4 == 2) { P p1, h1; k.rev_jac_sparsity(eyem, false, true, false, p1); if (!same(p0, p1)) { R.fail("dependency pattern changed after a skip"); return; } k.for_hes_sparsity(sd, sr, false, h1); if (!same(h0, h1)) { R.fail("Hessian pattern changed after a skip"); return; } }
        }
        R.outcome(h);
    }
};
static long g_calls = 0; static double cntf(const double& x) { g_calls++; return std::floor(4.0 * x); }
CPPAD_DISCRETE_FUNCTION(double, cntf)
// number_skip against the calls of a discrete function that are really left out: nests of depth 1 (exact) and 2
static void skip_count(Run& R) {
    if (!R.family("count")) return;
    // branches: chains of 0..3 discrete calls on x0, x1, or shared with the other branch; condition on variables or dynamics
    typedef AD1 A;
    for (int rel = 0; rel < 5; rel++) for (int cond = 0; cond < 3; cond++) for (int t = 0; t < 6; t++) for (int u = 0; u < 6; u++) for (int nest = 0; nest < 4; nest++) for (int late = 0; late < 2; late++) {
        if (!R.next([=] { return vf::fmt("rel %d cond %d branches %d %d nest %d other use %d", rel, cond, t, u, nest, late); })) continue;
        try {
        V1 x(2), p(2); x[0] = 0.3; x[1] = 0.7; p[0] = 0.45; p[1] = -0.8; CppAD::Independent(x, size_t(0), true, p);
        auto chain = [&](int k, int salt) -> A { A a = x[0] + double(salt);
            switch (k) { case 0: return A(1.5); case 1: return cntf(a); case 2: return cntf(x[1]); case 3: return cntf(A(cntf(a) + 0.1)); case 4: return cntf(A(x[1] + cntf(x[1]))); default: return cntf(a) + cntf(A(x[1] + double(salt))); } };
        A l = cond == 0 ? x[0] : cond == 1 ? p[0] : x[1], r = cond == 0 ? x[1] : cond == 1 ? p[1] : A(0.5);
        auto ce = [&](const A& a, const A& b, const A& c, const A& d) { return rel == 0 ? CondExpLt(a, b, c, d) : rel == 1 ? CondExpLe(a, b, c, d) : rel == 2 ? CondExpEq(a, b, c, d) : rel == 3 ? CondExpGe(a, b, c, d) : CondExpGt(a, b, c, d); };
        A ct = chain(t, 2), cf = chain(u, 5), y = ce(l, r, ct, cf); int ncx = CppAD::Variable(y) ? 1 : 0; int inner = 0;
        if (nest == 1) { A w = CondExpLt(x[0], A(0.0), y, cntf(A(x[0] * x[1]))); inner = ncx; y = w; }
        if (nest == 2) { A w = CondExpGt(p[0], A(0.0), cntf(A(x[0] * x[1])), y); inner = ncx; y = w; }
        if (nest == 3) { A w = CondExpLe(x[1], x[0], y, ce(r, l, cntf(A(x[1] - x[0])), A(2.0))); inner = 2; y = w; }
        V1 ay(1); ay[0] = late ? y + ct : y; F f(x, ay), k, ns; k = f; k.optimize(); ns = f; ns.optimize("no_conditional_skip"); uint64_t h = 3;
        for (auto& pt : skip_points()) {
            VD xx(2), pp(2); for (int j = 0; j < 2; j++) { xx[j] = pt.x[j]; pp[j] = pt.p[j]; }
            k.new_dynamic(pp); ns.new_dynamic(pp); f.new_dynamic(pp);
            g_calls = 0; VD a = k.Forward(0, xx); long ck = g_calls; g_calls = 0; VD b = ns.Forward(0, xx); long cn = g_calls; VD c = f.Forward(0, xx); long num = (long)k.number_skip();
            R.comparisons++;
            if (a[0] != c[0] || b[0] != c[0]) { R.fail(vf::fmt("value %g with skip, %g without, %g not optimized", a[0], b[0], c[0])); break; }
            long left = cn - ck; long extra = num - left;     // other operations that may be skipped: additions feeding the calls and inner conditional expressions
            // additions: each chain variable x0 + salt (only used in its branch), sums; bound them by the program: at most 8
            if (left < 0 || extra < 0) { R.fail(vf::fmt("%ld calls of the discrete function were left out, number_skip is %ld", left, num)); break; }
            if (left == 0 && num > inner + 8) { R.fail(vf::fmt("number_skip is %ld but nothing was left out", num)); break; }
            if (left) R.count["left_out"]++;
            // number_skip also equals the loss when nothing else can be skipped: branches 2 and 0 have no other operation
            bool pure = cond != 1 && (t == 0 || t == 2) && (u == 0 || u == 2) && nest == 0; if (pure && extra) { R.fail(vf::fmt("%ld operations were left out, number_skip is %ld", left, num)); break; }
            h = h * 31 + num;
        }
        R.outcome(h);
        } catch (std::exception& e) { AD1::abort_recording(); R.fail(e.what()); }
    }
}

int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler); the_atom(); the_mix(); { AD2 z(0.5); dis2(z); AD1 y(0.5); dis1(y); cntf(y); }
    std::string mode = R.args.size() ? R.args[0] : ""; bool th = R.thorough();
    return vf::guarded_main(R, [&] {
        Opt o; o.y = Y_ALL;
        if (mode == "class") {
            Cls c{R, std_points(), 1}, cv{R, vec_points(), 0}, c0{R, std_points(), th ? 1 : 0};
            depth1(R, o, guard(R, c)); depth2(R, o, guard(R, c0)); depth3(R, o, guard(R, c0)); nests(R, "nest1", 1, th, guard(R, c0));
            vecad(R, o, 2, guard(R, cv), "vec2"); vecad(R, o, 3, guard(R, cv), "vec3"); if (th) vecad(R, o, 4, guard(R, cv), "vec4");
            mixed(R, th, guard(R, c0)); cls_vecad(R);
        } else if (mode == "cmp") cmp_main(R);
        else if (mode == "vec") vec_main(R);
        else if (mode == "skip") {
            static std::vector<Point> pts = skip_points(); Skip s{R, pts, true}, s2{R, pts, th};
            nests(R, "nest1", 1, true, guard(R, s)); nests(R, "nest2", 2, false, guard(R, s2)); if (th) { Opt q; q.y = Y_LAST; depth3(R, q, guard(R, s2)); }
            skip_count(R);
        }
    });
}
