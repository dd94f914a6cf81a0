// Transformations of a recorded function that must not change it, over the program families.
// argument: dynamic | json | chk | base2ad
#include "families.hpp"
#include "battery.hpp"
#include "sparsity.hpp"
using namespace prog; using namespace battery; using vf::Run;
typedef CppAD::ADFun<double> Fun1;
struct Base { Run& R; Base(Run& r) : R(r) {}
    virtual void body(const Prog& g) = 0;
    void operator()(const Prog& g) {
        try { body(g); } catch (vf::CppadError& e) { AD1::abort_recording(); AD2::abort_recording(); R.fail(e.what()); }
        catch (std::exception& e) { AD1::abort_recording(); AD2::abort_recording(); R.fail(std::string("exception ") + e.what()); }
    } };
static VD vd(const std::vector<double>& v) { VD r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }

// ------------------------------------------------------------------ dynamic parameters
// programs whose first operations act on parameters only
template <class F> void dynfam(Run& R, F&& body) {
    bool th = R.thorough();
    Prog g = base(); int r0 = g.nleaf();
    std::vector<int> pl = {2, 3, 4, 5, 6, 7};
    std::vector<Ins> f1 = instances(all_unary(), {2}, {}); std::vector<Op> b = all_binary(); append(b, {ATA, ATB});
    append(f1, instances(b, {2, 3}, {4, 5, 7})); append(f1, instances(all_cexp(), {2, 3}, {6}));
    if (R.family("dyn2")) for (auto& i1 : f1) {
        std::vector<Ins> f2 = instances(all_unary(), {r0}, {}); append(f2, instances(b, {r0}, {0, 2, 4, 5, 6})); 
        for (auto c : all_cexp()) for (auto& t : std::vector<std::array<int,4>>{{r0, 2, 0, 1}, {0, r0, 1, 2}, {2, 3, r0, 0}, {r0, 4, 3, r0}, {3, r0, 6, 2}}) f2.push_back(Ins{c, {(int8_t)t[0], (int8_t)t[1], (int8_t)t[2], (int8_t)t[3]}});
        for (auto& i2 : f2) { g.ins = {i1, i2}; set_y(g, Y_ALL); if (R.next([g] { return g.str(); })) body(g); }
    }
    if (R.family("dyn3")) {
        std::vector<Ins> h1 = th ? f1 : instances({EXP, NEG, ABS, DIS, SIGN}, {2}, {}); if (!th) { append(h1, instances({ADD, SUB, MUL, DIV, ATA, ZMUL}, {2, 3}, {})); append(h1, instances({CLT, CEQ}, {2, 3}, {})); }
        for (auto& i1 : h1) for (auto& i2 : instances({ADD, SUB, MUL, DIV, SIN, ATB, ADDEQ, MULEQ}, {r0}, {3, 5, 6})) for (auto& i3 : instances({ADD, SUB, MUL, DIV, POW, CLT, SIN, ATA}, {r0 + 1}, {0, r0})) {
            if (i3.op == CLT && i3.a[0] == i3.a[1]) continue;
            g.ins = {i1, i2, i3}; set_y(g, Y_ALL); if (R.next([g] { return g.str(); })) body(g); }
    }
}
struct Dynamic : Base { const std::vector<Point>& pts; bool vec; Dynamic(Run& R, bool v) : Base(R), pts(v ? vec_points() : std_points()), vec(v) {}
    void body(const Prog& g) override {
        Fun1 f; record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false);
        size_t np = pts.size(); Options o; o.K = 2; std::vector<char> rv, rd; bad_deps(g, pts[0], rv, rd); uint64_t h = 1469598103934665603ull;
        std::vector<char> bv, bd; Sig got, want;
        // visit the points in an order that changes the dynamic values each time; the last returns to the first
        for (size_t s = 0; s <= np; s++) {
            const Point& pt = pts[(s * 2 + 1) % np];
            bad_deps(g, pt, bv, bd); for (size_t i = 0; i < bv.size(); i++) { bv[i] |= rv[i]; bd[i] |= rv[i]; }
            // reference 1: recorded with the parameter values as constants; reference 2: recorded with them as dynamic
            for (int kind = 0; kind < (s == 1 ? 2 : 1); kind++) {
                Fun1 r;
                if (kind == 1) record(g, pt.x, pt.p, r);
                else { V1 ax(2); for (int j = 0; j < 2; j++) ax[j] = pt.x[j]; CppAD::Independent(ax); V1 ap(2); for (int j = 0; j < 2; j++) ap[j] = pt.p[j];
                    std::vector<AD1> v = run<AD1>(g, ax, ap); V1 ay(g.y.size()); for (size_t i = 0; i < ay.size(); i++) ay[i] = v[g.y[i]]; r.Dependent(ax, ay); }
                r.check_for_nan(false);
                if (s == np) { VD p = vd(pt.p), x = vd(pt.x); f.new_dynamic(p); VD y = f.Forward(0, x), z = r.Forward(0, x);   // only values, last visit
                    for (size_t i = 0; i < y.size(); i++) if (!bv[i] && !vf::close(y[i], z[i], 1e-12, 1e-13)) { R.fail(vf::fmt("after several new_dynamic calls, value %zu is %.17g, expected %.17g", i, y[i], z[i])); return; }
                    break; }
                for (char c : rv) if (c) o.reverse = false;   // a constant that is not finite is in the recording
                got = Sig(); want = Sig(); observe(f, pt, got, o, &bd); observe(r, pt, want, o, &bd);
                std::string e = diff(want, got, bv, bd, R); R.case_nontrivial = true;
                if (e.size()) { R.fail(vf::fmt("after new_dynamic, compared with recording with these values as %s: ", kind ? "dynamic parameters" : "constants") + e + vf::fmt(" at x=(%g,%g) p=(%g,%g)", pt.x[0], pt.x[1], pt.p[0], pt.p[1])); return; }
                if (kind == 1) {
                    size_t n = 2, m = f.Range(); auto I = sp::identity(n); auto a = sp::for_jac(f, I, n, false, false, false), b = sp::for_jac(r, I, n, false, false, false);
                    if (a != b) { R.fail("for_jac_sparsity after new_dynamic " + sp::str(a) + " expected " + sp::str(b)); return; }
                    auto c = sp::rev_hes(f, sp::all(n), sp::all(m), false, true), d = sp::rev_hes(r, sp::all(n), sp::all(m), false, true);
                    if (c != d) { R.fail("rev_hes_sparsity after new_dynamic " + sp::str(c) + " expected " + sp::str(d)); return; }
                }
            }
            h = vf::hash_bytes(got.v.data(), got.v.size() * 8, h);
        }
        R.outcome(h);
    } };
// ------------------------------------------------------------------ graph and JSON
static bool exact_json(const Prog& g) { for (auto& i : g.ins) if (i.op == ATAN2) return false; return true; }   // atan2 becomes other operations in a graph
struct Json : Base { const std::vector<Point>& pts; bool d2v = false; Json(Run& R, bool dv = false) : Base(R), pts(std_points()), d2v(dv) {}
    void body(const Prog& g) override {
        for (char c : bad_nodes(g, run<double>(g, pts[0].x, pts[0].p), false)) if (c) return;   // JSON has no number for such a constant
        Fun1 f; record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false);
        std::string name = R.g_idx() % 3 ? "f_name" : "_a.b";
        f.function_name_set(name);
        std::vector<Sig> cache; Options o; o.K = 1; uint64_t h = 1469598103934665603ull;
        Fun1 z; z = f; z.optimize();   // optimize checks values, so before any that are not finite
        CppAD::cpp_graph graph; f.to_graph(graph);
        if (d2v) { exchange(g, f, graph); return; }
        if (graph.function_name_get() != name) { R.fail("function name in graph is " + graph.function_name_get()); return; }
        Fun1 k; k.check_for_nan(true); k.from_graph(graph); 
        if (!cmp(g, f, k, "from_graph(to_graph)", o, cache, name, &h)) return;
        std::string js = f.to_json(); Fun1 q; q.from_json(js);
        if (!cmp(g, f, q, "from_json(to_json)", o, cache, name, nullptr)) return;
        // optimized function, second trip
        std::string js2 = z.to_json(); Fun1 w; w.from_json(js2);
        if (!cmp(g, f, w, "optimize then from_json(to_json)", o, cache, name, nullptr)) return;
        std::string js3 = q.to_json(); Fun1 u; u.from_json(js3);
        if (!cmp(g, f, u, "second JSON round trip", o, cache, name, nullptr)) return;
        R.outcome(h);
    }
    bool cmp(const Prog& g, Fun1& f, Fun1& k, const char* what, const Options& o, std::vector<Sig>& cache, const std::string& name, uint64_t* h) {
        k.check_for_nan(false);
        if (k.function_name_get() != name) { R.fail(std::string(what) + ": function name is '" + k.function_name_get() + "'"); return false; }
        if (k.Domain() != f.Domain() || k.Range() != f.Range() || k.size_dyn_ind() != f.size_dyn_ind()) { R.fail(std::string(what) + ": sizes differ"); return false; }
        for (size_t i = 0; i < f.Range(); i++) if (f.Parameter(i) && !k.Parameter(i)) { R.fail(std::string(what) + vf::fmt(": Parameter(%zu) is false", i)); return false; }
        // exact values
        for (auto& pt : pts) { std::vector<char> bv, bd; bad_deps(g, pt, bv, bd); VD p = vd(pt.p), x = vd(pt.x); f.new_dynamic(p); k.new_dynamic(p); VD a = f.Forward(0, x), b = k.Forward(0, x);
            for (size_t i = 0; i < a.size(); i++) if (!bv[i]) { R.comparisons++; if (!vf::close(b[i], a[i], exact_json(g) ? 4e-15 : 1e-12, 1e-15)) { R.fail(std::string(what) + vf::fmt(": value %zu is %.17g, expected %.17g", i, b[i], a[i])); return false; } } }
        std::string e = compare(R, g, f, k, pts, o, &cache, h); R.case_nontrivial = true;
        if (e.size()) { R.fail(std::string(what) + ": " + e); return false; }
        return true;
    }
    void exchange(const Prog& g, Fun1& f, const CppAD::cpp_graph& graph) {   // dynamic parameters become variables and the reverse
        for (int mask = 0; mask < 16; mask++) {
            CppAD::vector<bool> dyn2var(2), var2dyn(2); for (int j = 0; j < 2; j++) { dyn2var[j] = mask >> j & 1; var2dyn[j] = mask >> (2 + j) & 1; }
            Fun1 k; k.from_graph(graph, dyn2var, var2dyn); k.check_for_nan(false);
            size_t nd = 0, nv = 0; for (int j = 0; j < 2; j++) { nd += !dyn2var[j]; nd += var2dyn[j]; nv += dyn2var[j]; nv += !var2dyn[j]; }
            if (nv == 0) continue;   // a function without independent variables is not supported by Independent either
            if (k.size_dyn_ind() != nd || k.Domain() != nv) { R.fail(vf::fmt("from_graph with exchange %d: %zu dynamic and %zu variables", mask, k.size_dyn_ind(), k.Domain())); return; }
            for (auto& pt : pts) {
                std::vector<char> bv, bd; bad_deps(g, pt, bv, bd); f.new_dynamic(vd(pt.p)); VD a = f.Forward(0, vd(pt.x));
                VD d(nd), x(nv); size_t id = 0, iv = 0;   // dynamics (kept), then variables made dynamic; dynamics made variables, then kept variables
                for (int j = 0; j < 2; j++) { if (dyn2var[j]) x[iv++] = pt.p[j]; else d[id++] = pt.p[j]; }
                for (int j = 0; j < 2; j++) { if (var2dyn[j]) d[id++] = pt.x[j]; else x[iv++] = pt.x[j]; }
                if (nd) k.new_dynamic(d);
                VD b = k.Forward(0, x);
                for (size_t i = 0; i < a.size(); i++) if (!bv[i]) { R.comparisons++; R.case_nontrivial = true; if (!vf::close(b[i], a[i], 1e-13, 1e-14)) { R.fail(vf::fmt("from_graph with exchange mask %d: value %zu is %.17g, expected %.17g", mask, i, b[i], a[i])); return; } }
                // derivatives with respect to kept variables
                { auto sn = singular_nodes(g, run<double>(g, pt.x, pt.p), true); for (size_t i = 0; i < bd.size(); i++) bd[i] = sn[g.y[i]]; }
                if (bd.size()) { f.Forward(0, vd(pt.x)); for (int j = 0; j < 2; j++) if (!var2dyn[j]) { VD e(2); e[j] = 1; e[1 - j] = 0; VD da = f.Forward(1, e); VD ek(nv); size_t c = 0, pos = 0; for (int q = 0; q < 2; q++) if (dyn2var[q]) c++; for (int q = 0; q < 2; q++) if (!var2dyn[q]) { if (q == j) pos = c; c++; }
                    for (size_t q = 0; q < nv; q++) ek[q] = q == pos; VD db = k.Forward(1, ek);
                    for (size_t i = 0; i < a.size(); i++) if (!bd[i] && std::isfinite(da[i]) && std::fabs(da[i]) < 1e9) { R.comparisons++; if (!vf::close(db[i], da[i], 1e-10, 1e-11)) { R.fail(vf::fmt("from_graph with exchange mask %d: derivative %zu,%d is %.17g, expected %.17g", mask, i, j, db[i], da[i])); return; } } } }
                R.outcome(vf::hash_bytes(b.data(), b.size() * 8));
            }
        }
    } };
// ------------------------------------------------------------------ checkpointing
static CppAD::checkpoint<double>* the_one;
struct Chk : Base { const std::vector<Point>& pts; int rot; bool hes_ok = false; std::vector<char> cst, recbad; Chk(Run& R, int r) : Base(R), pts(std_points()), rot(r) {}
    static void args(int pat, const V1& x, const V1& q, AD1& u0, AD1& u1) {
        switch (pat) {
            case 0: u0 = x[0]; u1 = x[1]; break;      case 1: u0 = x[0] * x[1]; u1 = sin(x[1]); break;
            case 2: u0 = q[0]; u1 = x[1]; break;      case 3: u0 = x[0]; u1 = 0.7; break;
            case 4: u0 = x[0]; u1 = x[0]; break;      case 5: u0 = q[0]; u1 = q[1]; break;
            case 6: u0 = 1.2; u1 = 0.7; break;        case 7: u0 = 0.0; u1 = x[1] + q[0]; break;
            default: break;
        } }
    static void dargs(int pat, const double* x, const double* q, std::vector<double>& u) {
        using std::sin;
        double t[8][2] = {{x[0], x[1]}, {x[0] * x[1], sin(x[1])}, {q[0], x[1]}, {x[0], 0.7}, {x[0], x[0]}, {q[0], q[1]}, {1.2, 0.7}, {0.0, x[1] + q[0]}}; u = {t[pat][0], t[pat][1]}; }
    void body(const Prog& g) override {
        size_t m = g.y.size(); uint64_t h = 1469598103934665603ull;
        int opt = R.g_idx() / 8 % 8; hes_ok = opt & 2; int pat0 = R.thorough() ? 0 : R.g_idx() / 64 % 8, npat = R.thorough() ? 8 : 2;
        Fun1 inner; record(g, pts[0].x, pts[0].p, inner); inner.check_for_nan(false);
        for (int ip = 0; ip < npat; ip++) {
            int pat = (pat0 + ip * 5) % 8;
            // reference: the algorithm inline, its dynamic parameters are parameters 2 and 3 of the outer function
            Fun1 ref, fun; double q0[4] = {pts[1].p[0], pts[1].p[1], pts[0].p[0], pts[0].p[1]};
            { V1 ax(2), aq(4); for (int j = 0; j < 2; j++) ax[j] = pts[1].x[j]; for (int j = 0; j < 4; j++) aq[j] = q0[j];
              CppAD::Independent(ax, size_t(0), true, aq); V1 u(2), ap(2); args(pat, ax, aq, u[0], u[1]); ap[0] = aq[2]; ap[1] = aq[3];
              std::vector<AD1> v = run<AD1>(g, u, ap); V1 ay(m + 1); for (size_t i = 0; i < m; i++) ay[i] = v[g.y[i]]; ay[m] = ay[0] * ay[m - 1] + ax[1]; ref.Dependent(ax, ay); }
            CppAD::chkpoint_two<double> chk(inner, "chk", opt & 1, opt & 2, opt & 4 || ip % 2, false);
            chk.new_dynamic(vd({q0[2], q0[3]}));
            bool one_ok = true; recbad.clear(); { std::vector<double> u; dargs(pat, pts[1].x.data(), q0, u); auto b = bad_nodes(g, run<double>(g, u, pts[0].p), false); for (char c : b) one_ok &= !c; for (int i : g.y) recbad.push_back(b[i]); }
            cst.assign(m, 0); auto rec = [&](int which, Fun1& k) { V1 ax(2), aq(4); for (int j = 0; j < 2; j++) ax[j] = pts[1].x[j]; for (int j = 0; j < 4; j++) aq[j] = q0[j];
              CppAD::Independent(ax, size_t(0), true, aq); V1 u(2), w(m); args(pat, ax, aq, u[0], u[1]); if (which) (*the_one)(u, w); else { chk(u, w); for (size_t i = 0; i < m; i++) cst[i] = CppAD::Constant(w[i]); }
              V1 ay(m + 1); for (size_t i = 0; i < m; i++) ay[i] = w[i]; ay[m] = w[0] * w[m - 1] + ax[1]; k.Dependent(ax, ay); };
            rec(0, fun); Fun1 fo; if (R.g_idx() % 2 == 0) { fo = fun; fo.optimize(); }
            ref.check_for_nan(false); fun.check_for_nan(false);
            std::string what = vf::fmt("chkpoint_two internal_bool %d use_hes_sparsity %d use_base2ad %d argument pattern %d", opt & 1, opt >> 1 & 1, (opt & 4 || ip % 2) ? 1 : 0, pat);
            if (!cmp(g, ref, fun, chk, pat, what, h, true)) return;
            if (R.g_idx() % 2 == 0) { fo.check_for_nan(false); if (!cmp(g, ref, fo, chk, pat, what + " after optimize", h, false)) return; }
            if (R.g_idx() % 3 == 0 && (one_ok || R.g_idx() % 2 == 0)) {   // the other interface: no dynamic parameters, the inner values are constants
                static CppAD::atomic_base<double>::option_enum so[3] = {CppAD::atomic_base<double>::bool_sparsity_enum, CppAD::atomic_base<double>::set_sparsity_enum, CppAD::atomic_base<double>::pack_sparsity_enum};
                std::vector<double> pv = {q0[2], q0[3]};
                auto algo = [&](const V1& ax, V1& ay) { V1 ap(2); ap[0] = pv[0]; ap[1] = pv[1]; std::vector<AD1> v = run<AD1>(g, ax, ap); for (size_t i = 0; i < m; i++) ay[i] = v[g.y[i]]; };
                V1 ax0(2), ay0(m); ax0[0] = 0.3; ax0[1] = 0.7;
                CppAD::checkpoint<double> one("one", algo, ax0, ay0, so[R.g_idx() / 3 % 3], R.g_idx() % 2 == 0); the_one = &one;
                Fun1 f1; rec(1, f1); f1.check_for_nan(false);
                if (!cmp(g, ref, f1, chk, pat, vf::fmt("checkpoint sparsity option %d optimize %d argument pattern %d", int(R.g_idx() / 3 % 3), int(R.g_idx() % 2 == 0), pat), h, true, true)) return;
            }
        }
        R.outcome(h);
    }
    bool cmp(const Prog& g, Fun1& ref, Fun1& fun, CppAD::chkpoint_two<double>& chk, int pat, const std::string& what, uint64_t& h, bool spars, bool one = false) {
        size_t m = g.y.size();
        for (size_t ip = 0; ip < pts.size(); ip++) {
            // the inner dynamic parameter values change with the point too
            const Point& pt = pts[ip]; const Point& in = pts[one ? 0 : (ip + 1) % pts.size()]; Point all{pt.x, {pt.p[0], pt.p[1], in.p[0], in.p[1]}};
            chk.new_dynamic(vd(in.p)); std::vector<double> u; dargs(pat, pt.x.data(), pt.p.data(), u);
            std::vector<double> v = run<double>(g, u, in.p); auto b0 = bad_nodes(g, v, false), b1 = singular_nodes(g, v);
            std::vector<char> bv, bd; bool anybad = false; for (size_t i = 0; i < m; i++) { bool c = recbad[i] || (!one && cst[i] && in.p != pts[0].p);   // a constant result keeps its value from the recording
                anybad |= b1[g.y[i]]; bv.push_back(b0[g.y[i]] || c); bd.push_back(b1[g.y[i]] || c); } bv.push_back(bv[0] || bv[m - 1]); bd.push_back(bd[0] || bd[m - 1]);
            if (one && anybad && R.g_idx() % 2) continue;   // without optimize, checkpoint reports nan in its function as an error
            Options o; o.K = 2; o.reverse = !anybad;   // with an undefined result in the same call, its partials are 0 * nan
            Sig a, b; observe(ref, all, a, o, &bd); observe(fun, all, b, o, &bd);
            std::string e = diff(a, b, bv, bd, R); R.case_nontrivial = true;
            if (e.size()) { R.fail(what + ": " + e + vf::fmt(" at x=(%g,%g)", pt.x[0], pt.x[1])); return false; }
            h = vf::hash_bytes(b.v.data(), b.v.size() * 8, h);
            if (spars && !anybad && ip < 2) {
                VD x = vd(pt.x); auto J = sp::num_jac(ref, x); size_t M = m + 1, n = 2; auto I = sp::identity(n); auto IM = sp::identity(M);
                sp::Pat ps[5] = {sp::for_jac(fun, I, n, false, false, false), sp::rev_jac(fun, IM, M, false, false, true), sp::sub_jac(fun, sp::all(n), sp::all(M), false), sp::for_jac(fun, I, n, true, true, true), sp::old_rev_jac_set(fun, IM, M, false, false)};
                for (size_t i = 0; i < M; i++) for (size_t j = 0; j < n; j++) if (J[i * n + j] != 0) for (int k = 0; k < 5; k++) { R.comparisons++; if (!ps[k].count({i, j})) { R.fail(what + vf::fmt(": Jacobian sparsity (method %d) misses (%zu,%zu)", k, i, j)); return false; } }
                if (!one && !hes_ok) continue;
                auto H = sp::num_hes(ref, x); sp::Pat hs[3] = {one ? sp::rev_hes(fun, sp::all(n), sp::all(M), false, false) : sp::for_hes(fun, sp::all(n), sp::all(M), false), sp::rev_hes(fun, sp::all(n), sp::all(M), false, true), sp::old_rev_hes_set(fun, sp::all(n), sp::all(M), false)};
                for (size_t i = 0; i < M; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) if (H[i * n * n + j * n + k] != 0) for (int t = 0; t < 3; t++) { R.comparisons++; if (!hs[t].count({j, k})) { R.fail(what + vf::fmt(": Hessian sparsity (method %d) misses (%zu,%zu) of dependent %zu", t, j, k, i)); return false; } }
            }
        }
        return true;
    } };
// ------------------------------------------------------------------ two levels of AD
// everything that describes an AD function and does not depend on the type of its arguments (the other sparsity functions do not compile after base2ad)
template <class F> static std::vector<std::string> describe(F& f, bool stored) {
    typedef std::set<size_t> S; std::vector<std::string> r; size_t n = f.Domain(), m = f.Range();
    auto num = [&](const char* w, size_t v) { r.push_back(vf::fmt("%s is %zu", w, v)); };
    auto pat = [&](const char* w, const CppAD::sparse_rc<std::vector<size_t>>& p) { std::string t = w; std::set<std::pair<size_t, size_t>> q; for (size_t k = 0; k < p.nnz(); k++) q.insert({p.row()[k], p.col()[k]}); for (auto& e : q) t += vf::fmt(" (%zu,%zu)", e.first, e.second); r.push_back(t); };
    num("Domain", n); num("Range", m); for (size_t i = 0; i < m; i++) num(vf::fmt("Parameter(%zu)", i).c_str(), f.Parameter(i));
    num("size_var", f.size_var()); num("size_par", f.size_par()); num("size_op", f.size_op()); num("size_op_arg", f.size_op_arg()); num("size_text", f.size_text()); num("size_dyn_ind", f.size_dyn_ind()); num("size_dyn_par", f.size_dyn_par()); num("size_dyn_arg", f.size_dyn_arg()); num("size_VecAD", f.size_VecAD()); num("size_random", f.size_random()); num("check_for_nan", f.check_for_nan());
    (void)stored;
    typedef CppAD::sparse_rc<std::vector<size_t>> RC; RC out;
    std::vector<bool> d(n, true), sel(m, true); 
    f.subgraph_sparsity(d, sel, false, out); pat("subgraph_sparsity", out);
    return r;
}
struct B2ad : Base { const std::vector<Point>& pts; bool vec; B2ad(Run& R, bool v) : Base(R), pts(v ? vec_points() : std_points()), vec(v) {}
    bool same_object(const Prog& g, const Fun1& f0) {
        // also from an object that already holds coefficients, patterns and subgraph information
        for (int state = 0; state < 2; state++) {
            Fun1 f; f = f0; size_t n = 2, m = g.y.size();
            if (state) { f.Forward(1, VD(4)); typedef std::set<size_t> S; std::vector<S> id(n); for (size_t j = 0; j < n; j++) id[j].insert(j); f.ForSparseJac(n, id); f.check_for_nan(true); CppAD::sparse_rc<std::vector<size_t>> out; f.subgraph_sparsity(std::vector<bool>(n, true), std::vector<bool>(m, true), false, out); }
            CppAD::ADFun<AD1, double> a = f.base2ad(); R.comparisons++;
            if (a.size_order() || a.size_direction()) { R.fail("base2ad: the result has Taylor coefficients"); return false; }
            auto u = describe(f, state), v = describe(a, state); for (size_t k = 0; k < u.size(); k++) if (u[k] != v[k]) { R.fail("base2ad: " + v[k] + ", for the original function " + u[k]); return false; }
        }
        return true;
    }
    void body(const Prog& g) override {
        size_t m = g.y.size(), n = 2;
        Fun1 f; record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false); if (R.g_idx() % 4 == 3) f.optimize();
        CppAD::ADFun<AD1, double> af = f.base2ad(); af.check_for_nan(false);
        if (!same_object(g, f)) return;
        const double dx[2] = {0.7, -0.3};
        // h[0]: x -> (f, f' dx, w f') from base2ad;  h[1]: the same from AD< AD<double> >
        Fun1 hh[2]; std::vector<double> w(m); for (size_t i = 0; i < m; i++) w[i] = 0.5 + 0.25 * i;
        for (int lev = 0; lev < (vec ? 1 : 2); lev++) {
            V1 ax(n), ap(2); for (int j = 0; j < 2; j++) { ax[j] = pts[0].x[j]; ap[j] = pts[0].p[j]; }
            CppAD::Independent(ax, size_t(0), true, ap);
            V1 adx(n), aw(m), y0, y1, r1; for (int j = 0; j < 2; j++) adx[j] = dx[j]; 
            std::vector<V1> rr;
            auto eval = [&](auto& fn) { y0 = fn.Forward(0, ax); y1 = fn.Forward(1, adx); for (size_t i = 0; i < m; i++) { for (size_t k = 0; k < m; k++) aw[k] = k == i ? 1.0 : 0.0; rr.push_back(fn.Reverse(1, aw)); } };
            if (lev == 0) { af.new_dynamic(ap); eval(af); }
            else { CppAD::ADFun<AD1> f2; V2 bx(n); for (int j = 0; j < 2; j++) bx[j] = ax[j]; V2 bp(2); for (int j = 0; j < 2; j++) bp[j] = ap[j];
                CppAD::Independent(bx, size_t(0), true, bp); std::vector<AD2> v = run<AD2>(g, bx, bp); V2 by(m); for (size_t i = 0; i < m; i++) by[i] = v[g.y[i]]; f2.Dependent(bx, by); f2.check_for_nan(false); eval(f2); }
            V1 ay; for (size_t i = 0; i < m; i++) { ay.push_back(y0[i]); ay.push_back(y1[i]); ay.push_back(rr[i][0]); ay.push_back(rr[i][1]); }
            hh[lev].Dependent(ax, ay); hh[lev].check_for_nan(false);
        }
        uint64_t h = 1469598103934665603ull;
        for (size_t ip = 0; ip < (vec ? 1 : pts.size()); ip++) {   // the index of a VecAD element is fixed when the second level is recorded
            const Point& pt = pts[ip]; std::vector<char> bv, bd; bad_deps(g, pt, bv, bd); { auto s = singular_nodes(g, run<double>(g, pt.x, pt.p)); for (size_t i = 0; i < m; i++) bd[i] = s[g.y[i]]; }
            VD x = vd(pt.x), p = vd(pt.p); f.new_dynamic(p);
            auto H = std::vector<double>(); { bool any = false; for (char c : bd) any |= c; (void)any; H = sp::num_hes(f, x); } auto J = sp::num_jac(f, x); VD y = f.Forward(0, x);
            for (int lev = 0; lev < (vec ? 1 : 2); lev++) {
                hh[lev].new_dynamic(p); VD z = hh[lev].Forward(0, x); auto dz = sp::num_jac(hh[lev], x); std::vector<double> rz;
                for (size_t i = 0; i < m; i++) if (!bd[i]) { VD ww(4 * m); for (size_t k = 0; k < 4 * m; k++) ww[k] = k == 4 * i + 1 ? 1.0 : 0.0; hh[lev].Forward(0, x); VD q = hh[lev].Reverse(1, ww); rz.push_back(q[0]); rz.push_back(q[1]); } else { rz.push_back(0); rz.push_back(0); }
                for (size_t i = 0; i < m; i++) {
                    auto cmpv = [&](const char* what, double got, double want) { if (!std::isfinite(want) || std::fabs(want) > 1e8) return true; R.comparisons++; R.case_nontrivial = true; if (vf::close(got, want, 1e-9, 1e-10)) return true;
                        R.fail(vf::fmt("%s of dependent %zu with %s is %.17g, expected %.17g at x=(%g,%g) p=(%g,%g)", what, i, lev ? "AD< AD<double> >" : "base2ad", got, want, x[0], x[1], p[0], p[1])); return false; };
                    if (!bv[i] && !cmpv("value", z[4 * i], y[i])) return;
                    if (bd[i]) continue;
                    if (!cmpv("forward derivative", z[4 * i + 1], J[i * 2] * dx[0] + J[i * 2 + 1] * dx[1])) return;
                    for (size_t j = 0; j < n; j++) {
                        if (!cmpv("reverse derivative", z[4 * i + 2 + j], J[i * 2 + j])) return;
                        double hd = H[i * 4 + j * 2] * dx[0] + H[i * 4 + j * 2 + 1] * dx[1];
                        if (!cmpv("derivative of forward derivative", dz[(4 * i + 1) * 2 + j], hd)) return;
                        if (!cmpv("reverse of forward derivative", rz[2 * i + j], hd)) return;
                        for (size_t k = 0; k < n; k++) if (!cmpv("derivative of reverse derivative", dz[(4 * i + 2 + j) * 2 + k], H[i * 4 + j * 2 + k])) return;
                    }
                }
                h = vf::hash_bytes(z.data(), z.size() * 8, h);
            }
        }
        R.outcome(h);
    } };
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler); the_atom(); the_mix();
    std::string mode = R.args.size() ? R.args[0] : ""; bool th = R.thorough();
    return vf::guarded_main(R, [&] {
        Opt o, l; l.y = Y_LAST;
        if (mode == "dynamic") { Dynamic c(R, false), v(R, true); depth1(R, o, c); dynfam(R, c); depth2(R, o, c); if (th) depth3(R, l, c); depth4(R, l, c); vecad(R, l, 2, v, "vec2"); vecad(R, l, 3, v, "vec3"); mixed(R, th, c); }
        if (mode == "json") {
            Json c(R), d(R, true); depth1(R, o, c); depth1(R, o, d, "exchange1"); depth2(R, o, c); if (th) { depth3(R, l, c); depth2(R, o, d, "exchange2"); }
            for (int n = 1; n <= (th ? 4 : 3); n++) sums(R, vf::fmt("sums%d", n).c_str(), n, c); nests(R, "nest1", 1, th, c); if (th) nests(R, "nest2", 2, false, c);
            shared(R, "cse_atom", {ATA, ATB, ADD}, {0, 1, 2}, th ? 3 : 2, c, 2); mixed(R, th, c); mixed(R, th, d);
        }
        if (mode == "chk") { Chk c(R, 0); depth1(R, o, c); depth2(R, o, c); if (th) depth3(R, l, c); nests(R, "nest1", 1, th, c); shared(R, "cse_atom", {ATA, ATB, ADD}, {0, 1, 2}, 2, c, 2); mixed(R, th, c); }
        if (mode == "base2ad") { B2ad c(R, false), v(R, true); depth1(R, o, c); depth2(R, o, c); if (th) depth3(R, l, c); depth4(R, l, c); nests(R, "nest1", 1, th, c); vecad(R, l, 2, v, "vec2"); vecad(R, l, 3, v, "vec3"); mixed(R, th, c); }
    });
}
