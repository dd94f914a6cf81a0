// C31: abs_normal_fun on every program with absolute values up to a size.
#include "battery.hpp"
#include "families.hpp"
#include "sparsity.hpp"
using namespace prog; using namespace battery; using vf::Run; using std::string; using namespace sp;
typedef CppAD::ADFun<double> ADF;
struct Rec { std::vector<int> abs; bool dynatom = false; };   // instructions that are absolute values of variables
static bool is_abs(const Ins& i) { return i.op == ABS || i.op == FABS; }
// extras: comparisons and print operations after the program, between nodes that both programs have
static void extras(const std::vector<AD1>& v, int x0, int x1, int p0, int p1, int c, int last, int kind) {
    volatile int sink = 0; auto cmp = [&](const AD1& a, const AD1& b) { if (a < b) sink = sink + 1; if (a <= b) sink = sink + 1; if (a == b) sink = sink + 1; if (a != b) sink = sink + 1; if (a > b) sink = sink + 1; if (a >= b) sink = sink + 1; };
    if (kind & 1) { cmp(v[x0], v[x1]); cmp(v[x0], v[p0]); cmp(v[p1], v[last]); cmp(v[p0], v[p1]); cmp(v[last], v[c]); cmp(v[c], v[p0]); }
    if (kind & 2) { CppAD::PrintFor(v[x0], "one ", v[last], " end\n"); CppAD::PrintFor(v[last], "two ", v[p1], "\n"); CppAD::PrintFor(v[p0], "three ", v[x1], ""); CppAD::PrintFor("four ", v[last]); }
}
static void record(ADF& f, const Prog& g, const Point& at, Rec* r, int kind, int s) {
    V1 x(g.n), p(g.m); for (int i = 0; i < g.n; i++) x[i] = at.x[i]; for (int i = 0; i < g.m; i++) p[i] = at.p[i]; CppAD::Independent(x, p); std::vector<AD1> v = prog::run<AD1>(g, x, p);
    if (r) for (size_t k = 0; k < g.ins.size(); k++) if (is_abs(g.ins[k]) && CppAD::Variable(v[g.ins[k].a[0]])) r->abs.push_back((int)k);
    if (r) for (auto& i : g.ins) if (i.op == ATA || i.op == ATB || i.op == MXA || i.op == MXB) { const AD1 &a = v[i.a[0]], &b = v[i.a[1]]; bool mx = i.op == MXA || i.op == MXB; if ((mx && CppAD::Dynamic(a)) || (!CppAD::Variable(a) && !CppAD::Variable(b) && (CppAD::Dynamic(a) || CppAD::Dynamic(b)))) r->dynatom = true; }
    int last = g.ins.empty() ? 0 : g.nnode() - 1; extras(v, 0, 1, g.n, g.n + 1, g.n + g.m + 1, last, kind); (void)s; V1 y(g.y.size()); for (size_t i = 0; i < g.y.size(); i++) y[i] = v[g.y[i]]; f.Dependent(x, y); f.check_for_nan(false);
}
// the smooth function by its definition: absolute values are replaced by new independent variables
static Prog smooth(const Prog& g, const std::vector<int>& A) {
    Prog h; int s = (int)A.size(); h.n = g.n + s; h.m = g.m; h.c = g.c; auto map = [&](int k) { return k < g.n ? k : k + s; }; for (size_t k = 0; k < g.ins.size(); k++) { Ins i = g.ins[k]; for (int j = 0; j < 4; j++) i.a[j] = (int8_t)map(i.a[j]); for (int q = 0; q < s; q++) if (A[q] == (int)k) { i.op = UPLUS; i.a[0] = (int8_t)(g.n + q); } h.ins.push_back(i); }
    for (int k : g.y) h.y.push_back(map(k)); for (int k : A) h.y.push_back(map(g.ins[k].a[0])); return h;
}
static Prog absolute(const Prog& g, const std::vector<int>& A) { Prog h = g; h.y.clear(); for (int k : A) h.y.push_back(g.nleaf() + k); return h; }
static string patterns(Run& R, ADF& want, ADF& got) {
    size_t n = want.Domain(), m = want.Range(); if (got.Domain() != n || got.Range() != m) return vf::fmt("sizes %zu %zu, expected %zu %zu", got.Domain(), got.Range(), n, m); Pat I = identity(n), Im = identity(m); VB an = all(n), am = all(m); R.comparisons += 6;
    for (size_t i = 0; i < m; i++) if (got.Parameter(i) != want.Parameter(i)) return vf::fmt("Parameter(%zu)", i);
    for (int dep = 0; dep < 2; dep++) { if (for_jac(got, I, n, false, dep, false) != for_jac(want, I, n, false, dep, false)) return "for_jac_sparsity"; if (rev_jac(got, Im, m, false, dep, true) != rev_jac(want, Im, m, false, dep, true)) return "rev_jac_sparsity"; }
    if (sub_jac(got, an, am, false) != sub_jac(want, an, am, false)) return "subgraph_sparsity: " + str(sub_jac(got, an, am, false)) + " expected " + str(sub_jac(want, an, am, false)); if (for_hes(got, an, am, false) != for_hes(want, an, am, false)) return "for_hes_sparsity"; for_jac(got, I, n, false, false, false); for_jac(want, I, n, false, false, false); if (rev_hes(got, an, am, false, false) != rev_hes(want, an, am, false, false)) return "rev_hes_sparsity"; return "";
}
static void setdyn(ADF& f, const Point& p) { if (f.size_dyn_ind()) { VD d(f.size_dyn_ind()); for (size_t i = 0; i < d.size(); i++) d[i] = p.p[i]; f.new_dynamic(d); } }
static bool good(double a) { return std::isfinite(a) && std::fabs(a) < 1e8; }
// relations between f, g and a at a point. bad: dependents that are not compared; zbad: some absolute value is at a kink or not finite
static string relations(Run& R, ADF& f, ADF& g, ADF& a, const Point& pt, const std::vector<char>& bv, const std::vector<char>& bd, bool exact) {
    size_t n = f.Domain(), m = f.Range(), s = a.Range(); if (a.Domain() != n || g.Domain() != n + s || g.Range() != m + s) return vf::fmt("sizes: f %zu %zu, g %zu %zu, a %zu %zu", n, m, g.Domain(), g.Range(), a.Domain(), s); setdyn(f, pt); setdyn(g, pt); setdyn(a, pt); VD x(n), xu(n + s); for (size_t i = 0; i < n; i++) x[i] = xu[i] = pt.x[i]; VD yf = f.Forward(0, x), ya = a.Forward(0, x); bool fin = true; for (size_t i = 0; i < s; i++) { xu[n + i] = ya[i]; fin = fin && good(ya[i]); } VD yg = g.Forward(0, xu);
    for (size_t i = 0; i < m; i++) if (!bv[i] && good(yf[i])) { R.comparisons++; if (fin && (exact ? yg[i] != yf[i] : !vf::close(yg[i], yf[i], 1e-12, 1e-12))) return vf::fmt("y_%zu(x, a(x)) is %.17g, f is %.17g", i, yg[i], yf[i]); }
    bool kink = !fin; for (size_t i = 0; i < s; i++) if (good(ya[i])) { R.comparisons++; if (fin && (exact ? std::fabs(yg[m + i]) != ya[i] : !vf::close(std::fabs(yg[m + i]), ya[i], 1e-12, 1e-12))) return vf::fmt("|z_%zu(x, a(x))| is %.17g, a is %.17g", i, yg[m + i], ya[i]); if (ya[i] < 1e-12) kink = true; }
    if (!fin) { R.count["not_finite"]++; return ""; }
    VD J = g.Jacobian(xu), Jf = f.Jacobian(x); size_t N = n + s; for (size_t i = 0; i < s; i++) for (size_t j = i; j < s; j++) { R.comparisons++; double d = J[(m + i) * N + n + j]; if (d != 0 && !(std::isnan(d) && !exact)) return vf::fmt("derivative of z_%zu by u_%zu is %g", i, j, J[(m + i) * N + n + j]); }
    if (kink) { R.count["kink"]++; }
    // directional derivatives: of a by recursion with the signs (at a kink: one sided), then of f
    for (int d = 0; d < 4; d++) { std::vector<double> dx(n), da(s); for (size_t j = 0; j < n; j++) dx[j] = ((d >> (j % 2)) & 1 ? -1.0 : 1.0) * (1 + 0.25 * j); VD xd(n); for (size_t j = 0; j < n; j++) xd[j] = dx[j]; f.Forward(0, x); VD df = f.Forward(1, xd); a.Forward(0, x); VD ad = a.Forward(1, xd); std::vector<char> ok(s, 1);
        for (size_t i = 0; i < s; i++) { double z = 0; for (size_t j = 0; j < n; j++) z += J[(m + i) * N + j] * dx[j]; for (size_t j = 0; j < i; j++) z += J[(m + i) * N + n + j] == 0 ? 0 : J[(m + i) * N + n + j] * da[j]; double zi = yg[m + i]; da[i] = zi > 0 ? z : zi < 0 ? -z : 0; if (!exact && std::fabs(zi) < 1e-12) ok[i] = 0; if (!std::isfinite(z) || std::fabs(z) > 1e8) ok[i] = 0; for (size_t j = 0; j < i; j++) if (!ok[j] && J[(m + i) * N + n + j] != 0) ok[i] = 0; R.comparisons++; if (ok[i] && !vf::close(ad[i], da[i], 1e-9, 1e-9)) return vf::fmt("derivative of a_%zu in direction %d is %.12g, from g %.12g", i, d, ad[i], da[i]); }
        for (size_t i = 0; i < m; i++) if (!bd[i]) { double t = 0; bool o = true; for (size_t j = 0; j < n; j++) t += J[i * N + j] * dx[j]; for (size_t j = 0; j < s; j++) if (J[i * N + n + j] != 0) { t += J[i * N + n + j] * da[j]; o = o && ok[j]; } if (!o || !good(t) || !good(df[i])) continue; R.comparisons++; if (!vf::close(df[i], t, 1e-9, 1e-9)) return vf::fmt("derivative of f_%zu in direction %d is %.12g, from g and a %.12g", i, d, df[i], t); }
        }
    return "";
}
// the functions that are overwritten: they have state that must not survive
static void old_state(ADF& f, int which) { V1 x(1 + which), y(2); for (size_t i = 0; i < x.size(); i++) x[i] = 1.5; CppAD::Independent(x); y[0] = x[0] * x[0]; y[1] = 3.0; f.Dependent(x, y); VD v(x.size(), 2.0); f.Forward(0, v); f.Forward(1, v); RC in(x.size(), x.size(), 0), out; f.for_jac_sparsity(in, false, false, false, out); VB b = all(x.size()); f.subgraph_reverse(b); }
static string one(Run& R, const Prog& p, const std::vector<Point>& pts, int kind, bool th) {
    ADF f, gf, af, ref, aref; Rec rc; record(f, p, pts[0], &rc, kind, 0); size_t s = rc.abs.size(), n = p.n, m = p.y.size(); if (s == 0 && kind == 0) { R.count["no_absolute_value"]++; } old_state(gf, 0); old_state(af, 1); Options o; o.K = 2; o.multi = true;
    ADF keep; record(keep, p, pts[0], nullptr, kind, 0); bool threw = false; try { f.abs_normal_fun(gf, af); } catch (vf::CppadError& x) { string w = x.what(); if (!rc.dynatom || w.find("atomic dynamic parameter") == string::npos) throw; threw = true; } if (rc.dynatom != threw) return "an atomic function of dynamic parameters is documented to be an error"; if (threw) { R.count["documented_error"]++; return ""; } gf.check_for_nan(false); af.check_for_nan(false); R.case_nontrivial = s > 0;
    if (gf.Domain() != n + s || gf.Range() != m + s || af.Domain() != n || af.Range() != s) return vf::fmt("%zu absolute values, sizes of g: %zu %zu, a: %zu %zu", s, gf.Domain(), gf.Range(), af.Domain(), af.Range()); if (gf.size_order() != 0 || af.size_order() != 0) return "size_order is not zero"; if (gf.size_dyn_ind() != f.size_dyn_ind() || af.size_dyn_ind() != f.size_dyn_ind()) return "size_dyn_ind";
    Prog h = smooth(p, rc.abs), ha = absolute(p, rc.abs); std::vector<Point> hp; for (auto& q : pts) { auto v = prog::run<double>(p, q.x, q.p); std::vector<double> a; bool fin = true; for (int k : rc.abs) { a.push_back(v[p.nleaf() + k]); fin = fin && good(a.back()); } int nf = fin ? 1 << std::min<size_t>(s, 3) : 0; for (int c = 0; c < nf; c++) { Point t = q; for (size_t k = 0; k < s; k++) t.x.push_back((c >> k) & 1 ? -a[k] : a[k]); hp.push_back(t); } Point t = q; for (size_t k = 0; k < s; k++) t.x.push_back(0.3 + 0.9 * double(k % 3)); hp.push_back(t); if (hp.size() > 9 && !th) break; }
    // a program that reads a vector must have indices 0, 1, 2
    bool first_finite = true; for (double v : prog::run<double>(p, pts[0].x, pts[0].p)) first_finite = first_finite && good(v); bool vec = false; for (auto& i : p.ins) vec = vec || i.op == VLD || i.op == VST; if (vec) { std::vector<Point> k; for (auto& t : hp) { bool ok = true; for (double u : t.x) ok = ok && u >= 0 && u < 3; auto types = t; if (ok) k.push_back(t); } hp = k; }
    record(ref, h, hp.size() ? hp[0] : Point{std::vector<double>(h.n, 0.5), pts[0].p}, nullptr, kind, (int)s); if (s) record(aref, ha, pts[0], nullptr, kind, 0); if (hp.empty()) { R.count["no_point"]++; return ""; }
    uint64_t hash = 1469598103934665603ULL; for (auto& t : hp) { auto xs = t; if (kind & 1) {} } string e = compare(R, h, ref, gf, hp, o, nullptr, &hash); if (e.size()) return "g: " + e; R.outcome(hash); if (s && (e = compare(R, ha, aref, af, pts, o)).size()) return "a: " + e; if ((e = compare(R, p, keep, f, pts, o)).size()) return "f after the call: " + e; if ((e = patterns(R, ref, gf)).size()) return "g: " + e; if (s && (e = patterns(R, aref, af)).size()) return "a: " + e;
    if (kind & 2) for (auto& t : hp) { setdyn(gf, t); setdyn(ref, t); VD x(t.x.size()); for (size_t i = 0; i < x.size(); i++) x[i] = t.x[i]; std::ostringstream s1, s2; ref.Forward(0, x, s1); gf.Forward(0, x, s2); R.comparisons++; if (s1.str() != s2.str()) return "g prints \"" + s2.str() + "\", expected \"" + s1.str() + "\""; }
    if ((kind & 1) && first_finite) for (size_t q = 0; q < hp.size(); q++) { setdyn(gf, hp[q]); setdyn(ref, hp[q]); VD x(hp[q].x.size()); bool fin = true; for (size_t i = 0; i < x.size(); i++) x[i] = hp[q].x[i]; VD r = ref.Forward(0, x), g0 = gf.Forward(0, x); for (size_t i = 0; i < r.size(); i++) fin = fin && good(r[i]); R.comparisons++; if (fin && ref.compare_change_number() != gf.compare_change_number()) return vf::fmt("compare_change_number of g is %zu, expected %zu", gf.compare_change_number(), ref.compare_change_number()); R.count["changes"] += gf.compare_change_number() > 0; }
    // later use: optimized, second call, subgraph derivatives
    for (int var = 0; var < (kind ? 1 : 3); var++) { ADF f2, g2, a2; f2 = f; if (var == 1) f2.optimize(); if (var == 2) f2.optimize("no_conditional_skip no_compare_op"); f2.check_for_nan(false); f2.abs_normal_fun(g2, a2); g2.check_for_nan(false); a2.check_for_nan(false); if (var && a2.Range() > s) return "more absolute values after optimize";
        for (auto& q : pts) { std::vector<char> bv, bd; bad_deps(p, q, bv, bd); if ((e = relations(R, f2, g2, a2, q, bv, bd, var == 0 && &q == &pts[0])).size()) return vf::fmt("%s: ", var == 0 ? &q == &pts[0] ? "plain" : "g and a optimized" : "f optimized") + e; if (var == 0 && q.x == pts[0].x) { g2.optimize(); a2.optimize(); g2.check_for_nan(false); a2.check_for_nan(false); if ((e = relations(R, f2, g2, a2, q, bv, bd, false)).size()) return "g and a optimized: " + e; } }
        R.transitions++; }
    if (p.ins.size() <= 2) { VB an = all(n + s); ADF* fs[2] = {&gf, &ref}; std::vector<double> res[2]; for (int k = 0; k < 2; k++) { ADF& q = *fs[k]; setdyn(q, hp[0]); VD x(n + s); for (size_t i = 0; i < n + s; i++) x[i] = hp[0].x[i]; q.Forward(0, x); q.subgraph_reverse(an); for (size_t i = 0; i < m + s; i++) { std::vector<size_t> col; VD dw; q.subgraph_reverse(1, i, col, dw); std::vector<double> row(n + s, 0.0); for (size_t c : col) row[c] = dw[c]; res[k].insert(res[k].end(), row.begin(), row.end()); } q.clear_subgraph(); } for (size_t i = 0; i < res[0].size(); i++) if (good(res[1][i]) && !vf::close(res[0][i], res[1][i], 1e-12, 1e-12)) return "subgraph_reverse of g"; }
    return "";
}
static void run1(Run& R, const Prog& p, const std::vector<Point>& pts, int kind = 0) { string e; try { e = one(R, p, pts, kind, R.thorough()); } catch (std::exception& x) { AD1::abort_recording(); e = x.what(); } if (e.size()) R.fail(e); }
// put abs( leaf ) at the front and use it instead of the leaf
static Prog front(const Prog& g, int leaf, bool only_first) { Prog h = g; int L = g.nleaf(); h.ins.clear(); h.ins.push_back(Ins{NEG, {(int8_t)leaf, 0, 0, 0}}); h.ins.push_back(Ins{ABS, {(int8_t)leaf, 0, 0, 0}}); bool done = false; for (auto i : g.ins) { for (int j = 0; j < arity(i.op); j++) { if (i.a[j] >= L) i.a[j] += 2; else if (i.a[j] == leaf && !(only_first && done)) { i.a[j] = (int8_t)(L + 1); done = true; } } h.ins.push_back(i); } h.y.clear(); for (int k : g.y) h.y.push_back(k >= L ? k + 2 : k); h.y.push_back(L + 1); h.y.push_back(L); return h; }
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler);
    return vf::guarded_main(R, [&] {
        bool th = R.thorough(); Opt o; auto& pts = std_points(); const int L = 8; auto ins = [](Op op, int a, int b = 0, int c = 0, int d = 0) { return Ins{op, {(int8_t)a, (int8_t)b, (int8_t)c, (int8_t)d}}; };
        auto go = [&](Prog& g, int kind = 0, const std::vector<Point>* q = nullptr) { set_y(g, Y_ALL); g.y.push_back(0); if (R.next([g, kind] { return g.str() + (kind ? vf::fmt(" kind %d", kind) : ""); })) run1(R, g, q ? *q : pts, kind); };
        if (R.family("none")) { Prog g = base(); for (auto& i : instances({SIN, ADD, MUL, ABS}, {0, 1, 2, 3, 5, 6}, {})) { g.ins = {i}; go(g); } }
        if (R.family("after")) for (Op a : {ABS, FABS}) for (int lf : {0, 1}) { Prog g = base(); for (auto& i : next_ops(o, L, {0, 1, 2, 4, 6, 7}, a == ABS && lf == 0 ? 0 : 1)) { g.ins = {ins(a, lf), i}; go(g); } }
        if (R.family("before")) { Prog g = base(); for (auto& i : first_ops(o, false)) for (auto& k : std::vector<Ins>{ins(ADD, L + 1, 0), ins(MUL, L + 1, L), ins(SIN, L + 1), ins(SUB, 2, L + 1)}) { g.ins = {i, ins(ABS, L), k}; go(g); } }
        if (R.family("extras")) { Prog g = base(); for (int kind = 1; kind < 4; kind++) for (auto& i : std::vector<Ins>{ins(ADD, 0, 1), ins(MUL, 0, 2), ins(NEG, 0), ins(SUB, 2, 1), ins(ABS, 0)}) for (int w = 0; w < 3; w++) { g.ins = {i, ins(ABS, L), ins(w == 0 ? MUL : w == 1 ? ABS : NEG, L + 1, 1)}; if (w == 2) g.ins.push_back(ins(ABS, L + 2)); go(g, kind); } }
        auto sh = [&](const char* nm, const std::vector<Op>& ops, const std::vector<int>& lf, int len, int ny) { shared(R, nm, ops, lf, len, [&](const Prog& q) { int na = 0; for (auto& i : q.ins) na += is_abs(i); if (na == 0) return; Prog g = q; set_y(g, Y_ALL); run1(R, g, pts); }, ny); };
        sh("nested2", {ABS, ADD, SUB, MUL, SIN}, {0, 1, 2, 6}, 2, 1); sh("nested3", {ABS, SUB, MUL}, {0, 1, 2}, 3, 1); sh("nested3b", {ABS, SUB, MUL, ADD}, {0, 1, 2, 6}, 3, 1); sh("nested4", {ABS, SUB}, {0, 1}, 4, 1);
        sh("atomic", {ABS, ATA, ATB, MXA, MXB}, {0, 1, 2}, 3, 1); sh("unary3", {ABS, ERF, POWI_3, DIS}, {0, 1}, 3, 1);
        if (th) { sh("nested4b", {ABS, SUB, MUL}, {0, 1, 2}, 4, 1); }
        auto vec = [&](int len, const char* nm) { vecad(R, o, len, [&](const Prog& q) { for (int w = 0; w < 2; w++) { Prog g = front(q, w == 0 ? 1 : 0, false); run1(R, g, vec_points()); } }, nm); }; vec(2, "vec2"); vec(3, "vec3"); if (th) vec(4, "vec4");
        sums(R, "sums2", 3, [&](const Prog& q) { run1(R, front(q, 0, true), pts); }); sums(R, "sums4", 4, [&](const Prog& q) { run1(R, front(q, 1, false), pts); });
        nests(R, "nests1", 1, true, [&](const Prog& q) { Prog g = q; bool any = false; for (auto& i : g.ins) if (i.op == SIN || i.op == NEG) { i.op = ABS; any = true; } if (!any) g = front(g, 0, true); run1(R, g, pts); });
        if (th && R.family("two_after")) { Opt small = o; for (auto& i : next_ops(small, L, {0, 2}, 1)) for (auto& k : next_ops(small, L + 1, {0, 1}, 1)) { Prog g = base(); g.ins = {ins(ABS, 0), i, k}; go(g); } }
    });
}
