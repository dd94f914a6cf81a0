// Sparsity patterns of every program: contain every derivative (or dependence of the value) that is not zero, contain
// nothing that the operations do not connect, and do not depend on the representation. argument: jac | hes
#include "families.hpp"
#include "sparsity.hpp"
using namespace prog; using namespace battery; using namespace sp; using vf::Run;
typedef CppAD::ADFun<double> Fun1;
struct Spars {
    Run& R; std::string mode; bool vec, wide;
    Spars(Run& r, std::string m, bool v, bool w) : R(r), mode(m), vec(v), wide(w) {}
    void operator()(const Prog& g) {
        try { body(g); } catch (vf::CppadError& e) { AD1::abort_recording(); R.fail(e.what()); }
        catch (std::exception& e) { AD1::abort_recording(); R.fail(std::string("exception ") + e.what()); } }
    // structural closure: which x each node can depend on
    static std::vector<unsigned> closure(const Prog& g) {
        std::vector<unsigned> c(g.nnode(), 0); unsigned vecdep = 0;
        for (int i = 0; i < g.nnode(); i++) { if (i < g.n) { c[i] = 1u << i; continue; } if (i < g.nleaf()) continue;
            const Ins& s = g.ins[i - g.nleaf()]; for (int j = 0; j < arity(s.op); j++) c[i] |= c[s.a[j]];
            if (s.op == VST) { vecdep |= c[i]; c[i] = c[s.a[1]]; } if (s.op == VLD) c[i] |= vecdep; }
        return c; }
    std::vector<size_t> xi, yi; size_t N, M;    // position of the programs's independents and dependents in the recorded function
    void rec(const Prog& g, const Point& pt, Fun1& f) {
        V1 ax(N), ap(2); for (size_t j = 0; j < N; j++) ax[j] = 0.1; xi_set(ax, pt.x); for (int j = 0; j < 2; j++) ap[j] = pt.p[j];
        CppAD::Independent(ax, size_t(0), true, ap); V1 u(2); for (int j = 0; j < 2; j++) u[j] = ax[xi[j]];
        std::vector<AD1> v = run<AD1>(g, u, ap); V1 ay(M); for (size_t i = 0; i < M; i++) ay[i] = 1.0; for (size_t i = 0; i < g.y.size(); i++) ay[yi[i]] = v[g.y[i]];
        f.Dependent(ax, ay); }
    template <class V> void xi_set(V& x, const std::vector<double>& v) { for (int j = 0; j < 2; j++) x[xi[j]] = v[j]; }
    Pat seed(size_t nr, size_t nc, uint64_t bits, const std::vector<size_t>& rmap, const std::vector<size_t>& cmap) { Pat p; for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) if (bits >> (i * nc + j) & 1) p.insert({rmap[i], cmap[j]}); return p; }
    static Pat mul(const Pat& a, const Pat& b) { Pat r; for (auto& x : a) for (auto& y : b) if (x.second == y.first) r.insert({x.first, y.second}); return r; }
    bool within(const char* what, int k, const Pat& must, const Pat& got, const Pat& may, const Pat& in) {
        R.comparisons += 2;
        if (!subset(must, got)) { R.fail(vf::fmt("%s (variant %d) for input pattern %s returns %s, misses some of %s", what, k, str(in).substr(0, 80).c_str(), str(got).substr(0, 120).c_str(), str(must).substr(0, 120).c_str())); return false; }
        if (!subset(got, may)) { R.fail(vf::fmt("%s (variant %d) for input pattern %s returns %s, more than the connected %s", what, k, str(in).substr(0, 80).c_str(), str(got).substr(0, 120).c_str(), str(may).substr(0, 120).c_str())); return false; }
        return true; }
    bool same(const char* what, int k, const Pat& a, const Pat& b) { R.comparisons++; if (a == b) return true; R.fail(vf::fmt("%s: representation %d gives %s, another one %s", what, k, str(b).substr(0, 150).c_str(), str(a).substr(0, 150).c_str())); return false; }
    void body(const Prog& g) {
        auto& pts = vec ? vec_points() : std_points(); size_t m = g.y.size(), n = 2; uint64_t rot = R.g_idx() / 8;
        N = n; M = m; xi = {0, 1}; yi.resize(m); for (size_t i = 0; i < m; i++) yi[i] = i;
        if (wide) { static const size_t xs[4][3] = {{63, 64, 66}, {0, 63, 64}, {64, 127, 129}, {5, 128, 130}}; auto* q = xs[rot % 4]; xi = {q[0], q[1]}; N = q[2]; M = 60 + 66 * (rot / 4 % 2) + m; for (size_t i = 0; i < m; i++) yi[i] = M - m - (i % 2 ? 0 : rot % 3) + i; 
            { std::set<size_t> u; for (size_t i = 0; i < m; i++) { while (u.count(yi[i]) || yi[i] >= M) yi[i]--; u.insert(yi[i]); } } }
        Fun1 f; rec(g, pts[0], f); f.check_for_nan(false);
        Fun1 fo; fo = f; bool opt = rot % 3 == 1; if (opt) fo.optimize();
        Fun1& F = opt ? fo : f;
        // derivatives that are not zero at some point
        Pat jnz, dep, may; std::vector<Pat> hnz(m); auto cl = closure(g);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (cl[g.y[i]] >> j & 1) may.insert({yi[i], xi[j]});
        for (auto& pt : pts) {
            std::vector<char> bv, bd; bad_deps(g, pt, bv, bd); VD p(2), x(N); for (size_t j = 0; j < N; j++) x[j] = 0.1; xi_set(x, pt.x); for (int j = 0; j < 2; j++) p[j] = pt.p[j]; f.new_dynamic(p);
            f.Forward(0, x); VD e(N), w(M); for (size_t j = 0; j < N; j++) e[j] = 0; for (size_t i = 0; i < M; i++) w[i] = 0;
            for (size_t j = 0; j < n; j++) { e[xi[j]] = 1; VD d = f.Forward(1, e); e[xi[j]] = 0;
                for (size_t i = 0; i < m; i++) if (!bd[i]) { double v = d[yi[i]]; if (std::isfinite(v) && v != 0) jnz.insert({yi[i], xi[j]}); }
                if (mode == "hes") for (size_t i = 0; i < m; i++) if (!bd[i] && cl[g.y[i]]) { w[yi[i]] = 1; VD h = f.Reverse(2, w); w[yi[i]] = 0; for (size_t k = 0; k < n; k++) { double v = h[xi[k] * 2 + 1]; if (std::isfinite(v) && v != 0) { hnz[i].insert({xi[j], xi[k]}); hnz[i].insert({xi[k], xi[j]}); } } } }
        }
        if (mode == "jac") { // values that change when one argument does
            for (auto& pt : pts) { auto v0 = run<double>(g, pt.x, pt.p); auto b0 = bad_nodes(g, v0, false);
                for (auto& qt : pts) for (size_t j = 0; j < n; j++) { auto x = pt.x; x[j] = qt.x[j]; if (vec && j == 0 && (x[0] < 0 || x[0] >= 3)) continue; auto v1 = run<double>(g, x, pt.p); auto b1 = bad_nodes(g, v1, false);
                    for (size_t i = 0; i < m; i++) { int k = g.y[i]; if (!b0[k] && !b1[k] && v0[k] != v1[k] && std::fabs(v0[k] - v1[k]) > 1e-9 * (1 + std::fabs(v0[k]))) dep.insert({yi[i], xi[j]}); } } }
            dep.insert(jnz.begin(), jnz.end());
            jac(F, g, jnz, dep, may, rot);
        } else hes(F, g, hnz, may, rot);
        uint64_t h = 1469598103934665603ull; for (auto& e : may) h = vf::hash_bytes(&e, sizeof e, h); for (auto& e : jnz) h = vf::hash_bytes(&e, sizeof e, h); for (auto& e : dep) h = vf::hash_bytes(&e, sizeof e, h); for (auto& q : hnz) { for (auto& e : q) h = vf::hash_bytes(&e, sizeof e, h); h = vf::hash_bytes("|", 1, h); } R.outcome(h);
    }
    void jac(Fun1& F, const Prog& g, const Pat& jnz, const Pat& dep, const Pat& may, uint64_t rot) {
        size_t m = g.y.size(), n = 2; bool all = !wide && (g.ins.size() == 1 || (R.thorough() && g.ins.size() == 2));
        std::vector<std::vector<size_t>> cols = {{0}, {0, 1}, {0, 1, 2}}; std::vector<size_t> ln = {1, 2, 3};
        if (wide) { cols = {{63, 64}, {64}, {0, 127}}; ln = {65, 65, 128}; }
        for (size_t c = 0; c < 3; c++) {
            // n by l input patterns
            uint64_t np = 1ull << (n * cols[c].size());
            for (uint64_t b = 0; b < np; b++) {
                if (!all && b != np - 1 && (b + rot) % (c == 2 ? 16 : 5)) continue;
                Pat in = seed(n, cols[c].size(), b, xi, cols[c]), mj = mul(jnz, in), md = mul(dep, in), my = mul(may, in); size_t l = ln[c];
                Pat r[8]; for (int k = 0; k < 8; k++) { r[k] = for_jac(F, in, l, k & 1, k & 2, k & 4); if (!within("for_jac_sparsity", k, k & 2 ? md : mj, r[k], my, in)) return; if (k & 5) if (!same("for_jac_sparsity", k, r[k & 2], r[k])) return; }
                if ((b + rot) % 2 == 0) for (int k = 0; k < 4; k++) { Pat o = old_for_jac_bool(F, in, l, k & 1, k & 2), s = old_for_jac_set(F, in, l, k & 1, k & 2); if (!within("ForSparseJac", k, k & 2 ? md : mj, o, my, in) || !same("ForSparseJac", k, o, s)) return; }
            }
            // l by m input patterns; with many dependents only those that differ in the first bits
            uint64_t mp = 1ull << std::min<size_t>(cols[c].size() * m, 8);
            for (uint64_t b = 0; b < mp; b++) {
                if (!all && b != mp - 1 && (b + rot) % 16) continue;
                if (all && c && b != mp - 1 && (b + rot) % 4) continue;
                uint64_t bits = b; if (b == mp - 1) bits = ~0ull;
                Pat in = seed(cols[c].size(), m, bits, cols[c], yi), mj = mul(in, jnz), md = mul(in, dep), my = mul(in, may); size_t l = ln[c];
                Pat r[8]; for (int k = 0; k < 8; k++) { r[k] = rev_jac(F, in, l, k & 1, k & 2, k & 4); if (!within("rev_jac_sparsity", k, k & 2 ? md : mj, r[k], my, in)) return; if (k & 5) if (!same("rev_jac_sparsity", k, r[k & 2], r[k])) return; }
                if ((b + rot) % 2 == 0) for (int k = 0; k < 4; k++) { Pat o = old_rev_jac_bool(F, in, l, k & 1, k & 2), s = old_rev_jac_set(F, in, l, k & 1, k & 2); if (!within("RevSparseJac", k, k & 2 ? md : mj, o, my, in) || !same("RevSparseJac", k, o, s)) return; }
            }
        }
        // every selection for subgraphs: it computes dependence
        for (uint64_t d = 0; d < 4; d++) for (uint64_t s = 0; s < 1ull << m; s++) {
            if (!all && s + 1 != 1ull << m && (s + d + rot) % 5) continue;
            VB dom(N), ran(M); for (size_t j = 0; j < N; j++) dom[j] = false; for (size_t i = 0; i < M; i++) ran[i] = false; for (size_t j = 0; j < n; j++) dom[xi[j]] = d >> j & 1; for (size_t i = 0; i < m; i++) ran[yi[i]] = s >> i & 1;
            Pat md, my; for (auto& e : dep) if (dom[e.second] && ran[e.first]) md.insert(e); for (auto& e : may) if (dom[e.second] && ran[e.first]) my.insert(e);
            Pat a = sub_jac(F, dom, ran, false), b = sub_jac(F, dom, ran, true); if (!within("subgraph_sparsity", int(d * 100 + s), md, a, my, {}) || !same("subgraph_sparsity transpose", 1, a, b)) return;
            if ((s + rot) % 4 == 0) F.clear_subgraph();
        }
    }
    void hes(Fun1& F, const Prog& g, const std::vector<Pat>& hnz, const Pat& may, uint64_t rot) {
        size_t m = g.y.size(), n = 2; bool all = !wide && (g.ins.size() == 1 || (R.thorough() && g.ins.size() == 2));
        for (uint64_t d = 0; d < 4; d++) for (uint64_t s = 0; s < 1ull << m; s++) {
            bool one = (s & (s - 1)) == 0, full = s + 1 == 1ull << m;
            if (!all && !full && !(d == 3 && one && s) && (s + d + rot) % 11) continue;
            VB dom(N), ran(M); for (size_t j = 0; j < N; j++) dom[j] = false; for (size_t i = 0; i < M; i++) ran[i] = false; for (size_t j = 0; j < n; j++) dom[xi[j]] = d >> j & 1; for (size_t i = 0; i < m; i++) ran[yi[i]] = s >> i & 1;
            Pat mc, ms, yc, ys;  // columns selected; rows and columns selected
            for (size_t i = 0; i < m; i++) if (s >> i & 1) { for (auto& e : hnz[i]) if (dom[e.second]) { mc.insert(e); if (dom[e.first]) ms.insert(e); }
                for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) if (may.count({yi[i], xi[j]}) && may.count({yi[i], xi[k]}) && dom[xi[k]]) { yc.insert({xi[j], xi[k]}); if (dom[xi[j]]) ys.insert({xi[j], xi[k]}); } }
            int id = int(d * 100 + s);
            Pat a = for_hes(F, dom, ran, true), b = for_hes(F, dom, ran, false); if (!within("for_hes_sparsity", id, ms, a, ys, {}) || !same("for_hes_sparsity internal_bool", id, a, b)) return;
            Pat r[4]; for (int k = 0; k < 4; k++) { r[k] = rev_hes(F, dom, ran, k & 1, k & 2); if (!within("rev_hes_sparsity", id * 10 + k, mc, r[k], yc, {})) return; if (k && !same("rev_hes_sparsity", k, r[0], r[k])) return; }
            if (one || full || (s + rot) % 3 == 0) {
                Pat o = old_for_hes_bool(F, dom, ran), q = old_for_hes_set(F, dom, ran); if (!within("ForSparseHes", id, ms, o, ys, {}) || !same("ForSparseHes", id, o, q)) return;
                for (int k = 0; k < 2; k++) { Pat o = old_rev_hes_bool(F, dom, ran, k), q = old_rev_hes_set(F, dom, ran, k); if (!within("RevSparseHes", id * 10 + k, mc, o, yc, {}) || !same("RevSparseHes", id, o, q)) return; }
            }
            // any n by l matrix on the right of the Hessian
            if (one || full) for (uint64_t bits = 1; bits < 16; bits++) { if (!all && (bits + rot) % 5) continue;
                std::vector<size_t> cm = wide ? std::vector<size_t>{0, 64} : std::vector<size_t>{0, 1}; size_t l = wide ? 65 : 2;
                Pat in = seed(n, 2, bits, xi, cm), mm, yy; for (size_t i = 0; i < m; i++) if (s >> i & 1) { Pat t = mul(hnz[i], in); mm.insert(t.begin(), t.end()); Pat u; for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) if (may.count({yi[i], xi[j]}) && may.count({yi[i], xi[k]})) u.insert({xi[j], xi[k]}); u = mul(u, in); yy.insert(u.begin(), u.end()); }
                bool ib = (bits + rot) % 2; for_jac(F, in, l, false, false, ib); RC o; F.rev_hes_sparsity(ran, false, ib, o); if (!within("rev_hes_sparsity times a matrix", id, mm, to_set(o), yy, in)) return; }
        }
    }
};
template <class F> void small2(Run& R, const Opt& o, F&& body, const char* name) {
    if (!R.family(name)) return;
    Prog g = base(); int r0 = g.nleaf();
    for (auto& i1 : first_ops(o, true)) for (auto& i2 : next_ops(o, r0, {0, 1}, 2)) { g.ins = {i1, i2}; set_y(g, o.y); if (R.next([g] { return g.str(); })) body(g); }
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler); the_atom(); the_mix();
    std::string mode = R.args.size() ? R.args[0] : "jac"; bool th = R.thorough();
    return vf::guarded_main(R, [&] {
        Opt o, l; l.y = Y_LAST; Spars c(R, mode, false, false), v(R, mode, true, false), w(R, mode, false, true), vw(R, mode, true, true);
        depth1(R, o, c); depth1(R, o, w, "d1wide"); depth2(R, o, c); if (th) depth2(R, o, w, "d2wide"); else small2(R, l, w, "d2wide"); if (th) depth3(R, o, c); 
        vecad(R, o, 2, v, "vec2"); vecad(R, o, 3, v, "vec3"); vecad(R, l, 3, vw, "vec3wide"); if (th) vecad(R, o, 4, v, "vec4");
        nests(R, "nest1", 1, th, c); if (th) nests(R, "nest2", 2, false, c);
        for (int k = 1; k <= (th ? 4 : 3); k++) sums(R, vf::fmt("sums%d", k).c_str(), k, c);
        shared(R, "cse_atom", {ATA, ATB, ADD, MUL}, {0, 1, 2}, th ? 3 : 2, c, 2); shared(R, "share3", {MUL, SIN, ADD}, {0, 1}, 3, c, 2); mixed(R, th, c);
    });
}
