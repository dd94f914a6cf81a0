// Values and derivatives of every program up to a depth, against the reference model of tayref.hpp.
// argument: zero | forward | dir | reverse
#include "families.hpp"
#define TAY_K 4
#define TAY_N 2
#include "tayref.hpp"
#include "adhook.hpp"
using namespace prog; using namespace adhook; using vf::Run;
typedef std::vector<double> SV;
struct Point { double x[2], p[2]; };
static std::vector<Point> points = {{{0.3, 0.7}, {0.45, -0.8}}, {{1.5, -0.6}, {1.2, 2.0}}, {{-0.4, 1.25}, {0.0, 1.0}}, {{1.25, 1.25}, {1.25, -1.5}}};
static std::vector<Point> vpoints = {{{0.3, 0.7}, {1.2, -0.8}}, {{1.5, -0.6}, {2.0, 0.5}}, {{2.25, 1.25}, {0.0, 1.0}}};
static const double X[2][5] = {{0, 0.7, -0.4, 0.9, 0.35}, {0, -0.3, 0.8, 0.25, -0.6}};
static bool usable(tay::L v) { return std::isfinite((double)v) && std::fabs((double)v) < 1e7; }

struct Checker {
    Run& R; std::string mode; bool vec;
    Checker(Run& R, std::string m, bool v) : R(R), mode(m), vec(v) {}
    void operator()(const Prog& g) {
        try { body(g); } catch (vf::CppadError& e) { CppAD::AD<double>::abort_recording(); R.fail(e.what()); }
        catch (std::exception& e) { CppAD::AD<double>::abort_recording(); R.fail(std::string("exception ") + e.what()); }
    }
    void bad(const char* what, size_t i, size_t k, double got, double want, const Point& pt) {
        R.fail(vf::fmt("%s: dependent %zu index %zu is %.17g, reference %.17g at x=(%g,%g) p=(%g,%g)", what, i, k, got, want, pt.x[0], pt.x[1], pt.p[0], pt.p[1]));
    }
    void body(const Prog& g) {
        auto& pts = vec ? vpoints : points;
        // the point where the recording is made must not matter
        static const std::vector<Point> special = {{{0, 0}, {0, 0}}, {{-1.5, 1}, {1, -1}}, {{0, -0.75}, {-2.5, 0}}};
        std::vector<Point> rps = {pts[0]};
        if (!vec && mode != "dir") { rps = pts; rps.insert(rps.end(), special.begin(), special.end());
            if (mode != "zero" || g.ins.size() > 2) rps = {rps[R.g_idx() / 8 % rps.size()]}; }
        for (auto& rp : rps) { one(g, rp, pts); if (R.case_failed) return; }
    }
    void one(const Prog& g, Point rp, std::vector<Point>& pts) {
        CppAD::ADFun<double> f; std::vector<AD1> nodes;
        { std::vector<double> v = run<double>(g, SV(rp.x, rp.x + 2), SV(rp.p, rp.p + 2));   // pow of a constant zero is a constant: right for positive exponents only
          for (int i = 0; i < (int)g.ins.size(); i++) if (g.ins[i].op == POW && v[g.ins[i].a[0]] == 0 && !(v[g.ins[i].a[1]] > 0)) rp = pts[0]; }
        record(g, SV(rp.x, rp.x + 2), SV(rp.p, rp.p + 2), f, &nodes);
        f.check_for_nan(false);
        if (mode == "zero") { std::vector<double> v = run<double>(g, SV(rp.x, rp.x + 2), SV(rp.p, rp.p + 2)); std::vector<char> badn = bad_nodes(g, v, false);   // value of the AD objects themselves while recording
            for (size_t k = 0; k < v.size(); k++) { R.comparisons++; double got = CppAD::Value(CppAD::Var2Par(nodes[k])); if (!badn[k] && !vf::close(got, v[k], 1e-13, 1e-14)) return bad("value while recording", k, 0, got, v[k], rp); } }
        size_t m = g.y.size(), n = 2;
        for (size_t ip = 0; ip < pts.size(); ip++) {
            Point& pt = pts[ip];
            VD p(2); p[0] = pt.p[0]; p[1] = pt.p[1];
            f.new_dynamic(p);
            VD x0(2); x0[0] = pt.x[0]; x0[1] = pt.x[1];
            if (mode == "zero") { zero(g, f, pt, x0); continue; }
            // reference
            tay::T tx[2], tp[2];
            for (int j = 0; j < 2; j++) { tx[j].c[0] = tay::D((tay::L)pt.x[j]); tx[j].c[0].d[j] = 1; for (int k = 1; k <= TAY_K; k++) tx[j].c[k] = tay::D((tay::L)X[j][k]); tp[j] = tay::T(pt.p[j]); }
            std::vector<tay::T> rv = run<tay::T>(g, tx, tp);
            size_t K = TAY_K;
            std::vector<char> use(m), badn = bad_nodes(g, run<double>(g, SV(pt.x, pt.x + 2), SV(pt.p, pt.p + 2)), true);
            for (size_t i = 0; i < m; i++) { bool ok = !badn[g.y[i]]; for (size_t k = 0; k <= K; k++) { ok &= usable(rv[g.y[i]].c[k].v); for (size_t j = 0; j < n; j++) ok &= usable(rv[g.y[i]].c[k].d[j]); } use[i] = ok; }
            if (mode == "forward") {
                // one order at a time
                VD xk(2);
                std::vector<VD> yk;
                for (size_t k = 0; k <= K; k++) { for (int j = 0; j < 2; j++) xk[j] = k ? X[j][k] : pt.x[j]; yk.push_back(f.Forward(k, xk)); }
                for (size_t i = 0; i < m; i++) if (use[i]) for (size_t k = 0; k <= K; k++) {
                    double want = (double)rv[g.y[i]].c[k].v; R.comparisons++; if (k > 1) R.case_nontrivial = true;
                    if (!vf::close(yk[k][i], want, 1e-7, 1e-8)) return bad("Forward(k,x) one order at a time", i, k, yk[k][i], want, pt);
                }
                R.outcome(vf::hash_bytes(yk[K].data(), m * 8));
                // all orders at once, for every top order, then the orders above it one call each
                size_t q = 1 + ip % K;
                VD xq(2 * (q + 1)); for (int j = 0; j < 2; j++) for (size_t k = 0; k <= q; k++) xq[j * (q + 1) + k] = k ? X[j][k] : pt.x[j];
                VD yq = f.Forward(q, xq);
                for (size_t i = 0; i < m; i++) if (use[i]) for (size_t k = 0; k <= q; k++) {
                    double want = (double)rv[g.y[i]].c[k].v; R.comparisons++;
                    if (!vf::close(yq[i * (q + 1) + k], want, 1e-7, 1e-8)) return bad("Forward(q,x) all orders", i, k, yq[i * (q + 1) + k], want, pt);
                }
                for (size_t k = q + 1; k <= K; k++) { for (int j = 0; j < 2; j++) xk[j] = X[j][k]; VD y = f.Forward(k, xk);
                    for (size_t i = 0; i < m; i++) if (use[i]) { R.comparisons++; double want = (double)rv[g.y[i]].c[k].v; if (!vf::close(y[i], want, 1e-7, 1e-8)) return bad("Forward(k,x) after Forward(q,x)", i, k, y[i], want, pt); } }
            } else if (mode == "dir") {
                size_t r = 3; 
                std::vector<std::vector<tay::T>> ref(r);
                auto xd = [&](size_t l, int j, size_t k) { return l == 0 ? X[j][k] : l == 1 ? X[1 - j][5 - k] : (k == 1 ? (j == 0 ? 1.0 : 0.0) : k == 3 ? -0.5 : 0.0); };
                for (size_t l = 0; l < r; l++) { tay::T t2[2]; for (int j = 0; j < 2; j++) { t2[j] = tx[j]; for (size_t k = 1; k <= K; k++) t2[j].c[k] = tay::D((tay::L)xd(l, j, k)); } ref[l] = run<tay::T>(g, t2, tp); }
                for (size_t rr : {r, size_t(1)}) {
                f.Forward(0, x0);
                for (size_t q = 1; q <= K; q++) {
                    VD xq(2 * rr); for (int j = 0; j < 2; j++) for (size_t l = 0; l < rr; l++) xq[j * rr + l] = xd(l, j, q);
                    VD y = f.Forward(q, rr, xq);
                    for (size_t i = 0; i < m; i++) if (use[i]) for (size_t l = 0; l < rr; l++) {
                        tay::L w = ref[l][g.y[i]].c[q].v; if (!usable(w)) continue;
                        double want = (double)w; R.comparisons++; R.case_nontrivial = true;
                        if (!vf::close(y[i * rr + l], want, 1e-7, 1e-8)) return bad("Forward(q,r,x)", i, q * 10 + l, y[i * rr + l], want, pt);
                    }
                    if (q == K && rr == r) R.outcome(vf::hash_bytes(y.data(), y.size() * 8));
                } }
            } else { // reverse
                VD xq(2 * (K + 1)); for (int j = 0; j < 2; j++) for (size_t k = 0; k <= K; k++) xq[j * (K + 1) + k] = k ? X[j][k] : pt.x[j];
                f.Forward(K, xq);
                for (size_t q = 1; q <= K + 1; q++) for (int form = 0; form < 2; form++) for (size_t wi = 0; wi < 1 + m; wi++) {
                    // wi = 0: every usable dependent at once; wi = 1+i: dependent i alone
                    if (wi > 1 && q != 2 && q != K + 1) continue;
                    VD w(form ? m * q : m);
                    auto wt = [&](size_t i, size_t k) { if (!use[i] || (wi && wi - 1 != i)) return 0.0; return form ? (wi ? (k == q - 1 ? 0.5 : 1.0) : 0.3 + 0.7 * i - 0.4 * k) : (k == q - 1 ? 1.0 + 0.5 * i : 0.0); };
                    if (form) for (size_t i = 0; i < m; i++) for (size_t k = 0; k < q; k++) w[i * q + k] = wt(i, k);
                    else for (size_t i = 0; i < m; i++) w[i] = wt(i, q - 1);
                    bool any = false; for (size_t i = 0; i < m; i++) any |= wt(i, q - 1) != 0; if (!any) continue;
                    VD dw = f.Reverse(q, w);
                    // when an unusable dependent shares operations its zero weight can still meet inf or nan: skip non finite there
                    bool all_use = true; for (size_t i = 0; i < m; i++) all_use &= use[i];
                    for (size_t j = 0; j < n; j++) for (size_t l = 0; l < q; l++) {
                        tay::L s = 0; for (size_t i = 0; i < m; i++) for (size_t k = l; k < q; k++) { double ww = wt(i, k); if (ww != 0) s += ww * rv[g.y[i]].c[k - l].d[j]; }
                        double got = dw[form ? j * q + l : j * q + q - l - 1], want = (double)s;
                        if (!all_use && !std::isfinite(got)) { R.count["skipped_nonfinite"]++; continue; }
                        R.comparisons++; R.case_nontrivial = true;
                        if (!vf::close(got, want, 1e-7, 1e-8)) { R.fail(vf::fmt("Reverse(%zu,w) form %d weight %zu: partial for x%zu order %zu is %.17g, reference %.17g at x=(%g,%g) p=(%g,%g)", q, form, wi, j, l, got, want, pt.x[0], pt.x[1], pt.p[0], pt.p[1])); return; }
                    }
                    if (q == K + 1 && wi == 0) R.outcome(vf::hash_bytes(dw.data(), dw.size() * 8));
                }
            }
        }
    }
    void zero(const Prog& g, CppAD::ADFun<double>& f, const Point& pt, const VD& x0) {
        SV px(pt.x, pt.x + 2), pp(pt.p, pt.p + 2);
        std::vector<double> v = run<double>(g, px, pp); std::vector<char> badn = bad_nodes(g, v, false);
        VD y = f.Forward(0, x0);
        for (size_t i = 0; i < g.y.size(); i++) {
            double want = v[g.y[i]]; R.comparisons++;
            if (!badn[g.y[i]]) R.case_nontrivial = true; else if (std::isfinite(y[i])) { R.count["replay_finite_direct_not"]++; continue; } else continue;
            if (!vf::close(y[i], want, 1e-13, 1e-14)) return bad("Forward(0,x)", i, 0, y[i], want, pt);
        }
        R.outcome(vf::hash_bytes(y.data(), y.size() * 8));
    }
};
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler);
    std::string mode = R.args.size() ? R.args[0] : "forward";
    the_atom(); the_mix();
    return vf::guarded_main(R, [&] {
        Opt o; Checker c(R, mode, false), v(R, mode, true);
        depth1(R, o, c); depth2(R, o, c); depth3(R, o, c); depth4(R, o, c);
        vecad(R, o, 2, v, "vec2"); vecad(R, o, 3, v, "vec3"); vecad(R, o, 4, v, "vec4"); mixed(R, R.thorough(), c);
    });
}
