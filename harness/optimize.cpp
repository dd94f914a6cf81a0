// f.optimize(options) leaves the function unchanged: compared against the function before optimization.
#include "families.hpp"
#include "battery.hpp"
using namespace prog; using namespace battery; using vf::Run;
static const std::vector<std::vector<std::string>> opt_sets = {
    {""}, {"no_conditional_skip"}, {"no_compare_op"}, {"no_cumulative_sum_op"}, {"collision_limit=1"}, {"no_conditional_skip no_cumulative_sum_op no_compare_op no_print_for_op"},
    {"no_conditional_skip val_graph"}, {"no_conditional_skip no_cumulative_sum_op val_graph"}, {"", ""}, {"no_cumulative_sum_op", ""}, {"no_conditional_skip val_graph", ""}, {"no_conditional_skip", "no_conditional_skip val_graph"}};
struct Checker {
    Run& R; const std::vector<Point>& pts; std::vector<int> sets; size_t rot = 0;
    void operator()(const Prog& g) {
        try { body(g); } catch (vf::CppadError& e) { CppAD::AD<double>::abort_recording(); R.fail(e.what()); }
        catch (std::exception& e) { CppAD::AD<double>::abort_recording(); R.fail(std::string("exception ") + e.what()); }
    }
    void body(const Prog& g) {
        bool dbg = R.verbose, vg_ok = val_graph_ok(g);
        CppAD::ADFun<double> f; 
        record(g, pts[0].x, pts[0].p, f); f.check_for_nan(false);
        CppAD::ADFun<double> f0; f0 = f;   // never evaluated
        std::vector<Sig> cache; Options o; uint64_t h = 14695981039346656037ull;
        size_t n0 = f.size_var();
        std::vector<int> sets = this->sets;
        if (rot) sets = {this->sets[0], this->sets[1 + (R.g_idx() / 8) % (this->sets.size() - 1)]};
        for (size_t si = 0; si < sets.size(); si++) {
            bool valg = false; for (auto& s : opt_sets[sets[si]]) valg |= s.find("val_graph") != std::string::npos;
            if (valg && !vg_ok) continue;      // documented: not implemented for every operation
            CppAD::ADFun<double> k; k = f0;
            bool pre = (R.g_idx() + si) % 2;   // also with Taylor coefficients present, which the optimizer rechecks
            if (pre) { std::vector<char> bv, bd; bad_deps(g, pts[0], bv, bd); for (char c : bv) if (c) pre = false; }
            if (pre) { VD p(2), x(2); for (int j = 0; j < 2; j++) { p[j] = pts[0].p[j]; x[j] = pts[0].x[j]; } k.new_dynamic(p); k.Forward(0, x); }
            // the dynamic parameters hold the values of another point when optimize is called; it must keep them
            const Point& dp = pts[1 + si % (pts.size() - 1)];
            bool dynk = !pre && si % 3 != 2;
            if (dynk) { VD p(2); for (int j = 0; j < 2; j++) p[j] = dp.p[j]; k.new_dynamic(p); }
            std::string all;
            for (auto& s : opt_sets[sets[si]]) { all += "optimize(" + s + ") "; k.optimize(s); if (k.size_order() != 0) { R.fail(all + "size_order() is not zero after it"); return; } }
            if (k.Domain() != f.Domain() || k.Range() != f.Range() || k.size_dyn_ind() != f.size_dyn_ind()) { R.fail(all + ": Domain, Range or size_dyn_ind changed"); return; }
            if (k.size_var() > n0 + 1) { R.count["grew"]++; }
            if (k.size_var() < n0) { R.case_nontrivial = true; R.count["reduced"]++; }
            if (dbg) fprintf(stderr, "%s vars %zu -> %zu\n", all.c_str(), n0, k.size_var());
            if (k.check_for_nan()) { R.fail(all + ": check_for_nan() was set to false and is true afterwards"); return; }
            if (dynk || pre) {
                const Point& q = pre ? pts[0] : dp; std::vector<char> bv, bd; bad_deps(g, q, bv, bd); VD x(2), p(2);
                for (int j = 0; j < 2; j++) { x[j] = q.x[j]; p[j] = q.p[j]; } f.new_dynamic(p);
                VD a = f.Forward(0, x), b = k.Forward(0, x);
                for (size_t i = 0; i < a.size(); i++) if (!bv[i]) { R.comparisons++; if (!vf::close(b[i], a[i], 1e-12, 1e-13)) { R.fail(all + vf::fmt(": dynamic parameters set before it are not in effect after it: dependent %zu is %.17g, expected %.17g", i, b[i], a[i])); return; } }
            }
            std::string e = compare(R, g, f, k, pts, o, &cache, si == 0 ? &h : nullptr);
            if (e.size()) { R.fail(all + ": " + e); return; }
            for (size_t i = 0; i < f.Range(); i++) { if (f.Parameter(i) && !k.Parameter(i)) { R.fail(all + vf::fmt(": Parameter(%zu) was true and is false afterwards", i)); return; } }
        }
        R.outcome(h);
    }
};
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler); the_atom(); the_mix();
    bool th = R.thorough();
    std::string grp = R.args.size() ? R.args[0] : "all"; bool all = grp == "all";
    return vf::guarded_main(R, [&] {
        std::vector<int> every, some = {0, 4, 6, 9}; for (size_t i = 0; i < opt_sets.size(); i++) every.push_back((int)i);
        Checker full{R, std_points(), every}, quick{R, std_points(), th ? every : some}, rot{R, std_points(), every, th ? 0ul : 1ul}, vec{R, vec_points(), th ? every : some};
        Opt o; o.y = Y_LAST; Opt oa;
        depth1(R, oa, full); depth2(R, o, quick); depth3(R, o, rot);
        shared(R, "cse", {ADD, SUB, MUL, SIN}, {0, 2, 6}, 3, rot);
        shared(R, "cse_div", {DIV, POW, ADDEQ, CEQ}, {0, 2}, th ? 3 : 2, quick);
        shared(R, "cse_atom", {ATA, ATB, ADD}, {0, 1, 2}, th ? 3 : 2, quick, 2);
        if (th) shared(R, "cse4", {ADD, SUB, MUL}, {0, 2}, 4, quick);
        for (int n = 1; n <= (th ? 5 : 4); n++) sums(R, vf::fmt("sums%d", n).c_str(), n, quick);
        nests(R, "nest1", 1, true, full); nests(R, "nest2", 2, th, rot);
        vecad(R, o, 2, vec, "vec2"); vecad(R, o, 3, vec, "vec3"); vecad(R, o, 4, vec, "vec4"); mixed(R, th, full);
    });
}
