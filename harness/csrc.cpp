// C source generated from a function: compiled, linked and called, over the program families.
// Many generated files are concatenated (with their static functions renamed) so that one compiler run serves a batch;
// the family "files" uses one file per function, as create_dll_lib documents.
#include "families.hpp"
#include "battery.hpp"
#include <cppad/utility/link_dll_lib.hpp>
#include <cppad/utility/create_dll_lib.hpp>
#include <fstream>
#include <sys/stat.h>
#include <dirent.h>
using namespace prog; using namespace battery; using vf::Run;
typedef CppAD::ADFun<double> Fun1;
static VD vd(const std::vector<double>& v) { VD r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
static std::string g_dir; static int g_nlib = 0;
static const char* callbacks(const std::string& ctype) {
    static std::string s; std::string T = ctype == "long_double" ? "long double" : ctype;
    s = "#include <stddef.h>\n#include <math.h>\ntypedef " + T + " fpt;\n"
        "fpt cppad_discrete_dis1(fpt x) { return (fpt) floor(2.0 * x + 0.5); }\n"
        "int cppad_atomic_atom_t(size_t id, size_t nu, const fpt* u, size_t ny, fpt* y, size_t* cc) { (void)cc; if (nu != 2) return 1; if (ny != 2) return 2; if (id >= 100) return (int)(id - 100); y[0] = u[0] * u[1]; y[1] = u[0] * u[0] * 0.5 + sin(u[1]) + id; if (id) *cc += id; return 0; }\n"
        "int cppad_atomic_mix_t(size_t id, size_t nu, const fpt* u, size_t ny, fpt* y, size_t* cc) { (void)cc; (void)id; if (nu != 2) return 1; if (ny != 3) return 2; y[0] = 2.5; y[1] = u[0] * u[0]; y[2] = sin(u[0]) * u[1]; return 0; }\n";
    return s.c_str(); }
struct Item { Run::Late late; Prog g; std::string name, src; Fun1 f; std::vector<Point> pts; std::vector<Ins> cmp; int flag = 0; size_t add = 0; bool nd = true; bool exact = true, opt = false; };
struct Batch { Run& R; std::string ctype; size_t cap; std::vector<std::unique_ptr<Item>> items; double tol;
    Batch(Run& r, const std::string& c, size_t n) : R(r), ctype(c), cap(n) { tol = c == "float" ? 3e-5 : 2e-14; }
    ~Batch() {}
    void add(std::unique_ptr<Item> it) { std::stringstream ss; it->f.function_name_set(it->name); it->f.to_csrc(ss, ctype); it->src = ss.str(); it->late = R.late(); items.push_back(std::move(it)); if (items.size() >= cap) flush(); }
    std::string write(size_t lo, size_t hi, std::vector<std::string>& files, bool single) {
        auto put = [&](const std::string& n, const std::string& t) { std::string p = g_dir + "/" + n; std::ofstream o(p); o << t; files.push_back(p); };
        put(vf::fmt("cb%d.c", g_nlib), callbacks(ctype));
        if (single) { for (size_t k = lo; k < hi; k++) put(vf::fmt("f%d_%zu.c", g_nlib, k), items[k]->src); }
        else { std::string t; for (size_t k = lo; k < hi; k++) t += vf::fmt("#undef azmul\n#undef sign\n#define azmul azmul_%zu\n#define sign sign_%zu\n", k, k) + items[k]->src; put(vf::fmt("all%d.c", g_nlib), t); }
        return g_dir + vf::fmt("/lib%d.so", g_nlib); }
    void flush() {
        if (items.empty()) return;
        go(0, items.size()); items.clear(); }
    void go(size_t lo, size_t hi) {
        g_nlib++; std::vector<std::string> files; std::string lib = write(lo, hi, files, cap <= 8);
        CppAD::vector<std::string> cf(files.size()); for (size_t k = 0; k < files.size(); k++) cf[k] = files[k];
        std::map<std::string, std::string> opt; if (cap > 8) opt["compile"] = "gcc -c -fPIC -O0 -w"; else if (g_nlib % 2) { opt["compile"] = "gcc -c -fPIC -Wall -Werror -Wno-unused-function -Wno-unused-variable"; opt["link"] = "gcc -shared"; }
        std::string err = CppAD::create_dll_lib(lib, cf, opt);
        for (auto& p : files) unlink(p.c_str());
        if (err != "") { if (hi - lo == 1) { R.focus(items[lo]->late); R.fail_late(items[lo]->late, "create_dll_lib: " + err + " source: " + items[lo]->src.substr(items[lo]->src.find("// constants"))); }
            else { size_t mid = (lo + hi) / 2; go(lo, mid); go(mid, hi); } unlink(lib.c_str()); return; }
        { CppAD::link_dll_lib dll(lib, err); if (err != "") { R.focus(items[lo]->late); R.fail_late(items[lo]->late, "link_dll_lib: " + err); return; }
          for (size_t k = lo; k < hi; k++) { R.focus(items[k]->late); std::string e; void* p = dll("cppad_jit_" + items[k]->name, e); if (e != "" || !p) { R.fail_late(items[k]->late, "function not found in the library: " + e); continue; }
            std::string m = ctype == "float" ? eval<float>(*items[k], (CppAD::jit_float)p) : ctype == "double" ? eval<double>(*items[k], (CppAD::jit_double)p) : eval<long double>(*items[k], (CppAD::jit_long_double)p);
            if (m.size()) R.fail_late(items[k]->late, ctype + ": " + m); }
          std::string e; if (dll("no_such_function", e) || e == "") { R.fail_late(items[lo]->late, "a function that does not exist was found"); } }
        unlink(lib.c_str());
    }
    template <class T, class F> std::string eval(Item& it, F fun) {
        size_t np = it.f.size_dyn_ind(), nx = it.f.Domain(), ny = it.f.Range(), nu = np + nx; std::vector<T> u(nu), y(ny + 1); size_t cc = 5; uint64_t h = 7;
        for (auto& pt : it.pts) {
            std::vector<double> v; std::vector<char> bv(ny, 0); if (it.g.y.size()) { std::vector<char> bd; bad_deps(it.g, pt, bv, bd); }
            for (size_t k = 0; k < np; k++) u[k] = T(pt.p[k]); for (size_t k = 0; k < nx; k++) u[np + k] = T(pt.x[k]);
            for (auto& q : y) q = T(-777);
            int f = fun(nu + 1, u.data(), ny, y.data(), &cc); if (f != 1) return vf::fmt("flag is %d with wrong nu", f);
            f = fun(nu, u.data(), ny + 1, y.data(), &cc); if (f != 2) return vf::fmt("flag is %d with wrong ny", f);
            for (auto& q : y) if (q != T(-777)) return "results changed by a call with wrong sizes";
            if (cc != 5) return "compare_change changed by a call with wrong sizes";
            f = fun(nu, u.data(), ny, y.data(), &cc); if (f != it.flag) return vf::fmt("flag is %d, expected %d", f, it.flag); if (f) continue;
            if (y[ny] != T(-777)) return "element past the end of the result was changed";
            if (np) it.f.new_dynamic(vd(pt.p)); VD w = it.f.Forward(0, vd(pt.x));
            size_t change = it.add; if (it.cmp.size()) { change += it.f.compare_change_number(); size_t mine = 0; for (auto& c : it.cmp) { double a[2]; bool var = false; for (int k = 0; k < 2; k++) { a[k] = val(it, pt, c.a[k]); var |= c.a[k] < 4; } double b[2]; for (int k = 0; k < 2; k++) b[k] = val(it, it.pts[0], c.a[k]); if (var && rel(c.op, a) != rel(c.op, b)) mine++; }
                bool same = it.opt ? (mine > 0) == (change > it.add) : mine == change - it.add; if (!same) return vf::fmt("compare_change_number is %zu, expected %zu", change - it.add, mine); }
            if (cc != 5 + change) return vf::fmt("compare_change increased by %zu, expected %zu", cc - 5, change); cc = 5;
            for (size_t i = 0; i < ny; i++) { if (bv[i]) continue; if (std::isfinite(w[i]) && std::fabs(w[i]) > 1e30 && ctype == "float") continue; R.comparisons++;
                if (std::isfinite(w[i]) ? !vf::close((double)y[i], w[i] + (it.add && i ? it.add : 0), it.exact ? tol : tol * 100, ctype == "float" ? 3e-5 : (it.g.y.size() ? it.exact ? 4e-15 : 1e-13 : 0)) : !vf::same_double((double)y[i], w[i])) return vf::fmt("result %zu is %.17g, expected %.17g at x=(%g,%g)", i, (double)y[i], w[i], pt.x[0], pt.x.size() > 1 ? pt.x[1] : 0.0); }
            h = vf::hash_bytes(w.data(), ny * sizeof(double), h); }
        R.nontrivial++; R.outcomes.insert(h); return ""; }
    static double val(Item& it, const Point& pt, int k) { return k < 2 ? pt.x[k] : k < 4 ? pt.p[k - 2] : it.g.c[k - 4]; }
    static bool rel(Op o, double* a) { switch (o) { case CLT: return a[0] < a[1]; case CLE: return a[0] <= a[1]; case CEQ: return a[0] == a[1]; case CGE: return a[0] >= a[1]; case CGT: return a[0] > a[1]; default: return a[0] != a[1]; } }
};
struct Csrc { Run& R; Batch& b; bool opt = false; int jit = 0; Csrc(Run& r, Batch& q) : R(r), b(q) {}
    void operator()(const Prog& g) {
        try { for (auto& i : g.ins) if (i.op == VLD || i.op == VST) return;   // documented: not implemented
            auto it = std::make_unique<Item>(); it->g = g; it->pts = std_points(); record(g, it->pts[0].x, it->pts[0].p, it->f); it->f.check_for_nan(false); it->name = vf::fmt("f_%s_%lu", R.fam.c_str(), R.g_idx()); for (auto& c : it->name) if (c == '.') c = '_';
            for (auto& i : g.ins) if (i.op == ATAN2) it->exact = false;
            bool bad = false; for (char c : bad_nodes(g, run<double>(g, it->pts[0].x, it->pts[0].p), false)) bad |= c;
            if (!bad && (opt || R.g_idx() / 8 % 2)) it->f.optimize(); it->f.check_for_nan(false);
            b.add(std::move(it));
        } catch (vf::CppadError& e) { AD1::abort_recording(); R.fail(e.what()); } } };
// comparisons: every relation over every pair of operand kinds, one and two at a time
static void compares(Run& R, Batch& b) {
    std::vector<Op> rel = {CLT, CLE, CEQ, CGE, CGT, NOPS}; std::vector<std::pair<int,int>> prs = {{0, 1}, {1, 0}, {0, 2}, {2, 0}, {0, 6}, {4, 0}, {0, 0}, {2, 3}, {3, 5}, {5, 6}};
    for (int two = 0; two < 2; two++) { if (!R.family(two ? "cmp2" : "cmp1")) continue;
        for (auto r1 : rel) for (auto& p1 : prs) for (auto r2 : two ? rel : std::vector<Op>{CLT}) for (auto& p2 : two ? prs : std::vector<std::pair<int,int>>{{0, 0}}) {
            if (!R.next([=] { return vf::fmt("comparisons %d(%d,%d) %d(%d,%d)", r1, p1.first, p1.second, r2, p2.first, p2.second); })) continue;
            try { auto it = std::make_unique<Item>(); it->g = base(); it->pts = std_points(); it->pts.push_back(Point{{1.0, 2.0}, {2.0, 1.0}}); it->pts.push_back(Point{{2.0, 1.0}, {-1.5, 0.0}}); it->name = vf::fmt("c%d_%lu", two, R.g_idx());
                auto& q = it->pts[0]; V1 ax(2), ap(2); for (int k = 0; k < 2; k++) { ax[k] = q.x[k]; ap[k] = q.p[k]; } CppAD::Independent(ax, size_t(0), true, ap);
                std::vector<AD1> v = {ax[0], ax[1], ap[0], ap[1], 0.0, 1.0, 2.0, -1.5}; AD1 y = ax[0] * 2.0;
                for (int k = 0; k < 1 + two; k++) { Op o = k ? r2 : r1; auto& p = k ? p2 : p1; AD1 &l = v[p.first], &r = v[p.second]; bool t = o == CLT ? l < r : o == CLE ? l <= r : o == CEQ ? l == r : o == CGE ? l >= r : o == CGT ? l > r : l != r; if (t) y += ax[1]; else y -= ap[0]; it->cmp.push_back(Ins{o, {(int8_t)p.first, (int8_t)p.second, 0, 0}}); }
                V1 ay(1); ay[0] = y; it->f.Dependent(ax, ay); it->g.y.clear(); if (R.g_idx() / 8 % 3 == 1) { it->f.optimize(); it->opt = true; } it->f.compare_change_count(1); b.add(std::move(it));
            } catch (vf::CppadError& e) { AD1::abort_recording(); R.fail(e.what()); } } }
    if (R.family("atomid")) for (size_t id : {0, 1, 2, 3, 101, 102, 103, 107}) { if (!R.next([=] { return vf::fmt("atomic call_id %zu", id); })) continue;
        auto it = std::make_unique<Item>(); it->g = base(); it->pts = std_points(); it->name = vf::fmt("a%zu", id); V1 ax(2), ay(2); for (int k = 0; k < 2; k++) ax[k] = it->pts[0].x[k]; CppAD::Independent(ax); the_atom()(id, ax, ay); it->f.Dependent(ax, ay);
        int fl = id >= 100 ? int(id - 100) : 0; it->flag = fl == 1 || fl == 2 ? 3 : fl; it->add = id < 100 ? id : 0; it->g.y.clear(); b.add(std::move(it)); }
    if (R.family("const")) { std::vector<double> cs = {1.0 / 3, 0.1, M_PI, -1e22, 9007199254740993.0, 5e-324, 2.2250738585072014e-308, 1e-300, 1.7976931348623157e308, 8.9e307, -123456789.123456789, 1e15, 1e16, 1e17, 123456.0, 1234567.0, -0.0, 1.0 / 0.0, -1.0 / 0.0, std::nan(""), 1 + 2.220446049250313e-16, 4294967296.0, 1e100};
        for (double c : cs) for (int how = 0; how < 3; how++) { if (!R.next([=] { return vf::fmt("constant %.17g use %d", c, how); })) continue;
            auto it = std::make_unique<Item>(); it->pts = {Point{{1.0, 1.0}, {}}, Point{{1.0, -1.0}, {}}}; it->name = vf::fmt("k%lu", R.g_idx()); V1 ax(2), ay(1); ax[0] = 1.0; ax[1] = 1.0; CppAD::Independent(ax); ay[0] = how == 0 ? AD1(c) : how == 1 ? ax[0] * AD1(c) : AD1(c) / ax[1]; it->f.Dependent(ax, ay); it->f.check_for_nan(false); b.add(std::move(it)); } }
    // functions that come from a graph: sums of any number of terms, also one
    if (R.family("sum")) for (int na = 1; na <= 12; na++) for (int pat = 0; pat < 3; pat++) { if (!R.next([=] { return vf::fmt("sum of %d terms pattern %d", na, pat); })) continue;
        std::string a; for (int k = 0; k < na; k++) a += vf::fmt("%s%d", k ? ", " : "", 1 + (pat == 0 ? k % 5 : pat == 1 ? 0 : (k * 3) % 5));
        std::string js = vf::fmt("{ 'function_name' : 's', 'op_define_vec' : [ 1, [ { 'op_code':1, 'name':'sum' } ] ], 'n_dynamic_ind' : 2, 'n_variable_ind' : 2, 'constant_vec' : [ 1, [ -2.5 ] ], 'op_usage_vec' : [ 1, [ [ 1, 1, %d, [ %s ] ] ] ], 'dependent_vec' : [ 1, [ 6 ] ] }", na, a.c_str());
        for (auto& c : js) if (c == '\'') c = '"';
        try { auto it = std::make_unique<Item>(); it->pts = std_points(); it->name = vf::fmt("s%lu", R.g_idx()); it->f.from_json(js); 
            for (auto& pt : it->pts) { double w = 0; for (int k = 0; k < na; k++) { int n = pat == 0 ? k % 5 : pat == 1 ? 0 : (k * 3) % 5; w += n < 2 ? pt.p[n] : n < 4 ? pt.x[n - 2] : -2.5; } it->f.new_dynamic(vd(pt.p)); if (!vf::close(it->f.Forward(0, vd(pt.x))[0], w, 1e-13)) R.fail("value of function from JSON is wrong"); }
            if (na % 2) it->f.optimize(); b.add(std::move(it)); } catch (vf::CppadError& e) { AD1::abort_recording(); R.fail(e.what()); } }
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler); the_atom(); the_mix();
    bool th = R.thorough(); char d[] = "/tmp/vf_csrc_XXXXXX"; if (!mkdtemp(d)) return 3; g_dir = d;
    int rc = vf::guarded_main(R, [&] {
        Opt o; o.y = Y_ALL;
        for (std::string t : {"double", "long_double", "float"}) {
            Batch b(R, t, 250); Csrc c(R, b); std::string s = t == "double" ? "" : "." + t;
            depth1(R, o, c, ("d1" + s).c_str()); b.flush(); if (t == "float") continue;
            if (t == "double" || th) { if (th) depth2(R, o, c, ("d2" + s).c_str()); else shared(R, "c2", {SIN, NEG, SIGN, DIS, ADD, SUB, DIV, POW, ZMUL, ATA, ATB}, {0, 2, 6}, 2, c, 2); if (th) depth3(R, o, c, ("d3" + s).c_str()); for (int n = 1; n <= (th ? 4 : 3); n++) sums(R, vf::fmt("sums%d%s", n, s.c_str()).c_str(), n, c); shared(R, ("cse_atom" + s).c_str(), {ATA, ATB, ADD}, {0, 1, 2}, th ? 3 : 2, c, 2); if (s.empty()) { mixed(R, th, c); nests(R, "nest1", 1, th, c); } }
            if (t == "double") compares(R, b);
            b.flush(); R.end_case();
        }
        Batch b1(R, "double", 4); Csrc c1(R, b1); shared(R, "files", {SIN, ADD, ZMUL, SIGN, POW, ATA, DIS}, {0, 2, 6}, 1, c1, 1); b1.flush(); R.end_case();
    });
    rmdir(g_dir.c_str());
    return rc;
}
