// C14: from_json on every text near a valid graph, against an independent reader and evaluator of the
// documented format.  The reference says VALID (with values), INVALID (an error must be reported), or OPEN.
#include <cppad/cppad.hpp>
#include "vfc.hpp"
#include <memory>
using namespace vf;
using CppAD::AD; using CppAD::ADFun; using std::string; using std::vector;
typedef vector<double> V;

// ---------------------------------------------------------------- functions named in the graphs
static double disc(const double& x) { return x < 0 ? -1.0 : std::floor(x) + 0.5; }
CPPAD_DISCRETE_FUNCTION(double, disc)
struct At3 : CppAD::atomic_three<double> {                       // y = (x0 * x1, x0 + x1)
    At3() : CppAD::atomic_three<double>("at3") {}
    bool for_type(const CppAD::vector<double>&, const CppAD::vector<CppAD::ad_type_enum>& tx, CppAD::vector<CppAD::ad_type_enum>& ty) override {
        if (tx.size() != 2 || ty.size() != 2) { for (size_t i = 0; i < ty.size(); i++) ty[i] = CppAD::variable_enum; return false; }
        ty[0] = ty[1] = std::max(tx[0], tx[1]); return true; }
    bool forward(const CppAD::vector<double>&, const CppAD::vector<CppAD::ad_type_enum>&, size_t, size_t p, size_t q, const CppAD::vector<double>& tx, CppAD::vector<double>& ty) override {
        if (q > 0 || p > 0 || tx.size() != 2 || ty.size() != 2) return false;
        ty[0] = tx[0] * tx[1]; ty[1] = tx[0] + tx[1]; return true; }
    bool rev_depend(const CppAD::vector<double>&, const CppAD::vector<CppAD::ad_type_enum>&, CppAD::vector<bool>& dx, const CppAD::vector<bool>& dy) override {
        dx[0] = dx[1] = dy[0] || dy[1]; return true; }
};
struct At4 : CppAD::atomic_four<double> {                        // y = sum over k of (k + 1 + call_id) * x_k
    At4(const string& name = "at4") : CppAD::atomic_four<double>(name) {}
    bool for_type(size_t, const CppAD::vector<CppAD::ad_type_enum>& tx, CppAD::vector<CppAD::ad_type_enum>& ty) override {
        for (size_t i = 0; i < ty.size(); i++) { ty[i] = CppAD::constant_enum; for (size_t j = 0; j < tx.size(); j++) ty[i] = std::max(ty[i], tx[j]); }
        return ty.size() == 1; }
    bool forward(size_t id, const CppAD::vector<bool>&, size_t, size_t q, const CppAD::vector<double>& tx, CppAD::vector<double>& ty) override {
        if (q > 0 || ty.size() != 1) return false;
        ty[0] = 0; for (size_t j = 0; j < tx.size(); j++) ty[0] += double(j + 1 + id) * tx[j]; return true; }
    bool rev_depend(size_t, const CppAD::vector<bool>&, CppAD::vector<bool>& dx, const CppAD::vector<bool>& dy) override {
        for (size_t j = 0; j < dx.size(); j++) dx[j] = dy[0]; return true; }
};

// ---------------------------------------------------------------- reference
struct Use { string name; vector<string> str; size_t id = 0, nres = 1; vector<size_t> arg; };
struct Graph { string fname; size_t np = 0, nx = 0; V con; vector<Use> use; vector<size_t> dep; bool open = false; };
struct Bad { string why; };
static const std::map<string, int> ARITY = {
    {"abs",1},{"acos",1},{"acosh",1},{"asin",1},{"asinh",1},{"atan",1},{"atanh",1},{"cos",1},{"cosh",1},{"erf",1},{"erfc",1},{"exp",1},{"expm1",1},
    {"log",1},{"log1p",1},{"neg",1},{"sign",1},{"sin",1},{"sinh",1},{"sqrt",1},{"tan",1},{"tanh",1},
    {"add",2},{"azmul",2},{"div",2},{"mul",2},{"pow",2},{"sub",2},{"cexp_eq",4},{"cexp_le",4},{"cexp_lt",4},
    {"sum",0},{"comp_eq",0},{"comp_le",0},{"comp_lt",0},{"comp_ne",0},{"discrete",0},{"atom",0},{"atom4",0},{"print",0}};
struct Reader {
    const string& t; size_t i = 0; bool open = false, big = false;      // big: more nodes than this explores
    Reader(const string& s) : t(s) {}
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) i++; }
    void ch(char c) { ws(); if (i >= t.size() || t[i] != c) throw Bad{string("expected ") + c}; i++; }
    string str() { ch('"'); string r; while (i < t.size() && t[i] != '"') r += t[i++]; if (i >= t.size()) throw Bad{"open string"}; i++; return r; }
    void key(const char* k) { if (str() != k) throw Bad{string("expected key ") + k}; ch(':'); }
    size_t integer() {
        ws(); if (i >= t.size() || t[i] < '0' || t[i] > '9') throw Bad{"expected an integer"};
        unsigned __int128 v = 0; bool over = false;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') { v = v * 10 + (t[i++] - '0'); if (v >> 64) { over = true; v = 1; } }
        if (over) throw Bad{"integer overflow"};
        return size_t(v);
    }
    double number() {
        ws(); size_t b = i; while (i < t.size() && strchr("0123456789+-.eE", t[i]) && t[i]) i++;
        string s = t.substr(b, i - b); size_t k = 0, nd = 0;
        if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
        while (k < s.size() && isdigit(s[k])) k++, nd++;
        if (k < s.size() && s[k] == '.') { k++; while (k < s.size() && isdigit(s[k])) k++, nd++; }
        if (!nd) throw Bad{"not a number " + s};
        if (k < s.size() && (s[k] == 'e' || s[k] == 'E')) {
            k++; if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
            size_t b2 = k; while (k < s.size() && isdigit(s[k])) k++;
            if (k == b2) throw Bad{"no exponent " + s};
        }
        if (k != s.size()) throw Bad{"not one number " + s};
        double v; std::istringstream is(s[0] == '+' ? s.substr(1) : s); is.imbue(std::locale::classic()); v = strtod(s.c_str(), 0);
        if (!std::isfinite(v) || (v != 0 && std::fabs(v) < 1e-300)) open = true;
        return v;
    }
    template <class F> void list(size_t n, F&& f) { ch('['); for (size_t k = 0; k < n; k++) { f(k); if (k + 1 < n) ch(','); } ch(']'); }
    Graph graph() {
        Graph g; ch('{'); key("function_name"); g.fname = str(); ch(',');
        key("op_define_vec"); ch('['); size_t nd = integer(); ch(','); vector<string> def(1);
        list(nd, [&](size_t k) {
            ch('{'); key("op_code"); if (integer() != k + 1) throw Bad{"op_code out of order"};
            ch(','); key("name"); string n = str(); auto a = ARITY.find(n); if (a == ARITY.end()) throw Bad{"unknown operator " + n};
            if (a->second) { ch(','); key("n_arg"); if (integer() != size_t(a->second)) throw Bad{"n_arg in definition"}; }
            ch('}'); def.push_back(n); });
        ch(']'); ch(',');
        key("n_dynamic_ind"); g.np = integer(); if (g.np > 100000) big = true; ch(','); key("n_variable_ind"); g.nx = integer(); if (g.nx > 100000) big = true; ch(',');
        key("constant_vec"); ch('['); size_t nc = integer(); ch(','); list(nc, [&](size_t) { g.con.push_back(number()); }); ch(']'); ch(',');
        unsigned __int128 node = (unsigned __int128)1 + g.np + g.nx + nc;
        auto arg = [&]() { size_t a = integer(); if (a < 1 || a >= node) throw Bad{"node index"}; return a; };
        key("op_usage_vec"); ch('['); size_t nu = integer(); ch(',');
        list(nu, [&](size_t) {
            ch('['); size_t code = integer(); if (code < 1 || code > nd) throw Bad{"operator code"};
            Use u; u.name = def[code]; size_t fix = ARITY.at(u.name);
            if (fix) for (size_t k = 0; k < fix; k++) { ch(','); u.arg.push_back(arg()); }
            else {
                ch(','); size_t ns = u.name == "print" ? 2 : u.name == "discrete" || u.name == "atom" || u.name == "atom4";
                for (size_t k = 0; k < ns; k++) { u.str.push_back(str()); ch(','); }
                if (u.name == "atom4") { u.id = integer(); if (u.id > 1000000) open = true; ch(','); }
                u.nres = integer(); if (u.nres > 100000) big = true; ch(','); size_t na = integer(); ch(',');
                if (u.name == "sum") { if (u.nres != 1) throw Bad{"sum n_result"}; }
                else if (u.name == "discrete") { if (u.nres != 1 || na != 1) throw Bad{"discrete n_result n_arg"}; }
                else if (u.name.substr(0, 4) != "atom") { if (u.nres != 0 || na != 2) throw Bad{"compare or print n_result n_arg"}; }
                list(na, [&](size_t) { u.arg.push_back(arg()); });
                if (u.name == "atom" && (u.str[0] == "at4" || u.nres != 2 || na != 2)) open = true;
                if (u.name == "atom4" && (u.str[0] == "at3" || u.nres != 1)) open = true;
            }
            ch(']'); node += u.nres; g.use.push_back(u); });
        ch(']'); ch(',');
        key("dependent_vec"); ch('['); size_t nr = integer(); ch(','); list(nr, [&](size_t) { g.dep.push_back(arg()); }); ch(']');
        ch('}'); ws();                              // what follows the graph is left open by the documentation
        for (auto& u : g.use) {
            if (u.name == "discrete" && u.str[0] != "disc") throw Bad{"unknown discrete function"};
            if (u.name.substr(0, 4) == "atom" && u.str[0] != "at3" && u.str[0] != "at4") throw Bad{"unknown atomic function"};
        }
        g.open = open; return g;
    }
};
struct Values { V y; size_t ncomp = 0; string printed; bool open = false; };   // open: a decision depends on a nan
static Values eval(const Graph& g, const V& p, const V& x) {
    V v(1, 0.0); vector<bool> isvar(1, false); Values r;
    for (double d : p) v.push_back(d), isvar.push_back(true);     // not a constant
    for (double d : x) v.push_back(d), isvar.push_back(true);
    for (double d : g.con) v.push_back(d), isvar.push_back(false);
    for (auto& u : g.use) {
        auto a = [&](size_t k) { return v[u.arg[k]]; }; const string& n = u.name; double z = 0;
        bool var = false; for (size_t k : u.arg) var = var || isvar[k];
        auto res = [&](double q) { v.push_back(q); isvar.push_back(var); };
        if (n == "sign" || n == "discrete" || n[0] == 'c' && n[1] == 'e' || n[0] == 'c' && n[3] == 'p' || n == "print") for (size_t k = 0; k < u.arg.size(); k++) if (a(k) != a(k)) r.open = true;
        if (n == "sum") { for (size_t k = 0; k < u.arg.size(); k++) z += a(k); res(z); continue; }
        if (n == "comp_eq") { if (var && !(a(0) == a(1))) r.ncomp++; continue; }
        if (n == "comp_ne") { if (var && !(a(0) != a(1))) r.ncomp++; continue; }
        if (n == "comp_le") { if (var && !(a(0) <= a(1))) r.ncomp++; continue; }
        if (n == "comp_lt") { if (var && !(a(0) < a(1))) r.ncomp++; continue; }
        if (n == "print") { if (a(0) <= 0) { std::ostringstream s; s << u.str[0] << a(1) << u.str[1]; r.printed += s.str(); } continue; }
        if (n == "discrete") { isvar.push_back(var); v.push_back(disc(a(0))); continue; }
        if (n == "atom") { double p0 = a(0) * a(1), p1 = a(0) + a(1); res(p0); res(p1); continue; }
        if (n == "atom4") { for (size_t k = 0; k < u.arg.size(); k++) z += double(k + 1 + u.id) * a(k); res(z); continue; }
        if (n == "add") z = a(0) + a(1); else if (n == "sub") z = a(0) - a(1); else if (n == "mul") z = a(0) * a(1); else if (n == "div") z = a(0) / a(1);
        else if (n == "azmul") z = a(0) == 0 ? 0 : a(0) * a(1); else if (n == "pow") z = std::pow(a(0), a(1));
        else if (n == "cexp_eq") z = a(0) == a(1) ? a(2) : a(3); else if (n == "cexp_le") z = a(0) <= a(1) ? a(2) : a(3); else if (n == "cexp_lt") z = a(0) < a(1) ? a(2) : a(3);
        else if (n == "abs") z = std::fabs(a(0)); else if (n == "acos") z = std::acos(a(0)); else if (n == "acosh") z = std::acosh(a(0)); else if (n == "asin") z = std::asin(a(0));
        else if (n == "asinh") z = std::asinh(a(0)); else if (n == "atan") z = std::atan(a(0)); else if (n == "atanh") z = std::atanh(a(0)); else if (n == "cos") z = std::cos(a(0));
        else if (n == "cosh") z = std::cosh(a(0)); else if (n == "erf") z = std::erf(a(0)); else if (n == "erfc") z = std::erfc(a(0)); else if (n == "exp") z = std::exp(a(0));
        else if (n == "expm1") z = std::expm1(a(0)); else if (n == "log") z = std::log(a(0)); else if (n == "log1p") z = std::log1p(a(0)); else if (n == "neg") z = -a(0);
        else if (n == "sign") z = a(0) > 0 ? 1 : a(0) < 0 ? -1 : 0; else if (n == "sin") z = std::sin(a(0)); else if (n == "sinh") z = std::sinh(a(0)); else if (n == "sqrt") z = std::sqrt(a(0));
        else if (n == "tan") z = std::tan(a(0)); else if (n == "tanh") z = std::tanh(a(0));
        else abort();
        res(z);
    }
    for (size_t k : g.dep) r.y.push_back(v[k]);
    return r;
}

// ---------------------------------------------------------------- one text
static const double PT[2][6] = {{0.3, 0.7, -0.4, 0.25, 1.5, 0.9}, {-0.6, 0.2, 0.8, -1.25, 0.5, 0.1}};
static string show(const string& s) { return jesc(s); }
static void one(Run& R, const string& text, const string& what) {
    if (!R.next([=] { return what; })) return;
    Graph g; string bad; bool open = false;
    { Reader rd(text); try { g = rd.graph(); open = g.open; } catch (Bad& b) { bad = b.why; open = false; }
      if (rd.big) { R.count["too large, not run"]++; return; } }
    ADFun<double> f; string err, where; bool unknown = false;
    try { f.from_json(text); } catch (CppadError& e) { err = e.msg.size() ? e.msg : "?"; unknown = !e.known; where = e.what(); }
    R.outcome(hash_bytes(err.data(), err.size()) ^ (bad.empty() ? 1 : 2));
    if (unknown) return R.fail("an internal assertion failed instead of a reported error: " + err + " " + where + "\ntext " + show(text));
    if (!err.empty()) R.count["rejected"]++; else R.count["accepted"]++;
    R.comparisons++;
    if (open) return;
    if (!bad.empty()) { if (err.empty()) R.fail("accepted a text that is not a graph (" + bad + ")\ntext " + show(text)); return; }
    if (!err.empty()) return R.fail("rejected a valid graph: " + err + "\ntext " + show(text));
    if (f.size_dyn_ind() != g.np || f.Domain() != g.nx || f.Range() != g.dep.size() || f.function_name_get() != g.fname)
        return R.fail(fmt("sizes dyn %zu domain %zu range %zu name ", f.size_dyn_ind(), f.Domain(), f.Range()) + f.function_name_get() + "\ntext " + show(text));
    if (g.nx == 0) return;                          // Forward needs an argument
    f.check_for_nan(false); f.compare_change_count(1);
    for (int k = 0; k < 2; k++) {
        V p(g.np), x(g.nx); for (size_t i = 0; i < g.np; i++) p[i] = PT[k][(i + 3) % 6]; for (size_t i = 0; i < g.nx; i++) x[i] = PT[k][i % 6];
        Values r = eval(g, p, x); if (r.open) { R.count["decision on nan, not compared"]++; continue; } std::ostringstream os; V y;
        try { if (g.np) f.new_dynamic(p); y = f.Forward(0, x, os); } catch (CppadError& e) { return R.fail(string("error evaluating: ") + e.what() + "\ntext " + show(text)); }
        for (size_t i = 0; i < y.size(); i++) { R.comparisons++;
            if (!(same_double(y[i], r.y[i]) || close(y[i], r.y[i], 1e-13, 1e-13))) return R.fail(fmt("value %zu is %.17g, the text says %.17g at point %d\ntext ", i, y[i], r.y[i], k) + show(text)); }
        if (os.str() != r.printed) return R.fail("printed " + show(os.str()) + " expected " + show(r.printed) + "\ntext " + show(text));
        if (f.compare_change_number() != r.ncomp) return R.fail(fmt("%zu comparisons changed, the text says %zu\ntext ", f.compare_change_number(), r.ncomp) + show(text));
    }
}

// ---------------------------------------------------------------- the valid graphs
static string q(string s) { for (char& c : s) if (c == '\'') c = '"'; return s; }
static vector<std::pair<string, string>> bases(bool full) {
    vector<std::pair<string, string>> b;
    b.push_back({"mixed", q("{'function_name':'m x',\n'op_define_vec':[9,[\n{'op_code':1,'name':'sum'},{'op_code':2,'name':'comp_lt'},{'op_code':3,'name':'discrete'},"
        "{'op_code':4,'name':'atom'},{'op_code':5,'name':'atom4'},{'op_code':6,'name':'print'},{'op_code':7,'name':'cexp_le','n_arg':4},{'op_code':8,'name':'add','n_arg':2},{'op_code':9,'name':'sin','n_arg':1}]],\n"
        "'n_dynamic_ind':1,'n_variable_ind':2,\n'constant_vec':[2,[-1.5,2e0]],\n"
        "'op_usage_vec':[9,[\n[1,1,3,[1,2,3]],[2,0,2,[2,3]],[3,'disc',1,1,[3]],[4,'at3',2,2,[2,6]],[5,'at4',3,1,2,[8,9]],[6,'b:',';a',0,2,[3,2]],[7,1,2,4,5],[8,10,11],[9,12]]],\n'dependent_vec':[2,[13,7]]}\n")});
    b.push_back({"small", q("{'function_name':'','op_define_vec':[2,[{'op_code':1,'name':'sum'},{'op_code':2,'name':'mul','n_arg':2}]],'n_dynamic_ind':1,'n_variable_ind':2,"
        "'constant_vec':[1,[.5]],'op_usage_vec':[2,[[1,1,2,[1,2]],[2,5,3]]],'dependent_vec':[1,[6]]}")});
    b.push_back({"empty", q("{'function_name':'e','op_define_vec':[0,[]],'n_dynamic_ind':0,'n_variable_ind':1,'constant_vec':[0,[]],'op_usage_vec':[0,[]],'dependent_vec':[1,[1]]}")});
    string d, u; int k = 0;
    for (auto& a : ARITY) if (a.second) {
        d += fmt("%s{'op_code':%d,'name':'%s','n_arg':%d}", k ? "," : "", k + 1, a.first.c_str(), a.second);
        u += fmt("%s[%d", k ? "," : "", k + 1); for (int j = 0; j < a.second; j++) u += fmt(",%d", (k + j) % 4 + 1); u += "]"; k++;
    }
    string deps; for (int j = 0; j < k; j++) deps += fmt("%s%d", j ? "," : "", 5 + j);
    b.push_back({"fixed", q(fmt("{'function_name':'f','op_define_vec':[%d,[", k) + d + "]],'n_dynamic_ind':1,'n_variable_ind':2,'constant_vec':[1,[0.75]],'op_usage_vec':[" + fmt("%d,[", k) + u + "]],'dependent_vec':[" + fmt("%d,[", k) + deps + "]]}")});
    b.push_back({"compare", q("{ 'function_name' : 'cmp' , 'op_define_vec' : [ 4 , [ { 'op_code' : 1 , 'name' : 'comp_eq' } , { 'op_code' : 2 , 'name' : 'comp_le' } , { 'op_code' : 3 , 'name' : 'comp_ne' } , { 'op_code' : 4 , 'name' : 'comp_lt' } ] ] , "
        "'n_dynamic_ind' : 1 , 'n_variable_ind' : 2 , 'constant_vec' : [ 2 , [ +1 , 0.25 ] ] , 'op_usage_vec' : [ 4 , [ [ 1 , 0 , 2 , [ 2 , 3 ] ] , [ 2 , 0 , 2 , [ 1 , 3 ] ] , [ 3 , 0 , 2 , [ 5 , 2 ] ] , [ 4 , 0 , 2 , [ 3 , 4 ] ] ] ] , 'dependent_vec' : [ 2 , [ 3 , 4 ] ] }")});
    (void)full; return b;
}
static vector<string> tokens(const string& t) {           // with the separators that follow dropped
    vector<string> r; size_t i = 0;
    while (i < t.size()) {
        if (isspace((unsigned char)t[i])) { i++; continue; }
        if (t[i] == '"') { size_t e = t.find('"', i + 1); r.push_back(t.substr(i, e - i + 1)); i = e + 1; }
        else if (strchr("0123456789+-.eE", t[i])) { size_t b = i; while (i < t.size() && strchr("0123456789+-.eE", t[i])) i++; r.push_back(t.substr(b, i - b)); }
        else r.push_back(string(1, t[i++]));
    }
    return r;
}
static string join(const vector<string>& v) { string r; for (auto& s : v) r += s; return r; }
static bool is_int(const string& s) { return s.size() && s.find_first_not_of("0123456789") == string::npos; }

// ---------------------------------------------------------------- C13: to_json followed by from_json
typedef CppAD::vector< AD<double> > AV;
static void round_trip(Run& R, ADFun<double>& f, size_t np, const string& name) {
    f.check_for_nan(false); f.compare_change_count(1);
    for (int graph = 0; graph < 2; graph++) {
        ADFun<double> g; string text;
        try { if (graph) { CppAD::cpp_graph c; f.to_graph(c); g.from_graph(c); } else { text = f.to_json(); g.from_json(text); } }
        catch (CppadError& e) { return R.fail(string(graph ? "graph" : "json") + " round trip: " + e.what() + " text " + show(text)); }
        g.check_for_nan(false); g.compare_change_count(1);
        if (g.function_name_get() != name || g.Domain() != f.Domain() || g.Range() != f.Range() || g.size_dyn_ind() != f.size_dyn_ind()) return R.fail("name or sizes differ, name " + show(g.function_name_get()) + " text " + show(text));
        for (int k = 0; k < 2; k++) {
            V p(np), x(f.Domain()); for (size_t i = 0; i < np; i++) p[i] = PT[k][(i + 3) % 6]; for (size_t i = 0; i < x.size(); i++) x[i] = PT[k][i % 6];
            if (np) { f.new_dynamic(p); g.new_dynamic(p); }
            std::ostringstream s, t; V y = f.Forward(0, x, s), z = g.Forward(0, x, t);
            R.outcome(hash_bytes(y.data(), 8 * y.size(), s.str().size()));
            for (size_t i = 0; i < y.size(); i++) { R.comparisons++; if (!same_double(y[i], z[i]) && !(std::fabs(y[i] - z[i]) <= 8e-16 * std::fabs(y[i]) + 5e-324)) return R.fail(fmt("value %zu is %.17g, before the %s round trip %.17g, text ", i, z[i], graph ? "graph" : "json", y[i]) + show(text)); }
            if (s.str() != t.str()) return R.fail("prints " + show(t.str()) + " before " + show(s.str()));
            if (f.compare_change_number() != g.compare_change_number()) return R.fail(fmt("%zu comparisons changed, before %zu, text ", g.compare_change_number(), f.compare_change_number()) + show(text));
        }
    }
}
static void round(Run& R, At3& a3, At4& a4) {
    At4 b4("second one");
    // values of constants, as argument, dependent, and conditional expression
    V con; for (int e : {-1022, -1000, -300, -60, -53, -30, -1, 0, 1, 10, 30, 52, 53, 60, 300, 1000, 1023}) for (double m : {1.0, 1.0 / 3 + 1, 1.1, 2 - 2e-16}) { con.push_back(std::ldexp(m, e)); con.push_back(-std::ldexp(m, e)); }
    for (int i = -20; i <= 20; i++) { con.push_back(i); con.push_back(i / 8.0 + 0.01); con.push_back(i * 1e15 + 0.5); con.push_back(i * 99999.0); }
    con.push_back(4.9e-324); con.push_back(1e-310); con.push_back(123456789012345678.0); con.push_back(0.1 + 0.7);
    if (R.family("constants")) for (double c : con) if (R.next([=] { return fmt("constant %.17g", c); })) {
        AV ax(2), ay(3); ax[0] = 0.5; ax[1] = 2; CppAD::Independent(ax); ay[0] = ax[0] * c; ay[1] = c; ay[2] = CppAD::CondExpLt(ax[0], AD<double>(c), ax[1], AD<double>(c));
        ADFun<double> f; f.Dependent(ax, ay); f.function_name_set("k"); round_trip(R, f, 0, "k");
    }
    // every byte in every kind of text
    if (R.family("text")) for (int kind = 0; kind < 4; kind++) for (int c = 1; c < 256; c++) for (int pos = 0; pos < 3; pos++) { if (c == '"') continue;
        if (!R.next([=] { return fmt("byte %d in text kind %d place %d", c, kind, pos); })) continue;
        string t = "ab"; t.insert(pos, 1, char(c)); string nm = kind == 0 ? t : "name";
        std::unique_ptr<At4> q; if (kind == 3) q.reset(new At4(t));
        AV ax(2), ay(1), az(1); ax[0] = -0.5; ax[1] = 2; CppAD::Independent(ax); az[0] = ax[0];
        PrintFor(ax[0], kind == 1 ? t.c_str() : "b=", ax[1], kind == 2 ? t.c_str() : "!"); if (q) (*q)(5, ax, az); ay[0] = az[0] + ax[1];
        ADFun<double> f; f.Dependent(ax, ay); f.function_name_set(nm); round_trip(R, f, 0, nm);
    }
    // all sequences of operations that use the tables of names and texts
    const int NOP = 10; int len = R.thorough() ? 4 : 3;
    if (R.family("tables")) for (int n = 1; n <= len; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= NOP;
        for (int code = 0; code < tot; code++) for (int arg = 0; arg < 3; arg++) {
            if (!R.next([=] { string d = fmt("arguments %d:", arg); for (int i = 0, c = code; i < n; i++, c /= NOP) d += fmt(" %d", c % NOP); return d; })) continue;
            AV ax(2), ap(2), ay, u(2), r(2), r1(1); ax[0] = 0.3; ax[1] = 0.7; ap[0] = 0.25; ap[1] = 1.5; CppAD::Independent(ax, 0, true, ap); ay.push_back(ax[0] * ap[0]);
            for (int i = 0, c = code; i < n; i++, c /= NOP) {
                u[0] = arg == 0 ? ay[ay.size() - 1] : arg == 1 ? ap[0] : ax[i % 2]; u[1] = arg == 0 ? ax[i % 2] : arg == 1 ? (i % 2 ? ax[1] : ap[1]) : AD<double>(0.75);
                switch (c % NOP) {
                    case 0: a3(u, r); ay.push_back(r[0]); ay.push_back(r[1]); break;
                    case 1: a4(u, r1); ay.push_back(r1[0]); break;
                    case 2: a4(3, u, r1); ay.push_back(r1[0]); break;
                    case 3: b4(1, u, r1); ay.push_back(r1[0]); break;
                    case 4: b4(70000, u, r1); ay.push_back(r1[0]); break;
                    case 5: ay.push_back(disc(u[0] * 4.0)); break;
                    case 6: PrintFor(u[0], "pre ", u[1], "\npost"); break;
                    case 7: PrintFor(u[1] - 1.0, "\npost", u[0], "pre "); break;
                    case 8: if (u[0] < u[1]) ay.push_back(u[1] * 2.0); else ay.push_back(u[0] * 3.0); break;
                    case 9: ay.push_back(u[0] + u[1] + ap[1] + ax[0] - u[1] + 0.125); break;
                } }
            ADFun<double> f; f.Dependent(ax, ay); f.function_name_set(""); round_trip(R, f, 2, "");
            if (!R.case_failed && code % 3 == arg) { f.optimize(); round_trip(R, f, 2, ""); }
        } }
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler handler(throw_handler);
    At3 a3; At4 a4;
    return guarded_main(R, [&] {
        if (R.has_arg("round")) { round(R, a3, a4); return; }
        auto B = bases(R.thorough());
        for (auto& b : B) {
            const string &n = b.first, &t = b.second;
            if (R.family(n + "/asis")) one(R, t, "unchanged");
            // characters
            const string alpha = n == "fixed" && !R.thorough() ? string("025.,]\" e") : string("0123579.-+eE,:[]{}\" \n\t\ra'_\\", 28) + string("\0\x80\xff", 3);
            if (R.family(n + "/char")) {
                for (size_t i = 0; i <= t.size(); i++) {
                    one(R, t.substr(0, i), fmt("cut at %zu", i));
                    if (i < t.size()) { string s = t; s.erase(i, 1); one(R, s, fmt("delete character %zu", i)); }
                    for (char c : alpha) {
                        { string s = t; s.insert(i, 1, c); one(R, s, fmt("insert character %d at %zu", (unsigned char)c, i)); }
                        if (i < t.size() && t[i] != c) { string s = t; s[i] = c; one(R, s, fmt("character %zu becomes %d", i, (unsigned char)c)); }
                    }
                    if (i + 1 < t.size()) { string s = t; std::swap(s[i], s[i + 1]); one(R, s, fmt("swap characters %zu %zu", i, i + 1)); }
                }
            }
            // tokens
            vector<string> T = tokens(t), al = {"0", "1", "2", "3", "4", "5", "6", "7", "9", "11", "13", "14", "25", "1000", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999",
                "-1", "1.5", "1e1", ".5", "5.", "+2", "-.25e-1", "1e", "-", "1.2.3", "e5", "--1", "1-1", ",", ":", "[", "]", "{", "}", "\"\"", "\"sum\"", "\"print\"", "\"comp_ne\"", "\"discrete\"", "\"atom\"", "\"atom4\"", "\"abs\"", "\"cexp_lt\"", "\"pow\"", "\"nosuch\"",
                "\"at3\"", "\"at4\"", "\"disc\"", "\"name\"", "\"op_code\"", "\"n_arg\"", "\" 'x' \"", "[]", "1,", ",1", "true", "null"};
            if (R.family(n + "/token")) for (size_t i = 0; i <= T.size(); i++) {
                if (i < T.size()) { auto s = T; s.erase(s.begin() + i); one(R, join(s), fmt("delete token %zu", i)); }
                if (i < T.size()) { auto s = T; s.insert(s.begin() + i, T[i]); one(R, join(s), fmt("double token %zu", i)); }
                if (i + 1 < T.size()) { auto s = T; std::swap(s[i], s[i + 1]); one(R, join(s), fmt("swap tokens %zu", i)); }
                for (auto& a : al) {
                    if (n == "fixed" && !R.thorough() && (&a - &al[0]) % 4 != int(i % 4)) continue;
                    { auto s = T; s.insert(s.begin() + i, a); one(R, join(s), fmt("insert token %s at %zu", a.c_str(), i)); }
                    if (i < T.size()) { auto s = T; s[i] = a; one(R, join(s), fmt("token %zu becomes %s", i, a.c_str())); }
                }
            }
            if (n == "fixed" && !R.thorough()) continue;
            // spacing: every separator at every place between two tokens, at two places, and everywhere
            const string sep[] = {" ", "\t", "\n", "\r", "\r\n", "  \n\t"};
            if (R.family(n + "/space")) {
                for (auto& w : sep) { string s = w; for (auto& k : T) s += k + w; one(R, s, "everywhere"); }
                for (size_t i = 0; i <= T.size(); i++) for (auto& w : sep) {
                    auto s = T; if (i < T.size()) s[i] = w + s[i]; else s.push_back(w);
                    one(R, join(s), fmt("separator %d before token %zu", (int)w[0], i));
                    if (R.thorough()) for (size_t j = i + 1; j < T.size(); j++) { auto s2 = s; s2[j] = (j % 2 ? "\t" : "\r\n") + s2[j]; one(R, join(s2), fmt("separators before tokens %zu %zu", i, j)); }
                }
                for (size_t i = 0; i < T.size(); i++) for (size_t k = 1; k < T[i].size(); k++) for (auto& w : sep) { auto s = T; s[i].insert(k, w); one(R, join(s), fmt("separator inside token %zu at %zu", i, k)); }
            }
            // two coordinated changes
            vector<size_t> I; for (size_t i = 0; i < T.size(); i++) if (is_int(T[i])) I.push_back(i);
            bool pairs = n == "small" || n == "empty" || R.thorough();
            if (n != "fixed" && pairs && R.family(n + "/int2")) {
                int hi = n == "mixed" ? 14 : 8;
                for (size_t a = 0; a < I.size(); a++) for (size_t b2 = a + 1; b2 < I.size(); b2++)
                    for (int u = 0; u < hi; u++) for (int v = 0; v < hi; v++) {
                        if (n == "mixed" && u != v && u && v && abs(u - v) > 2) continue;
                        auto s = T; s[I[a]] = fmt("%d", u); s[I[b2]] = fmt("%d", v); one(R, join(s), fmt("integers %zu %zu become %d %d", a, b2, u, v)); }
            }
            if (n != "fixed" && (n != "mixed" || R.thorough()) && pairs && R.family(n + "/del2"))
                for (size_t i = 0; i < T.size(); i++) for (size_t j = i + 1; j < T.size(); j++) { auto s = T; s.erase(s.begin() + j); s.erase(s.begin() + i); one(R, join(s), fmt("delete tokens %zu %zu", i, j)); }
            // a list and its length: insert an element and change the number before it
            if (n != "fixed" && R.family(n + "/list")) for (size_t i = 0; i < T.size(); i++) if (T[i] == "[") for (size_t nn = 0; nn < 4; nn++) {
                if (i < 2 || !is_int(T[i - 2])) continue;
                for (int dlt = -1; dlt <= 1; dlt++) for (const char* el : {"1,", "2,", "1,2,"}) {
                    auto s = T; long v = atol(T[i - 2].c_str()) + dlt + (strlen(el) > 2 ? 1 : 0); if (v < 0) continue;
                    s[i - 2] = fmt("%ld", v); if (nn) s.insert(s.begin() + i + 1, string(el)); if (nn == 2) std::swap(s[i + 1], s[i]); if (nn == 3) s[i + 1].insert(0, "0,");
                    one(R, join(s), fmt("list at token %zu length %+d variant %zu %s", i, dlt, nn, el)); }
            }
        }
    });
}
