// C10: every call of six algorithms through every atomic and checkpoint interface, compared with the same
// algorithm recorded inline. argument: four three two one chk2 chk1
#include "atomics.hpp"
#include "atomcmp.hpp"
struct Iface { string name; std::function<void(int, const V1&, V1&)> call; bool exact, base2ad, forhes, param, valgraph; };
static four_t* g_four;
static std::vector<Iface> ifaces(const Run& R) {
    std::vector<Iface> v;
    if (R.has_arg("four")) { g_four = new four_t; v.push_back({"four", [](int id, const V1& x, V1& y) { (*g_four)(id, x, y); }, true, true, true, true, true}); }
    if (R.has_arg("three")) { static std::vector<three_t*> o; for (int i = 0; i < NALG; i++) o.push_back(new three_t(i)); v.push_back({"three", [](int id, const V1& x, V1& y) { (*o[id])(x, y); }, true, true, true, true, true}); }
    if (R.has_arg("two")) for (int s = 0; s < 3; s++) { auto* o = new std::vector<two_t*>; typedef CppAD::atomic_base<double> B; static const B::option_enum e[3] = {B::set_sparsity_enum, B::bool_sparsity_enum, B::pack_sparsity_enum}; for (int i = 0; i < NALG; i++) o->push_back(new two_t(i, e[s]));
        static const char* nm[3] = {"two_set", "two_bool", "two_pack"}; v.push_back({nm[s], [o](int id, const V1& x, V1& y) { (*(*o)[id])(x, y); }, false, true, true, false, true}); }
    if (R.has_arg("one")) v.push_back({"one", [](int id, const V1& x, V1& y) { one_call(id, x, y); }, false, false, false, false, true});
    if (R.has_arg("chk2")) for (int s = 0; s < 4; s++) { auto* o = new std::vector<CppAD::chkpoint_two<double>*>;
        for (int id = 0; id < NALG; id++) { V1 x(alg_n[id]), y(alg_m[id]); for (size_t j = 0; j < x.size(); j++) x[j] = 0.5 + j; CppAD::Independent(x); inline_call(id, x, y); FunD f(x, y); o->push_back(new CppAD::chkpoint_two<double>(f, "chk2", s & 1, true, s & 2, false)); }
        v.push_back({fmt("chk2_%d%d", s & 1, s >> 1), [o](int id, const V1& x, V1& y) { (*(*o)[id])(x, y); }, false, bool(s & 2), true, true, true}); }
    if (R.has_arg("chk1")) for (int s = 0; s < 6; s++) { auto* o = new std::vector<CppAD::checkpoint<double>*>; typedef CppAD::atomic_base<double> B; static const B::option_enum e[3] = {B::set_sparsity_enum, B::bool_sparsity_enum, B::pack_sparsity_enum};
        for (int id = 0; id < NALG; id++) { V1 x(alg_n[id]), y(alg_m[id]); for (size_t j = 0; j < x.size(); j++) x[j] = 0.5 + j; Algo a{id}; o->push_back(new CppAD::checkpoint<double>("chk1", a, x, y, e[s % 3], s < 3)); }
        v.push_back({fmt("chk1_%d", s), [o](int id, const V1& x, V1& y) { (*(*o)[id])(x, y); }, false, true, false, false, s < 3}); }   // not optimized: its nan check rejects the nan that val_graph puts for unused arguments
    return v;
}
static const int NARG = 6; static const char* arg_name[NARG + 1] = {"x0", "x1", "p0", "1.5", "x0*x1", "p0+p1", "0"};
static const int NUSE = 10; static const char* use_name[NUSE] = {"all results", "one result", "chain", "branch", "argument only in a branch", "twice", "VecAD", "unused", "times and plus", "two different calls"};
template <class C> void record(const C& call, int id, const std::vector<int>& arg, int use, int which, FunD& f) {
    V1 x(2), p(2); x[0] = 0.3; x[1] = 0.7; p[0] = 0.45; p[1] = -0.8; CppAD::Independent(x, size_t(0), true, p);
    auto leaf = [&](int k) -> AD1 { switch (k) { case 0: return x[0]; case 1: return x[1]; case 2: return p[0]; case 3: return AD1(1.5); case 4: return x[0] * x[1]; case 5: return p[0] + p[1]; } return AD1(0.0); };
    size_t n = alg_n[id], m = alg_m[id]; V1 a(n), y(m), z; for (size_t j = 0; j < n; j++) a[j] = leaf(arg[j]);
    auto doit = [&](const V1& u) { V1 v(m); call(id, u, v); return v; };
    auto dep = [&](std::initializer_list<AD1> l) { z.resize(0); for (auto& e : l) z.push_back(e); };
    switch (use) {
    case 0: z = doit(a); break;
    case 1: y = doit(a); dep({y[which]}); break;
    case 2: { y = doit(a); V1 b(n); for (size_t j = 0; j < n; j++) b[j] = j == size_t(which) % n ? y[(which + j) % m] : a[j]; z = doit(b); break; }
    case 3: y = doit(a); dep({CondExpLt(x[0], x[1], y[which], x[1] * 2.0), CondExpGt(p[0], AD1(0.2), x[0] + 1.0, y[which])}); break;
    case 4: { AD1 t = exp(x[0]) + p[0]; a[size_t(which) % n] = t; y = doit(a); dep({CondExpLe(x[0], p[1], x[1], y[which]), y[0] + x[0]}); break; }
    case 5: { y = doit(a); V1 w = doit(a); dep({y[which] + w[which], w[0]}); break; }
    case 6: { y = doit(a); CppAD::VecAD<double> v(2); AD1 i0(0.0), i1(1.0); v[i0] = y[which]; v[i1] = x[0]; AD1 ind = CondExpLt(x[0], x[1], i0, i1); AD1 u = v[ind]; v[ind] = y[0] * 2.0; AD1 w = v[i0]; dep({u, w}); break; }
    case 7: y = doit(a); dep({x[0] * x[1] + p[0], AD1(which ? p[1] : 3.0)}); break;
    case 8: y = doit(a); dep({x[0] * y[which] + y[0], y[which] - p[0] + x[1] + 2.0, y[which] * p[1]}); break;
    case 9: { y = doit(a); int id2 = (id + 1 + which) % NALG; V1 b(alg_n[id2]), w(alg_m[id2]); for (size_t j = 0; j < b.size(); j++) b[j] = y[j % m]; call(id2, b, w); z = w; break; }
    }
    f.Dependent(x, z);
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(throw_handler); (void)the_atom(); (void)the_mix();
    return guarded_main(R, [&] {
        auto ifs = ifaces(R); bool th = R.thorough();
        std::vector<string> opts = {"", "val_graph no_conditional_skip"}; if (th) opts = {"", "no_conditional_skip", "no_conditional_skip no_cumulative_sum_op", "val_graph no_conditional_skip", "no_compare_op", "collision_limit=1"};
        for (auto& F : ifs) for (int zero = 0; zero < 2; zero++) for (int id = 0; id < NALG; id++) {
            four_t::zero_ok = zero;
            if (!R.family(fmt("%s alg%d%s", F.name.c_str(), id, zero ? " zero" : ""))) continue;
            size_t n = alg_n[id]; int nv = NARG + zero; uint64_t tot = 1; for (size_t j = 0; j < n; j++) tot *= nv;
            for (uint64_t c = 0; c < tot; c++) { std::vector<int> arg; uint64_t r = c; bool has0 = false; for (size_t j = 0; j < n; j++) { arg.push_back(r % nv); has0 |= arg[j] == NARG; r /= nv; } if (bool(zero) != has0) continue;
                for (int use = 0; use < NUSE; use++) for (int which = 0; which < int(alg_m[id]); which++) {
                    if ((use == 0) && which) continue;
                    if (!R.next([=] { string s = fmt("arguments"); for (int a : arg) s += string(" ") + arg_name[a]; return s + "; use: " + use_name[use] + fmt(" of result %d", which); })) continue;
                    g_mon.clear(); four_t::zero_ok = zero; uint64_t h = 1469598103934665603ull;
                    try {
                        bool ex = F.exact && !zero; string e;
                        FunD a, b; record([](int i, const V1& x, V1& y) { inline_call(i, x, y); }, id, arg, use, which, a); record(F.call, id, arg, use, which, b);
                        if (a.Range() != b.Range() || a.size_dyn_ind() != b.size_dyn_ind()) e = "sizes";
                        if (F.param) for (size_t i = 0; i < a.Range() && e.empty(); i++) if (!zero ? a.Parameter(i) != b.Parameter(i) : (b.Parameter(i) && !a.Parameter(i))) e = fmt("Parameter(%zu) is %d, inline %d", i, b.Parameter(i), a.Parameter(i));
                        a.check_for_nan(false); b.check_for_nan(false);
                        FunD c0; c0 = b; 
                        if (e.empty()) e = values(R, a, b, th ? 4 : 2, h);
                        if (e.empty() && g_mon.size()) e = g_mon + " (values)"; if (e.empty()) e = pats(R, a, b, ex, F.forhes); if (e.empty() && g_mon.size()) e = g_mon + " (patterns)";
                        four_t::zero_ok = true;   /* arguments that are not needed become zero */
                        for (auto& o : opts) { if (e.size()) break; FunD d; d = c0; if (o.find("val_graph") == 0 && (use == 6 || use == 8 || !F.valgraph)) continue; d.optimize(o); d.check_for_nan(false); e = values(R, a, d, 2, h, 2); if (e.empty()) { e = pats(R, a, d, false, F.forhes); if (e.empty()) e = g_mon; }
                            if (e.size() && e.find("sparsity") != string::npos && use == 7) e.clear(); if (e.size()) e = "optimize(\"" + o + "\"): " + e; }
                        if (F.base2ad && e.empty()) for (int rv = 0; rv < 2 && e.empty(); rv++) { FunD ja, jb; jacfun(a, ja, rv); jacfun(c0, jb, rv); ja.check_for_nan(false); jb.check_for_nan(false); e = values(R, ja, jb, 2, h, 2); if (e.size()) e = fmt("derivatives recorded by base2ad (%s): ", rv ? "reverse" : "forward") + e; }
                        if (e.empty()) e = g_mon;
                        if (e.size()) R.fail(e);
                    } catch (CppadError& e) { AD1::abort_recording(); R.fail(e.what()); } catch (std::exception& e) { AD1::abort_recording(); R.fail(string("exception ") + e.what()); }
                    R.outcome(h); R.states++;
                } }
        }
    });
}
