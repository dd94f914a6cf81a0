#pragma once
// The families of programs that most explorers run over.
#ifndef FAMILIES_HPP
#define FAMILIES_HPP
#include "prog.hpp"
namespace prog {
// leaves: x0 x1 p0 p1 then constants 0 1 2 -1.5
struct Leaves { int n, m; std::vector<double> c; int x(int i) const { return i; } int p(int i) const { return n + i; } int k(int i) const { return n + m + i; } };
inline Prog base(int n = 2, int m = 2, std::vector<double> c = {0.0, 1.0, 2.0, -1.5}) { Prog g; g.n = n; g.m = m; g.c = c; return g; }
enum YMode { Y_ALL, Y_LAST };
inline void set_y(Prog& g, YMode m) {
    g.y.clear();
    int last = g.nnode() - 1;
    if (m == Y_ALL) { for (int i = g.nleaf(); i < g.nnode(); i++) g.y.push_back(i); g.y.push_back(1); g.y.push_back(g.n); g.y.push_back(g.n + g.m + 1); }
    else g.y.push_back(last);
}
struct Opt { bool cexp = true, vec = false, atom = true, dis = true, big = false; YMode y = Y_ALL; bool pow_var = true; };

template <class F> void depth1(vf::Run& R, const Opt& o, F&& body, const char* name = "d1") {
    if (!R.family(name)) return;
    Prog g = base();
    std::vector<int> leaves = {0, 1, 2, 3, 4, 5, 6, 7};
    std::vector<Op> un = all_unary(), bin = all_binary(); if (o.atom) append(bin, {ATA, ATB});
    std::vector<Ins> list = instances(un, leaves, {});
    append(list, instances(bin, leaves, {}));
    if (o.cexp) append(list, instances(all_cexp(), {0, 1, 2, 5, 6}, {}));
    for (auto& i : list) { g.ins = {i}; set_y(g, o.y); if (R.next([g] { return g.str(); })) body(g); }
}
// second instruction always uses the first result
inline std::vector<Ins> first_ops(const Opt& o, bool reduced) {
    std::vector<Ins> f1;
    std::vector<Op> un = reduced ? std::vector<Op>{EXP, SQRT, TANH, NEG, ABS, DIS, SIN} : all_unary();
    append(f1, instances(un, {0}, {})); append(f1, instances(reduced ? std::vector<Op>{EXP, NEG} : un, {2}, {}));
    std::vector<Op> bin = core_binary(); if (!reduced) bin = all_binary(); if (o.atom) append(bin, {ATA, ATB});
    std::vector<std::pair<int,int>> prs = reduced ? std::vector<std::pair<int,int>>{{0, 1}, {0, 2}, {2, 0}, {6, 0}}
                                        : std::vector<std::pair<int,int>>{{0, 1}, {0, 0}, {0, 2}, {2, 0}, {0, 6}, {6, 0}, {2, 3}, {0, 4}};
    for (auto b : bin) for (auto& q : prs) { Ins i; i.op = b; i.a[0] = q.first; i.a[1] = q.second; i.a[2] = i.a[3] = 0; f1.push_back(i); }
    if (o.cexp) for (auto c : reduced ? std::vector<Op>{CLT} : all_cexp()) {
        std::vector<std::array<int,4>> q = {{0, 1, 0, 1}, {0, 6, 1, 2}, {2, 3, 0, 1}, {0, 2, 5, 6}};
        for (auto& t : q) { Ins i; i.op = c; for (int j = 0; j < 4; j++) i.a[j] = t[j]; f1.push_back(i); }
    }
    return f1;
}
inline std::vector<Ins> next_ops(const Opt& o, int prev, const std::vector<int>& extra, int level) {
    // level 0: full unary and binary alphabets; 1: core binary; 2: few
    std::vector<Ins> r;
    append(r, instances(level == 0 ? all_unary() : level == 1 ? std::vector<Op>{ABS, EXP, LOG, SQRT, SIN, TAN, ATAN, ERF, NEG, SIGN, DIS} : std::vector<Op>{EXP, NEG, SQRT}, {prev}, {}));
    std::vector<Op> bin = level == 0 ? all_binary() : level == 1 ? core_binary() : std::vector<Op>{ADD, SUB, MUL, DIV, ZMUL};
    if (o.atom) append(bin, {ATA, ATB});
    append(r, instances(bin, {prev}, extra));
    if (o.cexp) {
        int e0 = extra.size() ? extra[0] : 0, e1 = extra.size() > 1 ? extra[1] : e0;
        for (auto c : level == 0 ? all_cexp() : std::vector<Op>{CLT, CEQ}) {
            std::vector<std::array<int,4>> q = {{prev, e0, prev, e1}, {e0, prev, e1, e0}, {e0, e1, prev, e0}, {e1, e0, e0, prev}, {prev, prev, e0, e1}};
            if (level == 2) q.resize(3);
            for (auto& t : q) { Ins i; i.op = c; for (int j = 0; j < 4; j++) i.a[j] = t[j]; r.push_back(i); }
        }
    }
    return r;
}
template <class F> void depth2(vf::Run& R, const Opt& o, F&& body, const char* name = "d2") {
    if (!R.family(name)) return;
    Prog g = base(); int r0 = g.nleaf();
    for (auto& i1 : first_ops(o, false)) for (auto& i2 : next_ops(o, r0, R.thorough() ? std::vector<int>{0, 1, 2, 3, 4, 6, 7} : std::vector<int>{0, 2, 6}, R.thorough() ? 0 : 0)) {
        g.ins = {i1, i2}; set_y(g, o.y); if (R.next([g] { return g.str(); })) body(g);
    }
}
template <class F> void depth3(vf::Run& R, const Opt& o, F&& body, const char* name = "d3") {
    if (!R.family(name)) return;
    Prog g = base(); int r0 = g.nleaf(); bool th = R.thorough();
    auto l1 = first_ops(o, !th);
    auto l2 = next_ops(o, r0, {0, 2}, th ? 1 : 2), l3a = next_ops(o, r0 + 1, {r0, 0, 6}, th ? 1 : 2);
    for (auto& i1 : l1) for (auto& i2 : l2) for (auto& i3 : l3a) {
        g.ins = {i1, i2, i3}; set_y(g, o.y); if (R.next([g] { return g.str(); })) body(g);
    }
}
// four operations in a chain (the last two may also use earlier results)
template <class F> void depth4(vf::Run& R, const Opt& o, F&& body, const char* name = "d4") {
    if (!R.deep() || !R.family(name)) return;
    Prog g = base(); int r0 = g.nleaf();
    for (auto& i1 : first_ops(o, true)) for (auto& i2 : next_ops(o, r0, {0, 2}, 2)) for (auto& i3 : next_ops(o, r0 + 1, {r0, 6}, 2)) for (auto& i4 : next_ops(o, r0 + 2, {r0}, 2)) {
        g.ins = {i1, i2, i3, i4}; set_y(g, o.y); if (R.next([g] { return g.str(); })) body(g);
    }
}
// vector load/store sequences: every sequence of length len over loads and stores with indices
// {x0 (rounded), p0, constants}, values {x1, constant, previous result}
template <class F> void vecad(vf::Run& R, const Opt& o, int len, F&& body, const char* name) {
    if (!R.family(name)) return;
    // constants 0 1 2 -1.5 : indices are x0, p0 (values chosen by the points), 0, 1, 2
    Prog g = base(); int L = g.nleaf();
    std::vector<int> idxn = {0, 2, 4, 5, 6};
    std::vector<Ins> seq(len);
    std::function<void(int)> rec = [&](int d) {
        if (d == len) { g.ins = seq; set_y(g, o.y); if (R.next([g] { return g.str(); })) body(g); return; }
        std::vector<int> vals = {1, 3, 7}; if (d) vals.push_back(L + d - 1);
        bool last = d + 1 == len;
        for (int ix : idxn) {
            if (!(len > 3 && ix == 6)) {
            seq[d] = Ins{VLD, {(int8_t)ix, 0, 0, 0}}; rec(d + 1);
            if (!last) for (int v : vals) { seq[d] = Ins{VST, {(int8_t)ix, (int8_t)v, 0, 0}}; rec(d + 1); }
            }
        }
    };
    rec(0);
}
} // namespace prog
#endif
namespace prog {
// every program of exactly len instructions over a small operator list where each operand may be any leaf in `leaf` or
// any earlier result (so repeated and shared sub expressions of every shape occur); only the last k results are dependents
template <class F> void shared(vf::Run& R, const char* name, const std::vector<Op>& list, const std::vector<int>& leaf, int len, F&& body, int ny = 1, bool use_prev = true) {
    if (!R.family(name)) return;
    Prog g = base(); int L = g.nleaf();
    std::vector<Ins> seq(len);
    std::function<void(int)> rec = [&](int d) {
        if (d == len) {
            g.ins = seq; g.y.clear(); for (int k = 0; k < ny; k++) g.y.push_back(L + len - 1 - k);
            if (R.next([g] { return g.str(); })) body(g);
            return;
        }
        std::vector<int> prev, all = leaf; for (int k = 0; k < d; k++) { prev.push_back(L + k); all.push_back(L + k); }
        // the last instruction must use the one before it, so that nothing is trivially dead at the end
        std::vector<Ins> li = d + 1 == len && d > 0 && use_prev ? instances(list, {L + d - 1}, [&] { auto e = leaf; for (int k = 0; k + 1 < d; k++) e.push_back(L + k); return e; }()) : instances(list, all, {});
        for (auto& i : li) { seq[d] = i; rec(d + 1); }
    };
    rec(0);
}
// sums: every sequence of len terms, each one of {+,-} x {x0, x1, r0, p0, constant, reversed (t - s)}, after r0 = a product
template <class F> void sums(vf::Run& R, const char* name, int len, F&& body) {
    if (!R.family(name)) return;
    Prog g = base(); int L = g.nleaf();
    std::vector<Ins> pre = {Ins{MUL, {0, 1, 0, 0}}, Ins{MUL, {2, 3, 0, 0}}};     // r0 variable, r1 dynamic
    struct Term { Op op; int leaf; bool rev; };
    std::vector<Term> t = {{ADD, 0, false}, {SUB, 1, false}, {ADD, L, false}, {SUB, L, true}, {ADD, 2, false}, {SUB, L + 1, false}, {SUB, 3, true}, {ADD, 6, false}, {SUB, 7, true}};
    std::vector<int> d(len, 0);
    for (;;) {
        g.ins = pre; int acc = 0;   // start from x0
        for (int k = 0; k < len; k++) { auto& q = t[d[k]]; Ins i{q.op, {0, 0, 0, 0}}; i.a[0] = q.rev ? q.leaf : acc; i.a[1] = q.rev ? acc : q.leaf; g.ins.push_back(i); acc = g.nnode() - 1; }
        int mid = L + 2 + len / 2 - 1;
        for (int shape = 0; shape < 3; shape++) {   // only the total; the total and a partial sum; a function of the total
            Prog h = g; h.y = {acc};
            if (shape == 1) { if (len < 2) break; h.y.push_back(mid); }
            if (shape == 2) { h.ins.push_back(Ins{SIN, {(int8_t)acc, 0, 0, 0}}); h.ins.push_back(Ins{SUB, {(int8_t)(h.nnode() - 1), (int8_t)acc, 0, 0}}); h.y = {h.nnode() - 1}; }
            if (R.next([h] { return h.str(); })) body(h);
        }
        int j = len - 1; while (j >= 0 && ++d[j] == (int)t.size()) d[j--] = 0;
        if (j < 0) break;
    }
}
// conditional nests. Leaf expressions are computed only for the branch that uses them (unless shared).
template <class F> void nests(vf::Run& R, const char* name, int depth, bool full, F&& body) {
    if (!R.family(name)) return;
    Prog g = base(); int L = g.nleaf();
    // expression kinds for a branch: 0 sin(x0)  1 exp(x1) 2 mul(x0,p0) 3 atomic(x0,x1) 4 shared product 5 sum x0+x1+x0 6 constant 7 dynamic 8 variable x1, 9 chain sqrt(exp(x0))  10 vector load v[p0>..]  100 nested
    struct B { Prog& g; int L; int shared;
        int push(Op o, int a, int b = 0, int c = 0, int d = 0) { g.ins.push_back(Ins{o, {(int8_t)a, (int8_t)b, (int8_t)c, (int8_t)d}}); return g.nnode() - 1; }
        int expr(int k) {
            switch (k) {
                case 0: return push(SIN, 0);
                case 1: return push(EXP, 1);
                case 2: return push(MUL, 0, 2);
                case 3: { int a = push(NEG, 0); return push(ATA, a, 1); }
                case 4: return shared;
                case 5: { int a = push(ADD, 0, 1); return push(ADD, a, 0); }
                case 6: return 6;
                case 7: return push(MUL, 2, 3);
                case 8: return 1;
                case 9: { int a = push(EXP, 0); return push(SQRT, a); }
                case 10: { int a = push(MUL, shared, 1); int b = push(SIN, a); return push(SUB, b, shared); }
                case 11: { int a = push(DIS, 0); return push(ADD, a, 1); }
                default: return 0;
            }
        }
    };
    std::vector<std::pair<int,int>> conds = {{0, 1}, {0, 2}, {2, 3}, {0, 4}, {5, 0}, {0, L}, {L, 1}};   // L is the shared product r0
    if (!full) conds = {{0, 1}, {2, 3}, {L, 4}, {0, 2}};
    std::vector<int> ek = full ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11} : std::vector<int>{0, 2, 3, 4, 6, 9};
    std::vector<int> rels = full ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, 2};
    auto emit = [&](Prog& h, int top) { h.y = {top}; if (R.next([h] { return h.str(); })) body(h);
        // also use the conditional result and the shared product in a later operation
        Prog k = h; k.ins.push_back(Ins{MUL, {(int8_t)top, (int8_t)L, 0, 0}}); k.y = {k.nnode() - 1, L}; if (R.next([k] { return k.str(); })) body(k); };
    if (depth == 1) {
        for (int r : rels) for (auto& c : conds) for (int t : ek) for (int f : ek) {
            Prog h = g; B b{h, L, 0}; b.shared = b.push(MUL, 0, 1);
            int tt = b.expr(t), ff = b.expr(f); int top = b.push(Op(CLT + r), c.first, c.second, tt, ff);
            emit(h, top);
        }
        return;
    }
    // depth 2: outer branch (true/false/both, or the compared value) is an inner conditional
    for (int r : rels) for (auto& c : conds) for (int r2 : rels) for (auto& c2 : conds) for (int t : ek) for (int f : ek) for (int where = 0; where < 5; where++) {
        Prog h = g; B b{h, L, 0}; b.shared = b.push(MUL, 0, 1);
        int tt = b.expr(t), ff = b.expr(f);
        int in = b.push(Op(CLT + r2), c2.first, c2.second, tt, ff);
        int o = b.expr(9), top;
        if (where == 0) top = b.push(Op(CLT + r), c.first, c.second, in, o);
        else if (where == 1) top = b.push(Op(CLT + r), c.first, c.second, o, in);
        else if (where == 2) { int in2 = b.push(Op(CLT + r2), c.first, c2.second, ff, o); top = b.push(Op(CLT + r), c.first, c.second, in, in2); }
        else if (where == 3) top = b.push(Op(CLT + r), in, c.second, o, tt);
        else { int s = b.push(SIN, in); top = b.push(Op(CLT + r), c.first, c.second, s, ff); }
        emit(h, top);
    }
}
}
namespace prog {
// calls to an atomic function whose results have different types (constant, first argument only, both)
template <class F> void mixed(vf::Run& R, bool th, F&& body) {
    shared(R, "mix1", {MXA, MXB}, {0, 1, 2, 3, 4, 6}, 1, body, 1);
    shared(R, "mix2", {MXA, MXB, ADD, SIN}, {0, 2, 6}, 2, body, 2);
    if (th) shared(R, "mix3", {MXA, MXB, ADD, MUL}, {0, 2, 6}, 3, body, 2);
}
}
