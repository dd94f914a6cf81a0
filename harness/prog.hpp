// Straight line programs over an alphabet of CppAD operations, an enumerator of all of them up to
// a depth, and one interpreter that runs a program on any scalar type (double, AD types, reference types).
#ifndef PROG_HPP
#define PROG_HPP
#include "vfc.hpp"
#include <array>
#include <memory>

namespace prog {
enum Op : uint8_t {
    // unary
    ABS, ACOS, ACOSH, ASIN, ASINH, ATAN, ATANH, COS, COSH, ERF, ERFC, EXP, EXPM1, FABS, LOG, LOG1P, LOG10,
    NEG, SIGN, SIN, SINH, SQRT, TAN, TANH, UPLUS, POWI_M2, POWI_0, POWI_3, DIS,
    // binary
    ADD, SUB, MUL, DIV, POW, ZMUL, ATAN2, ADDEQ, SUBEQ, MULEQ, DIVEQ,
    // four operands: if( a rel b ) c else d
    CLT, CLE, CEQ, CGE, CGT,
    // vector of three elements: VLD(index)  VST(index, value)
    VLD, VST,
    // atomic function with two arguments and two results (first result is the node value, second is AT1)
    ATA, ATB,
    // atomic function with a constant result, one that depends only on the first argument, and one that depends on both
    MXA, MXB,
    NOPS
};
static const char* op_name[] = {"abs","acos","acosh","asin","asinh","atan","atanh","cos","cosh","erf","erfc","exp","expm1","fabs","log","log1p","log10",
    "neg","sign","sin","sinh","sqrt","tan","tanh","uplus","powi-2","powi0","powi3","dis",
    "add","sub","mul","div","pow","azmul","atan2","+=","-=","*=","/=","clt","cle","ceq","cge","cgt","vld","vst","ata","atb","mxa","mxb"};
inline int arity(Op o) { return o <= DIS ? 1 : o <= DIVEQ ? 2 : o <= CGT ? 4 : o == VLD ? 1 : 2; }

struct Ins { Op op; int8_t a[4]; };
// node numbering: [0,n) independents, [n,n+m) dynamics, then constants, then results
struct Prog {
    int n = 2, m = 1; std::vector<double> c; std::vector<Ins> ins; std::vector<int> y;   // y: node of each dependent
    int nleaf() const { return n + m + (int)c.size(); }
    int nnode() const { return nleaf() + (int)ins.size(); }
    std::string node(int k) const {
        char b[40];
        if (k < n) snprintf(b, 40, "x%d", k);
        else if (k < n + m) snprintf(b, 40, "p%d", k - n);
        else if (k < nleaf()) snprintf(b, 40, "%g", c[k - n - m]);
        else snprintf(b, 40, "r%d", k - nleaf());
        return b;
    }
    std::string str() const {
        std::string s;
        for (size_t i = 0; i < ins.size(); i++) {
            s += vf::fmt("r%zu=%s(", i, op_name[ins[i].op]);
            for (int j = 0; j < arity(ins[i].op); j++) s += (j ? "," : "") + node(ins[i].a[j]);
            s += "); ";
        }
        s += "y=[";
        for (size_t i = 0; i < y.size(); i++) s += (i ? "," : "") + node(y[i]);
        return s + "]";
    }
};
inline double dis_fun(const double& x) { return std::floor(2.0 * x + 0.5); }

// ---------------------------------------------------------------- per scalar hooks
inline double value0(double x) { return x; }
inline double value0(long double x) { return (double)x; }
template <class S> struct Hook {   // generic: plain value types that provide value0(S)
    static S dis(const S& x) { return S(dis_fun(value0(x))); }
    struct Vec { std::vector<S> v; };
    static void vinit(Vec& v) { v.v = {S(0.25), S(-0.5), S(1.75)}; }
    static S vld(Vec& v, const S& i) { return v.v[size_t(value0(i))]; }
    static void vst(Vec& v, const S& i, const S& x) { v.v[size_t(value0(i))] = x; }
    static void atom(const S& a, const S& b, S& r0, S& r1) { using CppAD::sin; r0 = a * b; r1 = a * a * S(0.5) + sin(b); }
    static void mix(const S& a, const S& b, S& r1, S& r2) { using CppAD::sin; r1 = a * a; r2 = sin(a) * b; }
};

template <class S> void mix_inline(const S& a, const S& b, S& r1, S& r2) { using CppAD::sin; r1 = a * a; r2 = sin(a) * b; }
template <class S> void atom_inline(const S& a, const S& b, S& r0, S& r1) { using CppAD::sin; r0 = a * b; r1 = a * a * S(0.5) + sin(b); }

// AD hooks: the user of this header specialises Hook< AD<B> > with PROG_AD_HOOK
#define PROG_AD_HOOK(B, DISFUN, ATOMCALL, MIXCALL)                                                              \
    namespace prog { template <> struct Hook< CppAD::AD<B> > {                                         \
        typedef CppAD::AD<B> S;                                                                        \
        static S dis(const S& x) { return DISFUN(x); }                                                 \
        struct Vec { CppAD::VecAD<B> v; Vec() : v(3) {} };                                             \
        static void vinit(Vec& v) { v.v[size_t(0)] = B(0.25); v.v[size_t(1)] = B(-0.5); v.v[size_t(2)] = B(1.75); } \
        static S vld(Vec& v, const S& i) { return v.v[i]; }                                            \
        static void vst(Vec& v, const S& i, const S& x) { v.v[i] = x; }                                \
        static void atom(const S& a, const S& b, S& r0, S& r1) { ATOMCALL(a, b, r0, r1); }             \
        static void mix(const S& a, const S& b, S& r1, S& r2) { MIXCALL(a, b, r1, r2); }               \
    }; }

// run the program; result is the value of every node
template <class S, class VX, class VP>
std::vector<S> run(const Prog& g, const VX& x, const VP& p) {
    using CppAD::abs; using CppAD::acos; using CppAD::acosh; using CppAD::asin; using CppAD::asinh; using CppAD::atan;
    using CppAD::atanh; using CppAD::cos; using CppAD::cosh; using CppAD::erf; using CppAD::erfc; using CppAD::exp;
    using CppAD::expm1; using CppAD::fabs; using CppAD::log; using CppAD::log1p; using CppAD::log10; using CppAD::sign;
    using CppAD::sin; using CppAD::sinh; using CppAD::sqrt; using CppAD::tan; using CppAD::tanh; using CppAD::pow;
    using CppAD::azmul; using CppAD::atan2; using CppAD::CondExpLt; using CppAD::CondExpLe; using CppAD::CondExpEq;
    using CppAD::CondExpGe; using CppAD::CondExpGt;
    std::vector<S> v; v.reserve(g.nnode() + 1);
    for (int i = 0; i < g.n; i++) v.push_back(x[i]);
    for (int i = 0; i < g.m; i++) v.push_back(p[i]);
    for (double c : g.c) v.push_back(S(c));
    bool has_vec = false;
    for (auto& i : g.ins) has_vec |= i.op == VLD || i.op == VST;
    typename std::conditional<true, typename Hook<S>::Vec, int>::type* vec = nullptr;
    std::unique_ptr<typename Hook<S>::Vec> holder;
    if (has_vec) { holder.reset(new typename Hook<S>::Vec); vec = holder.get(); Hook<S>::vinit(*vec); }
    for (auto& i : g.ins) {
        const S& a = v[i.a[0]];
        const S& b = arity(i.op) > 1 ? v[i.a[1]] : a;
        S r(0.0);
        switch (i.op) {
            case ABS: r = abs(a); break;        case ACOS: r = acos(a); break;     case ACOSH: r = acosh(a); break;
            case ASIN: r = asin(a); break;      case ASINH: r = asinh(a); break;   case ATAN: r = atan(a); break;
            case ATANH: r = atanh(a); break;    case COS: r = cos(a); break;       case COSH: r = cosh(a); break;
            case ERF: r = erf(a); break;        case ERFC: r = erfc(a); break;     case EXP: r = exp(a); break;
            case EXPM1: r = expm1(a); break;    case FABS: r = fabs(a); break;     case LOG: r = log(a); break;
            case LOG1P: r = log1p(a); break;    case LOG10: r = log10(a); break;   case NEG: r = -a; break;
            case SIGN: r = sign(a); break;      case SIN: r = sin(a); break;       case SINH: r = sinh(a); break;
            case SQRT: r = sqrt(a); break;      case TAN: r = tan(a); break;       case TANH: r = tanh(a); break;
            case UPLUS: r = +a; break;          case POWI_M2: r = pow(a, -2); break;
            case POWI_0: r = pow(a, 0); break;  case POWI_3: r = pow(a, 3); break;
            case DIS: r = Hook<S>::dis(a); break;
            case ADD: r = a + b; break;         case SUB: r = a - b; break;        case MUL: r = a * b; break;
            case DIV: r = a / b; break;         case POW: r = pow(a, b); break;    case ZMUL: r = azmul(a, b); break;
            case ATAN2: r = atan2(a, b); break;
            case ADDEQ: r = a; r += b; break;   case SUBEQ: r = a; r -= b; break;
            case MULEQ: r = a; r *= b; break;   case DIVEQ: r = a; r /= b; break;
            case CLT: r = CondExpLt(a, b, v[i.a[2]], v[i.a[3]]); break;
            case CLE: r = CondExpLe(a, b, v[i.a[2]], v[i.a[3]]); break;
            case CEQ: r = CondExpEq(a, b, v[i.a[2]], v[i.a[3]]); break;
            case CGE: r = CondExpGe(a, b, v[i.a[2]], v[i.a[3]]); break;
            case CGT: r = CondExpGt(a, b, v[i.a[2]], v[i.a[3]]); break;
            case VLD: r = Hook<S>::vld(*vec, a); break;
            case VST: Hook<S>::vst(*vec, a, b); r = b; break;
            case ATA: { S r1(0.0); Hook<S>::atom(a, b, r, r1); break; }
            case ATB: { S r0(0.0); Hook<S>::atom(a, b, r0, r); break; }
            case MXA: { S r2(0.0); Hook<S>::mix(a, b, r, r2); break; }
            case MXB: { S r1(0.0); Hook<S>::mix(a, b, r1, r); break; }
            default: break;
        }
        v.push_back(r);
    }
    return v;
}

// ---------------------------------------------------------------- domain
// Nodes whose value the documentation leaves open or excludes at this point: built from a value that is not finite,
// atan2 with first argument zero and second not positive (the sign of the zero decides), a comparison of values that are equal up to
// rounding, and (for derivatives) pow with a zero base, or with a non positive base and an exponent that depends on x.
inline std::vector<char> bad_nodes(const Prog& g, const std::vector<double>& v, bool derivative) {
    std::vector<char> bad(v.size(), 0), var(v.size(), 0), exact(v.size(), 0), ind(v.size(), 0);   // ind: depends on x or p; exact: no rounding, so any correct evaluation has this very value
    auto near_tie = [&](int a, int b) { return a != b && !(exact[a] && exact[b]) && std::fabs(v[a] - v[b]) <= 1e-11 * (1.0 + std::fabs(v[a])); };
    for (int i = 0; i < (int)v.size(); i++) {
        if (!std::isfinite(v[i]) || std::fabs(v[i]) > 1e8) bad[i] = 1;
        if (i < g.n) var[i] = 1;
        if (i < g.n + g.m) ind[i] = 1;
        if (i < g.nleaf()) { exact[i] = 1; continue; }
        const Ins& s = g.ins[i - g.nleaf()];
        for (int j = 0; j < arity(s.op); j++) { bad[i] |= bad[s.a[j]]; var[i] |= var[s.a[j]]; ind[i] |= ind[s.a[j]]; }
        if (s.op == VLD) ind[i] = 1;
        if (s.op == POW && v[s.a[0]] == 0 && v[s.a[1]] <= 0 && ind[s.a[1]]) bad[i] = 1;   // a zero constant to any power that is not constant is zero
        { bool e = true; for (int j = 0; j < arity(s.op); j++) e &= (bool)exact[s.a[j]]; long double a = v[s.a[0]], b = arity(s.op) > 1 ? v[s.a[1]] : 0, r = v[i];
          switch (s.op) { case NEG: case UPLUS: case ABS: case FABS: case SIGN: case DIS: case POWI_0: case CLT: case CLE: case CEQ: case CGE: case CGT: case VST: break;
              case ADD: case ADDEQ: e &= a + b == r; break; case SUB: case SUBEQ: e &= a - b == r; break; case MUL: case MULEQ: case ZMUL: e &= a * b == r; break; case DIV: case DIVEQ: e &= r * b == a; break; default: e = false; }
          exact[i] = e; }
        if (s.op >= CLT && s.op <= CGT && near_tie(s.a[0], s.a[1])) bad[i] = 1;
        if (s.op == SIGN && !exact[s.a[0]] && std::fabs(v[s.a[0]]) < 1e-11) bad[i] = 1;
        if (s.op == DIS && !exact[s.a[0]]) { double t = 2.0 * v[s.a[0]] + 0.5; if (std::fabs(t - std::round(t)) < 1e-10 * (1 + std::fabs(t))) bad[i] = 1; }
        if (s.op == VLD || s.op == VST) for (int k = g.nleaf(); k < i; k++) if (g.ins[k - g.nleaf()].op == VST) { bad[i] |= bad[k]; var[i] |= var[k]; }
        if (s.op == ATAN2 && std::fabs(v[s.a[0]]) < 1e-13 && v[s.a[1]] <= 0) bad[i] = 1;
        if (derivative && s.op == POW && (v[s.a[0]] == 0 || (v[s.a[0]] < 0 && var[s.a[1]]))) bad[i] = 1;
        if (derivative && (s.op == ABS || s.op == FABS) && !exact[s.a[0]] && std::fabs(v[s.a[0]]) < 1e-11) bad[i] = 1;   // a kink, or next to it
        if (derivative && s.op == TAN && std::fabs(v[i]) > 20) bad[i] = 1;   // next to a pole: derivatives lose their digits by cancellation
        if (derivative && s.op == TANH && std::fabs(v[s.a[0]]) > 10) bad[i] = 1;   // 1 - tanh(x)^2 has no correct digits left
        if (derivative && (s.op == VLD || s.op == VST)) var[i] = 1;
    }
    return bad;
}

// Nodes computed from a point where some operation has an infinite derivative (or a kink): higher derivatives built on these are not compared.
inline std::vector<char> singular_nodes(const Prog& g, const std::vector<double>& v, bool all_var = false) {
    std::vector<char> bad = bad_nodes(g, v, true);
    for (int i = g.nleaf(); i < (int)v.size(); i++) {
        const Ins& s = g.ins[i - g.nleaf()]; double a = v[s.a[0]];
        for (int j = 0; j < arity(s.op); j++) bad[i] |= bad[s.a[j]];
        if (s.op == SQRT && a == 0) bad[i] = 1;
        if (all_var && s.op == POW && a <= 0) bad[i] = 1;
        if ((s.op == ASIN || s.op == ACOS || s.op == ACOSH || s.op == ATANH) && std::fabs(a) == 1) bad[i] = 1;
        if (s.op == VLD || s.op == VST) for (int k = g.nleaf(); k < i; k++) if (g.ins[k - g.nleaf()].op == VST) bad[i] |= bad[k];
    }
    return bad;
}
// 0 constant, 1 dynamic parameter, 2 variable: by operands alone (the implementation may do better, never worse)
inline std::vector<char> classify(const Prog& g) {
    std::vector<char> t(g.nnode(), 0); bool vec_var = false;
    for (int i = 0; i < g.nnode(); i++) {
        if (i < g.nleaf()) { t[i] = i < g.n ? 2 : i < g.n + g.m ? 1 : 0; continue; }
        const Ins& s = g.ins[i - g.nleaf()];
        for (int j = 0; j < arity(s.op); j++) t[i] = std::max(t[i], t[s.a[j]]);
        if (s.op == MXA) t[i] = t[s.a[0]];
        if (s.op == VST) { vec_var |= t[i] > 0; t[i] = t[s.a[1]]; }
        if (s.op == VLD && (vec_var || t[i] > 0)) { t[i] = 2; vec_var = true; }   // an index that is not a constant puts the vector on the tape
    }
    return t;
}
// the value graph optimizer and (partly) the AD graph document that they do not implement every operation
inline bool val_graph_ok(const Prog& g) {
    std::vector<char> var(g.nnode(), 0), dp(g.nnode(), 0); bool vec_p = false;   // surely a variable; depends on a dynamic
    for (int i = 0; i < g.nleaf(); i++) { var[i] = i < g.n; dp[i] = i >= g.n && i < g.n + g.m; }
    for (size_t k = 0; k < g.ins.size(); k++) {
        const Ins& s = g.ins[k]; int i = g.nleaf() + k;
        if (s.op == ZMUL) return false;
        for (int j = 0; j < arity(s.op); j++) { var[i] |= var[s.a[j]]; dp[i] |= dp[s.a[j]]; }
        if (s.op == POWI_0 || s.op == MUL || s.op == MULEQ || s.op == DIV || s.op == DIVEQ || s.op == POW || s.op == SIGN || s.op == DIS || s.op == ATAN2 || (s.op >= CLT && s.op <= VST) || s.op == MXA || s.op == MXB) var[i] = 0;
        if ((s.op == MUL || s.op == MULEQ) && s.a[0] < g.n && s.a[1] < g.n) var[i] = 1;
        if (s.op == VST) vec_p |= dp[i];
        if (s.op == VLD || s.op == VST) dp[i] |= vec_p;
        bool ok = s.op == ADD || s.op == SUB || s.op == NEG || s.op == ADDEQ || s.op == SUBEQ || s.op == UPLUS || s.op == ATA || s.op == ATB || s.op == MXA || s.op == MXB || s.op == VST || s.op == VLD;
        if (!ok && dp[i] && !var[i]) {   // the operation could be one between parameters unless some operand is surely a variable
            bool op_var = false; for (int j = 0; j < arity(s.op); j++) op_var |= var[s.a[j]];
            if (!op_var) return false;
            if (s.op == POWI_0 || s.op == POW || s.op == MUL || s.op == MULEQ || s.op == DIV || s.op == DIVEQ || s.op == ATAN2) return false;
        }
    }
    return true;
}
// ---------------------------------------------------------------- enumeration
struct Alphabet {
    std::vector<Op> un, bin, ce;
    std::vector<int> leaf;      // leaves used as extra operands of binary operators
    std::vector<int> cleaf;     // leaves used as operands of conditional expressions
    bool leaf_only_pairs = true;
};
inline std::vector<Op> ops(Op lo, Op hi) { std::vector<Op> r; for (int o = lo; o <= hi; o++) r.push_back(Op(o)); return r; }
inline std::vector<Op> all_unary() { return ops(ABS, DIS); }
inline std::vector<Op> all_binary() { return ops(ADD, DIVEQ); }
inline std::vector<Op> core_binary() { return {ADD, SUB, MUL, DIV, POW, ZMUL}; }
inline std::vector<Op> all_cexp() { return ops(CLT, CGT); }

// every instruction whose operands are taken from must (at least one operand is in must) and extra
inline std::vector<Ins> instances(const std::vector<Op>& list, const std::vector<int>& must, const std::vector<int>& extra) {
    std::vector<int> all = must; all.insert(all.end(), extra.begin(), extra.end());
    std::vector<Ins> r;
    size_t nm = must.size(), na = all.size();
    for (Op o : list) {
        int k = arity(o);
        std::vector<size_t> d(k, 0);
        for (;;) {
            bool ok = false; for (int j = 0; j < k; j++) ok |= d[j] < nm;
            if (ok) { Ins i; i.op = o; for (int j = 0; j < 4; j++) i.a[j] = j < k ? (int8_t)all[d[j]] : 0; r.push_back(i); }
            int j = k - 1; while (j >= 0 && ++d[j] == na) d[j--] = 0;
            if (j < 0) break;
        }
    }
    return r;
}
template <class A> void append(std::vector<A>& a, const std::vector<A>& b) { a.insert(a.end(), b.begin(), b.end()); }
} // namespace prog
#endif
