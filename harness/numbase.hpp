// A base type with the documented requirements and nothing more. Every object knows its own address, so that a bitwise copy, an object
// used before construction or after destruction, and a lost destruction are all noticed.
#ifndef NUMBASE_HPP
#define NUMBASE_HPP
#include <cppad/base_require.hpp>
#include <cmath>
#include <cstdio>
#include <stdexcept>
#ifndef NUM_V
#define NUM_V double
#endif
typedef NUM_V numv;
namespace CppAD {
class num {
    const num* self_; numv* v_;
public:
    static long& live() { static long n = 0; return n; }
    static long& broken() { static long n = 0; return n; }
    numv get() const { if (self_ != this) { broken()++; return numv(0) / numv(0); } return *v_; }
    num() : self_(this), v_(new numv(-12345.0)) { live()++; }
    num(numv x) : self_(this), v_(new numv(x)) { live()++; }
    num(const num& x) : self_(this), v_(new numv(x.get())) { live()++; }
    ~num() { if (self_ != this) broken()++; else { self_ = nullptr; delete v_; live()--; } }
    void operator=(const num& x) { numv t = x.get(); if (self_ != this) { broken()++; return; } *v_ = t; }
    num operator-() const { return num(-get()); }
    num operator+() const { return *this; }
#define NUM_OP(o) num operator o(const num& x) const { return num(get() o x.get()); } void operator o##=(const num& x) { numv t = x.get(); get(); if (self_ == this) *v_ o##= t; }
    NUM_OP(+) NUM_OP(-) NUM_OP(*) NUM_OP(/)
#undef NUM_OP
    bool operator==(const num& x) const { return get() == x.get(); }
    bool operator!=(const num& x) const { return get() != x.get(); }
};
inline num CondExpOp(enum CompareOp cop, const num& l, const num& r, const num& t, const num& f) {
    numv a = l.get(), b = r.get(); bool c = false;
    switch (cop) { case CompareLt: c = a < b; break; case CompareLe: c = a <= b; break; case CompareEq: c = a == b; break; case CompareGe: c = a >= b; break; case CompareGt: c = a > b; break; default: throw std::runtime_error("CondExpOp"); }
    return c ? t : f;
}
CPPAD_COND_EXP_REL(num)
inline bool EqualOpSeq(const num& x, const num& y) { return x.get() == y.get(); }
inline bool IdenticalCon(const num&) { return true; }
inline bool IdenticalZero(const num& x) { return x.get() == 0.0; }
inline bool IdenticalOne(const num& x) { return x.get() == 1.0; }
inline bool IdenticalEqualCon(const num& x, const num& y) { return x.get() == y.get(); }
inline std::ostream& operator<<(std::ostream& os, const num& x) { return os << x.get(); }
inline int Integer(const num& x) { return int(x.get()); }
CPPAD_AZMUL(num)
inline bool GreaterThanZero(const num& x) { return x.get() > 0; }
inline bool GreaterThanOrZero(const num& x) { return x.get() >= 0; }
inline bool LessThanZero(const num& x) { return x.get() < 0; }
inline bool LessThanOrZero(const num& x) { return x.get() <= 0; }
inline bool abs_geq(const num& x, const num& y) { return std::fabs(x.get()) >= std::fabs(y.get()); }
#define NUM_FUN(f) inline num f(const num& x) { return num(std::f(x.get())); }
NUM_FUN(acos) NUM_FUN(acosh) NUM_FUN(asin) NUM_FUN(asinh) NUM_FUN(atan) NUM_FUN(atanh) NUM_FUN(cos) NUM_FUN(cosh) NUM_FUN(erf) NUM_FUN(erfc) NUM_FUN(exp) NUM_FUN(expm1)
NUM_FUN(fabs) NUM_FUN(log) NUM_FUN(log1p) NUM_FUN(log10) NUM_FUN(sin) NUM_FUN(sinh) NUM_FUN(sqrt) NUM_FUN(tan) NUM_FUN(tanh)
#undef NUM_FUN
inline num abs(const num& x) { return num(std::fabs(x.get())); }
inline bool isnan(const num& x) { return x.get() != x.get(); }
inline num sign(const num& x) { numv a = x.get(); return num(a > 0 ? 1.0 : a == 0 ? 0.0 : -1.0); }
inline num pow(const num& x, const num& y) { return num(std::pow(x.get(), y.get())); }
CPPAD_NUMERIC_LIMITS(numv, num)
CPPAD_TO_STRING(num)
// hash_code of two different values may agree
inline unsigned short hash_code(const num& x) { numv a = std::fabs(x.get()); return (unsigned short)(a < 3 ? 2.0 * a : 7.0); }
}
#endif
