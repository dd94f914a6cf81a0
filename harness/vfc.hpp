// vf.hpp plus CppAD: errors reported by CppAD become C++ exceptions.
#ifndef VFC_HPP
#define VFC_HPP
#include <cppad/cppad.hpp>
#include "vf.hpp"
namespace vf {
struct CppadError : std::runtime_error {
    bool known; int line; std::string file, exp, msg;
    CppadError(bool k, int l, const char* f, const char* e, const char* m)
    : std::runtime_error(std::string(k ? "known" : "unknown") + " cppad error " + f + ":" + std::to_string(l) + ": " + e + " : " + m), known(k), line(l), file(f), exp(e), msg(m) {}
};
inline void throw_handler(bool known, int line, const char* file, const char* exp, const char* msg) {
    throw CppadError(known, line, file, exp, msg);
}
}
#endif
