// C27: sparse2eigen, all patterns of small matrices, all orders of up to 4 entries, row and column major.
#include "vfc.hpp"
#include <cppad/cppad.hpp>
#include <cppad/utility/sparse2eigen.hpp>
using vf::Run; typedef std::vector<std::pair<size_t, size_t>> E;
template <class SV, class VV, int OPT> std::string one(Run& R, size_t nr, size_t nc, const E& e) {
    typedef typename VV::value_type T; CppAD::sparse_rc<SV> rc(nr, nc, e.size()); for (size_t k = 0; k < e.size(); k++) rc.set(k, e[k].first, e[k].second);
    CppAD::sparse_rcv<SV, VV> m(rc); for (size_t k = 0; k < e.size(); k++) m.set(k, T(double(int(k * 3 % 7) - 2)));
    Eigen::SparseMatrix<T, OPT> d(2, 5); if (e.size() % 2) { d.insert(1, 3) = T(9.0); d.insert(0, 0) = T(8.0); } // what was there before does not matter
    CppAD::sparse2eigen(m, d); R.comparisons++; R.case_nontrivial = true; R.transitions++;
    if (size_t(d.rows()) != nr || size_t(d.cols()) != nc) return "dimensions"; if (!d.isCompressed()) return "not compressed"; if (size_t(d.nonZeros()) != e.size()) return "number of entries";
    std::map<std::pair<size_t, size_t>, size_t> at; for (size_t k = 0; k < e.size(); k++) at[e[k]] = k; long last = -1;
    for (int o = 0; o < d.outerSize(); o++) { last = -1; for (typename Eigen::SparseMatrix<T, OPT>::InnerIterator it(d, o); it; ++it) { R.comparisons++; auto f = at.find({size_t(it.row()), size_t(it.col())}); if (f == at.end()) return "an entry that is not in the source"; if (!(it.value() == m.val()[f->second])) return "value"; long i = OPT == Eigen::RowMajor ? it.col() : it.row(); if (i <= last) return "order of the entries"; last = i; at.erase(f); } }
    return at.empty() ? "" : "an entry is missing"; }
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(vf::throw_handler); bool th = R.thorough();
    return vf::guarded_main(R, [&] { if (!R.family("eigen")) return; static const size_t sh[][2] = {{0, 0}, {0, 3}, {3, 0}, {1, 1}, {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {2, 6}, {4, 3}};
        for (auto& s : sh) { size_t nr = s[0], nc = s[1], n = nr * nc; for (uint64_t t = 0; t < 1ull << n; t++) { E e; for (size_t q = 0; q < n; q++) if (t >> q & 1) e.push_back({q / nc, q % nc});
            if (!R.next([&] { return vf::fmt("sparse2eigen %zu by %zu pattern %lx", nr, nc, t); })) continue;
            try { bool all = e.size() <= (th ? 6u : 4u); std::sort(e.begin(), e.end()); int c = 0; do { std::string w; typedef CppAD::vector<size_t> CS; typedef std::vector<size_t> SS;
                    w = one<CS, CppAD::vector<double>, Eigen::RowMajor>(R, nr, nc, e); if (w.empty()) w = one<SS, std::vector<double>, Eigen::ColMajor>(R, nr, nc, e); if (w.empty()) w = one<CS, CppAD::vector<CppAD::AD<double>>, Eigen::ColMajor>(R, nr, nc, e); if (w.empty()) w = one<SS, CppAD::vector<float>, Eigen::RowMajor>(R, nr, nc, e);
                    if (w.size()) { R.fail(w); break; } if (!all && ++c == 6) break; if (!all) { std::rotate(e.begin(), e.begin() + e.size() / 2 + 1, e.end()); std::swap(e[0], e[1]); } else if (!std::next_permutation(e.begin(), e.end())) break; } while (true); }
            catch (vf::CppadError& x) { R.fail(x.what()); } } } });
}
