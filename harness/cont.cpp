// C24 thread_alloc, C25 vectors, C26 vectors of sets, C27 sparse patterns: every operation sequence up to a depth,
// replayed from scratch on the real classes, compared with an ideal model after the last operation.
#include "vfc.hpp"
#include <cppad/local/sparse/pack_setvec.hpp>
#include <cppad/local/sparse/list_setvec.hpp>
#include <cppad/utility/set_union.hpp>
#include <cppad/utility/index_sort.hpp>
#include <algorithm>
#include <bitset>
#include <list>
using namespace vf;
using std::string; using std::vector;
template <class F> static bool throws(F f, string* what = nullptr, bool* known = nullptr) {
    try { f(); } catch (CppadError& e) { if (what) *what = e.what(); if (known) *known = e.known; return true; } return false;
}
struct Seen { std::unordered_set<uint64_t> s; bool add(uint64_t h) { return s.size() < 4000000 && s.insert(h).second; } };
static Seen g_seen;
static void saw(Run& R, uint64_t h) { if (g_seen.add(h)) R.states++; R.outcome(h); }
// ---------------------------------------------------------------------------------------------- vectors of sets
typedef std::bitset<256> Set;
struct SObj { size_t n = 0, end = 0; vector<Set> val, post; };
struct SOp { char k; int o, t, l, o2, r; };           // kind, object, target, left, other object, right
static string sop_str(const SOp& p) {
    const char* nm = p.k == 'a' ? "add" : p.k == 'p' ? "post" : p.k == 'x' ? "process" : p.k == 'c' ? "clear" : p.k == 's' ? "assign" : p.k == 'u' ? "union" : p.k == 'i' ? "intersection" : p.k == '=' ? "copy" : p.k == 'w' ? "swap" : p.k == 'z' ? "resize" : "?";
    return fmt("%s(%c%d,%d,%c%d) ", nm, 'A' + p.o, p.t, p.l, 'A' + p.o2, p.r);
}
template <class S> struct SetPair {
    S real[2]; SObj mod[2];
    void resize(int o, size_t n, size_t end) { real[o].resize(n, end); mod[o].n = n; mod[o].end = end; mod[o].val.assign(n, Set()); mod[o].post.assign(n, Set()); }
    // every posted element is processed before the object is destroyed or changes size
    void finish() { for (int o = 0; o < 2; o++) for (size_t i = 0; i < mod[o].n; i++) apply({'x', o, int(i), 0, o, 0}); }
    bool legal(const SOp& p) const {
        const SObj &a = mod[p.o], &b = mod[p.o2]; auto in = [](const SObj& m, int i) { return i >= 0 && size_t(i) < m.n; }; auto clean = [&](const SObj& m, int i) { return in(m, i) && m.post[i].none(); };
        switch (p.k) {
            case 'a': case 'p': return in(a, p.t) && size_t(p.l) < a.end && (p.k == 'p' || clean(a, p.t));
            case 'x': case 'c': return in(a, p.t);
            case 's': return in(a, p.t) && clean(b, p.r) && a.end == b.end;
            case 'u': case 'i': return in(a, p.t) && clean(a, p.l) && clean(b, p.r) && a.end == b.end;
            case 'z': case '=': for (size_t i = 0; i < a.n; i++) if (a.post[i].any()) return false; if (p.k == '=') for (size_t i = 0; i < b.n; i++) if (b.post[i].any()) return false;
        } return true;
    }
    void apply(const SOp& p) {
        S &a = real[p.o], &b = real[p.o2]; SObj &m = mod[p.o], &n = mod[p.o2];
        switch (p.k) {
            case 'a': a.add_element(p.t, p.l); m.val[p.t].set(p.l); break;
            case 'p': a.post_element(p.t, p.l); m.post[p.t].set(p.l); break;
            case 'x': a.process_post(p.t); m.val[p.t] |= m.post[p.t]; m.post[p.t].reset(); break;
            case 'c': a.clear(p.t); m.val[p.t].reset(); m.post[p.t].reset(); break;
            case 's': a.assignment(p.t, p.r, b); m.val[p.t] = Set(n.val[p.r]); m.post[p.t].reset(); break;
            case 'u': a.binary_union(p.t, p.l, p.r, b); m.val[p.t] = m.val[p.l] | n.val[p.r]; m.post[p.t].reset(); break;
            case 'i': a.binary_intersection(p.t, p.l, p.r, b); m.val[p.t] = m.val[p.l] & n.val[p.r]; m.post[p.t].reset(); break;
            case '=': a = b; { SObj c = n; m = c; } break;
            case 'w': a.swap(b); if (p.o != p.o2) std::swap(m, n); break;
            case 'z': resize(p.o, p.t, p.l); break;
        }
    }
    uint64_t hash() const { uint64_t h = 77; for (int o = 0; o < 2; o++) { h = hash_bytes(&mod[o].n, 8, h); h = hash_bytes(&mod[o].end, 8, h); for (auto& s : mod[o].val) h = hash_bytes(&s, sizeof s, h); for (auto& s : mod[o].post) h = hash_bytes(&s, sizeof s, h); } return h; }
    string check(Run& R, int o) const {
        const S& r = real[o]; const SObj& m = mod[o]; R.comparisons++;
        if (r.n_set() != m.n || r.end() != m.end) return fmt("object %c has n_set %zu end %zu", 'A' + o, size_t(r.n_set()), size_t(r.end()));
        for (size_t i = 0; i < m.n; i++) if (m.post[i].none()) {
            bool same = true; if (m.end > 0) { typename S::const_iterator it(r, i); size_t e = 0, k = 0; for (; same && *it != m.end; ++it) { size_t v = *it; if (++k > m.end || v >= m.end || !m.val[i][v]) same = false; for (; same && e < v; e++) if (m.val[i][e]) same = false; e = v + 1; } for (; same && e < m.end; e++) if (m.val[i][e]) same = false; }
            R.comparisons++; string got, want; if (!same) for (size_t e = 0; e < m.end; e++) if (m.val[i][e]) want += fmt("%zu ", e);
            if (!same) { typename S::const_iterator it(r, i); size_t k = 0; while (*it != m.end) { if (k++ > 300) { got += "..."; break; } got += fmt("%zu ", size_t(*it)); ++it; } }
            if (!same) return fmt("set %c%zu is { ", 'A' + o, i) + got + "} but should be { " + want + "}";
            if (r.number_elements(i) != m.val[i].count()) return fmt("number_elements of %c%zu is %zu not %zu", 'A' + o, i, size_t(r.number_elements(i)), m.val[i].count());
            for (size_t e = 0; e < m.end; e++) if (r.is_element(i, e) != m.val[i][e]) return fmt("is_element(%zu, %zu) of %c is wrong", i, e, 'A' + o);
        } return "";
    }
};
struct SCfg { size_t nA, nB, end; vector<int> el; };
static vector<SOp> set_ops(const SCfg& c, bool full) {
    vector<SOp> v; size_t n[2] = {c.nA, c.nB};
    for (int o = 0; o < 2; o++) for (int t = 0; t < int(n[o]); t++) {
        for (int e : c.el) { v.push_back({'a', o, t, e, o, 0}); if (full || o == 0) v.push_back({'p', o, t, e, o, 0}); }
        v.push_back({'x', o, t, 0, o, 0}); v.push_back({'c', o, t, 0, o, 0});
        for (int o2 = 0; o2 < 2; o2++) for (int r = 0; r < int(n[o2]); r++) {
            v.push_back({'s', o, t, 0, o2, r});
            for (int l = 0; l < int(n[o]); l++) { v.push_back({'u', o, t, l, o2, r}); v.push_back({'i', o, t, l, o2, r}); }
        }
    }
    v.push_back({'=', 0, 0, 0, 1, 0}); v.push_back({'=', 1, 0, 0, 0, 0}); v.push_back({'w', 0, 0, 0, 1, 0}); v.push_back({'z', 0, int(c.nA), int(c.end), 0, 0});
    if (full) { v.push_back({'z', 0, 0, 0, 0, 0}); v.push_back({'z', 1, int(c.nA), int(c.end), 1, 0}); v.push_back({'=', 0, 0, 0, 0, 0}); v.push_back({'w', 0, 0, 0, 0, 0}); }
    return v;
}
template <class S> static void run_seq(Run& R, const SCfg& c, const vector<SOp>& ops, const vector<int>& code) {
    std::unique_ptr<SetPair<S>> q(new SetPair<S>); SetPair<S>& p = *q; auto text = [&] { string d; for (int i : code) d += sop_str(ops[i]); return d; };
    try {
        p.resize(0, c.nA, c.end); p.resize(1, c.nB, c.end);
        for (int i : code) p.apply(ops[i]);
        R.transitions += code.size(); saw(R, p.hash());
        for (int o = 0; o < 2; o++) { string e = p.check(R, o); if (e.size()) { p.finish(); R.fail("after " + text() + ": " + e); return; } }
        p.finish(); for (int o = 0; o < 2; o++) { string e = p.check(R, o); if (e.size()) { R.fail("after " + text() + "and processing all posts: " + e); return; } }
        for (int o = 0; o < 2; o++) p.real[o].resize(0, 0);       // with assertions this also checks the bookkeeping
    } catch (CppadError& e) { q.release(); R.fail("after " + text() + ": " + e.what()); }
}
// legality is decided on the model only
struct NoSet { void resize(size_t, size_t) {} void add_element(size_t, size_t) {} void post_element(size_t, size_t) {} void process_post(size_t) {} void clear(size_t) {} void assignment(size_t, size_t, const NoSet&) {}
    void binary_union(size_t, size_t, size_t, const NoSet&) {} void binary_intersection(size_t, size_t, size_t, const NoSet&) {} void swap(NoSet&) {} };
template <class S> static void extend(Run& R, const SCfg& c, const vector<SOp>& ops, vector<int>& code, const SetPair<NoSet>& m, int depth) {
    run_seq<S>(R, c, ops, code);
    if (int(code.size()) == depth || R.case_failed) return;
    for (size_t i = 0; i < ops.size(); i++) { if (!m.legal(ops[i])) continue; SetPair<NoSet> n = m; n.apply(ops[i]); code.push_back(i); extend<S>(R, c, ops, code, n, depth); code.pop_back(); if (R.case_failed) return; }
}
template <class S> static void sequences(Run& R, const string& name, const SCfg& c, int depth, bool full) {
    if (!R.family(name)) return;
    auto ops = set_ops(c, full); SetPair<NoSet> m0; m0.resize(0, c.nA, c.end); m0.resize(1, c.nB, c.end);
    for (size_t a = 0; a < ops.size(); a++) for (size_t b = 0; b < ops.size(); b++) {
        SetPair<NoSet> m = m0; if (!m.legal(ops[a])) continue; m.apply(ops[a]); if (!m.legal(ops[b])) continue; m.apply(ops[b]);
        if (!R.next([&, a, b] { return sop_str(ops[a]) + sop_str(ops[b]) + fmt("and all continuations to depth %d", depth); })) continue;
        vector<int> code{int(a), int(b)}; extend<S>(R, c, ops, code, m, depth);
    }
}
// all pairs of subsets, ways to build them and aliasing modes
template <class S> static void pairs(Run& R, const string& name, size_t end, const vector<int>& el) {
    if (!R.family(name)) return;
    int ns = 1 << el.size();
    for (int x = 0; x < ns; x++) for (int y = 0; y < ns; y++) for (int build = 0; build < 6; build++) {
        if (!R.next([=] { return fmt("subsets %d %d of %zu elements build %d", x, y, el.size(), build); })) continue;
        auto fill = [&](SetPair<S>& p, int o, int i, int sub) {
            vector<int> e; for (size_t k = 0; k < el.size(); k++) if (sub >> k & 1) e.push_back(el[k]);
            if (build & 1) std::reverse(e.begin(), e.end());
            if (build / 2 == 2 && e.size() > 2) std::swap(e[0], e[e.size() / 2]);
            for (size_t k = 0; k < e.size(); k++) {
                if (build / 2 == 0) p.apply({'a', o, i, e[k], o, 0}); else { p.apply({'p', o, i, e[k], o, 0}); if (build / 2 == 2) p.apply({'p', o, i, e[k], o, 0}); if (build / 2 == 2 && k == e.size() / 2) p.apply({'x', o, i, 0, o, 0}); } }
            p.apply({'x', o, i, 0, o, 0});
        };
        for (char k : {'u', 'i', 's'}) for (int o2 = 0; o2 < 2; o2++) for (int share = 0; share < 4; share++) for (int t = 0; t < 4; t++) for (int r2 = 0; r2 < 2 && !R.case_failed; r2++) {
            SetPair<S> p; string e;
            try {
                p.resize(0, 4, end); p.resize(1, 2, end); fill(p, 0, 0, x); fill(p, 0, 1, y); fill(p, 1, 0, y); fill(p, 1, 1, x);
                if (share & 1) p.apply({'s', 0, 2, 0, 0, 0}); if (share & 2) p.apply({'s', 0, 3, 0, 0, 1});     // 2 shares with 0, 3 shares with 1
                int l = share & 1 ? 2 : 0, r = o2 ? r2 : (r2 ? 1 : share & 2 ? 3 : 0);
                p.apply({k, 0, t, l, o2, r}); R.transitions++; saw(R, p.hash());
                e = p.check(R, 0); if (e.empty()) e = p.check(R, 1);
                // changing one set must not change those that shared with it
                if (e.empty()) { p.apply({'a', 0, t, el.back(), 0, 0}); p.apply({'a', 0, l, el[0], 0, 0}); e = p.check(R, 0); }
            } catch (CppadError& x) { e = x.what(); }
            if (e.size()) R.fail(fmt("operation %c other object %d sharing %d target %d right %d: ", k, o2, share, t, r2) + e);
        }
    }
}
// large operations: growth, sharing of many lists and collection of lists not used
template <class S> static void macros(Run& R, const string& name, int depth, size_t n, size_t end) {
    if (!R.family(name)) return;
    const int NM = 14; uint64_t tot = 1; for (int i = 0; i < depth; i++) tot *= NM;
    for (uint64_t code = 0; code < tot; code++) {
        if (!R.next([=] { string d; uint64_t c = code; for (int i = 0; i < depth; i++, c /= NM) d += fmt("%d ", int(c % NM)); return d; })) continue;
        SetPair<S> p; string e; int at = 0;
        try {
            p.resize(0, n, end); p.resize(1, n, end); uint64_t c = code; int N = n, E = end;
            for (; at < depth && e.empty(); at++, c /= NM) {
                switch (c % NM) {
                    case 0: for (int i = 0; i < N; i++) for (int k = 0; k < 5; k++) p.apply({'a', 0, i, (i * 37 + k * 53) % E, 0, 0}); break;
                    case 1: for (int i = 0; i < N; i++) { for (int k = 6; k-- > 0;) p.apply({'p', 0, i, (i * 11 + k * (i % 7 + 1)) % E, 0, 0}); p.apply({'x', 0, i, 0, 0, 0}); } break;
                    case 2: for (int i = 1; i < N; i++) p.apply({'s', 0, i, 0, 0, 0}); break;
                    case 3: for (int i = N - 1; i > 0; i--) p.apply({'s', 0, i, 0, 0, i - 1}); break;
                    case 4: for (int i = 0; i < N; i++) p.apply({'u', 0, i, i, 0, (i + 1) % N}); break;
                    case 5: for (int i = 0; i < N; i++) p.apply({'i', 0, i, i, 0, (i * 7 + 1) % N}); break;
                    case 6: for (int i = 0; i < N; i += 2) p.apply({'c', 0, i, 0, 0, 0}); break;
                    case 7: for (int i = 0; i < N; i++) p.apply({'c', 0, N - 1 - i, 0, 0, 0}); break;
                    case 8: p.apply({'=', 1, 0, 0, 0, 0}); break;
                    case 9: p.apply({'w', 0, 0, 0, 1, 0}); break;
                    case 10: for (int i = 0; i < N; i++) p.apply({'s', 0, i, 0, 1, (i + 3) % N}); break;
                    case 11: for (int i = 0; i < N; i++) p.apply({'u', 0, i, (i + 1) % N, 1, i}); break;
                    case 12: p.apply({'z', 0, N, E, 0, 0}); break;
                    case 13: for (int i = 0; i < N; i += 3) { p.apply({'a', 0, i, E - 1, 0, 0}); p.apply({'a', 0, (i + 1) % N, 0, 0, 0}); } break;
                }
                R.transitions++; e = p.check(R, 0); if (e.empty()) e = p.check(R, 1);
            } saw(R, p.hash());
        } catch (CppadError& x) { e = x.what(); }
        if (e.size()) R.fail(fmt("after macro operation number %d: ", at) + e);
    }
}
template <class S> static void set_class(Run& R, const string& n, bool small = false) {
    bool th = R.thorough(); if (small) { sequences<S>(R, n + "/seq3", {2, 1, 3, {0, 1, 2}}, 3, false); macros<S>(R, n + "/macro", 3, 40, 70); return; }
    sequences<S>(R, n + "/seq", {2, 1, 3, {0, 1, 2}}, th ? 5 : 4, false);
    sequences<S>(R, n + "/wide", {3, 2, 4, {0, 3}}, 3, true);
    if (th) sequences<S>(R, n + "/wide4", {2, 2, 3, {0, 2}}, 4, true);
    for (int end : {1, 2, 63, 64, 65, 127, 128, 129, 192}) {
        vector<int> el; for (int e : {0, end / 2, 63, 64, 127, 128, end - 1}) if (e >= 0 && e < end && std::find(el.begin(), el.end(), e) == el.end()) el.push_back(e);
        sequences<S>(R, n + fmt("/end%d", end), {2, 1, size_t(end), el}, 3, false);
    }
    pairs<S>(R, n + "/pairs", 5, {0, 1, 3, 4}); pairs<S>(R, n + "/pairsw", 130, {0, 63, 64, 129});
    macros<S>(R, n + "/macro", th ? 5 : 4, 40, 70);
    if (th) macros<S>(R, n + "/macrol", 4, 120, 200);
}
// ---------------------------------------------------------------------------------------------- sparse_rc, sparse_rcv, index_sort, set_union
typedef std::pair<size_t, size_t> RC;
template <class SV> struct Pat { typedef CppAD::sparse_rc<SV> T; };
struct MPat { size_t nr = 0, nc = 0; vector<RC> e; bool rm = false, cm = false;
    bool unset = false;       // entries whose index was never set
    bool dup() const { for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < i; j++) if (e[i] == e[j]) return true; return false; } };
template <class SV> static string pat_check(Run& R, const CppAD::sparse_rc<SV>& p, const MPat& m) {
    R.comparisons++; size_t n = m.e.size();
    if (p.nr() != m.nr || p.nc() != m.nc || p.nnz() != n || size_t(p.row().size()) != n || size_t(p.col().size()) != n) return fmt("sizes %zu %zu %zu, row %zu col %zu", p.nr(), p.nc(), p.nnz(), size_t(p.row().size()), size_t(p.col().size()));
    for (size_t k = 0; k < n; k++) if (p.row()[k] != m.e[k].first || p.col()[k] != m.e[k].second) return fmt("entry %zu is (%zu, %zu)", k, size_t(p.row()[k]), size_t(p.col()[k]));
    if (size_t(p.get_row_major().size()) != (m.rm ? n : 0) || size_t(p.get_col_major().size()) != (m.cm ? n : 0)) return "get_row_major or get_col_major has the wrong size";
    if (m.dup()) {
        bool k1 = false, k2 = false;
        if (!m.rm && !throws([&] { p.row_major(); }, nullptr, &k1)) return "row_major accepts a duplicate entry"; if (!m.cm && !throws([&] { p.col_major(); }, nullptr, &k2)) return "col_major accepts a duplicate entry";
        if ((!m.rm && !k1) || (!m.cm && !k2)) return "duplicate entry: not reported as a known error";
        return "";
    }
    for (int c = 0; c < 2; c++) for (int get = 0; get < 2; get++) {
        if (get && !(c ? m.cm : m.rm)) continue;
        SV o = get ? (c ? p.get_col_major() : p.get_row_major()) : c ? p.col_major() : p.row_major(); if (size_t(o.size()) != n) return "row_major or col_major has the wrong size";
        vector<bool> seen(n, false);
        for (size_t k = 0; k < n; k++) { if (o[k] >= n || seen[o[k]]) return "row_major or col_major is not a permutation"; seen[o[k]] = true;
            if (k) { RC a = m.e[o[k - 1]], b = m.e[o[k]]; if (c) { std::swap(a.first, a.second); std::swap(b.first, b.second); } if (!(a < b)) return fmt("%s is not sorted", c ? "col_major" : "row_major"); } }
    }
    std::ostringstream os; os << p; string want = "{ }";
    if (n) { vector<RC> s = m.e; std::sort(s.begin(), s.end()); want = "{"; for (size_t k = 0; k < n; k++) if (k == 0 || s[k].first != s[k - 1].first) want += fmt("\nrow = %zu, col = %zu", s[k].first, s[k].second); else want += fmt(", %zu", s[k].second); want += "\n}"; }
    if (os.str() != want) return "output is " + os.str();
    return "";
}
// operations on two patterns
template <class SV> struct PatPair {
    std::unique_ptr<CppAD::sparse_rc<SV>> p[2]; MPat m[2]; bool dead = false; string err;
    PatPair() { for (auto& q : p) q.reset(new CppAD::sparse_rc<SV>); }
    static const int NOP = 30;
    static string name(int c) { static const char* s[NOP] = {"resize(2,2,0)", "resize(2,3,2) and set", "resize(1,1,1) and set", "push(0,0)", "push(0,1)", "push(1,0)", "push(1,1)", "set(0,0,1)", "set(last,1,0)", "set(0,0,0)", "set_row_major", "set_col_major", "A=B", "B=A", "A=A", "swap", "B.push(0,1)", "B.push(1,0)", "B.set_row_major", "B.set_col_major", "B.resize(2,2,0)", "B.set(0,0,1)", "A=move(B) and B=empty", "A=copy of B", "A=moved copy of B", "bad set k", "bad set r", "bad set c", "bad push r", "bad push c"}; return s[c]; }
    bool legal(int c) const {
        auto fit = [&](int o, size_t r, size_t cc) { return r < m[o].nr && cc < m[o].nc; };
        switch (c) { case 3: return fit(0, 0, 0); case 4: return fit(0, 0, 1); case 5: return fit(0, 1, 0); case 6: return fit(0, 1, 1); case 7: return m[0].e.size() && fit(0, 0, 1); case 8: return m[0].e.size() && fit(0, 1, 0); case 9: return m[0].e.size() && fit(0, 0, 0);
            case 10: case 11: return !m[0].dup(); case 16: return fit(1, 0, 1); case 17: return fit(1, 1, 0); case 18: case 19: return !m[1].dup(); case 21: return m[1].e.size() && fit(1, 0, 1);
            case 26: case 27: return m[0].e.size(); } return true;
    }
    void push(int o, size_t r, size_t c, bool real) { if (real) p[o]->push_back(r, c); m[o].e.push_back(RC(r, c)); m[o].rm = m[o].cm = false; }
    void set(int o, size_t k, size_t r, size_t c, bool real) { if (real) p[o]->set(k, r, c); m[o].e[k] = RC(r, c); m[o].rm = m[o].cm = false; }
    void size(int o, size_t nr, size_t nc, size_t nnz, bool real) { if (real) p[o]->resize(nr, nc, nnz); m[o].nr = nr; m[o].nc = nc; m[o].e.resize(nnz); m[o].rm = m[o].cm = false; for (size_t k = 0; k < nnz; k++) set(o, k, (k + 1) % nr, (k + 1) / 2, real); }
    void bad(std::function<void()> f) { bool k = false; if (!throws(f, nullptr, &k) || !k) err = "misuse was not reported"; }
    void apply(int c, bool real) {
        switch (c) {
            case 0: size(0, 2, 2, 0, real); break; case 1: size(0, 2, 3, 2, real); break; case 2: if (real) p[0]->resize(1, 1, 1); m[0].nr = m[0].nc = 1; m[0].e.resize(1); m[0].rm = m[0].cm = false; set(0, 0, 0, 0, real); break;
            case 3: push(0, 0, 0, real); break; case 4: push(0, 0, 1, real); break; case 5: push(0, 1, 0, real); break; case 6: push(0, 1, 1, real); break;
            case 7: set(0, 0, 0, 1, real); break; case 8: set(0, m[0].e.size() - 1, 1, 0, real); break; case 9: set(0, 0, 0, 0, real); break;
            case 10: if (real) p[0]->set_row_major(); m[0].rm = true; break; case 11: if (real) p[0]->set_col_major(); m[0].cm = true; break;
            case 12: if (real) *p[0] = *p[1]; m[0] = m[1]; break; case 13: if (real) *p[1] = *p[0]; m[1] = m[0]; break; case 14: if (real) { const CppAD::sparse_rc<SV>& q = *p[0]; *p[0] = q; } break;
            case 15: if (real) p[0]->swap(*p[1]); std::swap(m[0], m[1]); break;
            case 16: push(1, 0, 1, real); break; case 17: push(1, 1, 0, real); break; case 18: if (real) p[1]->set_row_major(); m[1].rm = true; break; case 19: if (real) p[1]->set_col_major(); m[1].cm = true; break;
            case 20: size(1, 2, 2, 0, real); break; case 21: set(1, 0, 0, 1, real); break;
            case 22: if (real) { *p[0] = std::move(*p[1]); p[1].reset(new CppAD::sparse_rc<SV>); } m[0] = m[1]; m[1] = MPat(); break;
            case 23: if (real) p[0].reset(new CppAD::sparse_rc<SV>(*p[1])); m[0] = m[1]; break;
            case 24: if (real) { CppAD::sparse_rc<SV> t(*p[1]); p[0].reset(new CppAD::sparse_rc<SV>(std::move(t))); } m[0] = m[1]; break;
            case 25: if (real) bad([&] { p[0]->set(m[0].e.size(), 0, 0); }); break; case 26: if (real) bad([&] { p[0]->set(0, m[0].nr, 0); }); break; case 27: if (real) bad([&] { p[0]->set(0, 0, m[0].nc); }); break;
            case 28: if (real) bad([&] { p[0]->push_back(m[0].nr, 0); }); break; case 29: if (real) bad([&] { p[0]->push_back(0, m[0].nc); }); break;
        }
    }
};
static uint64_t mhash(const MPat& m, uint64_t h) { h = hash_bytes(&m.nr, 8, h); h = hash_bytes(&m.nc, 8, h); for (auto& e : m.e) h = hash_bytes(&e, sizeof e, h); bool b[2] = {m.rm, m.cm}; return hash_bytes(b, 2, h); }
template <class SV> static void pat_run(Run& R, const vector<int>& code) {
    string e; int at = 0;
    try {
        PatPair<SV> q; for (int c : code) { q.apply(c, true); at++; if (q.err.size()) break; }
        e = q.err; R.transitions += code.size(); saw(R, mhash(q.m[1], mhash(q.m[0], 5)));
        for (int o = 0; o < 2 && e.empty(); o++) e = pat_check<SV>(R, *q.p[o], q.m[o]);
        if (e.empty() && !q.m[0].dup() && !q.m[1].dup()) {
            auto a = q.m[0].e, b = q.m[1].e; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            bool eq = q.m[0].nr == q.m[1].nr && q.m[0].nc == q.m[1].nc && a == b; R.comparisons++;
            if ((*q.p[0] == *q.p[1]) != eq || (*q.p[1] == *q.p[0]) != eq || !(*q.p[0] == *q.p[0])) e = fmt("== should be %d", eq);
        }
    } catch (CppadError& x) { e = x.what(); }
    if (e.size()) { string d; for (int c : code) d += PatPair<SV>::name(c) + "; "; R.fail("after " + d + e); }
}
template <class SV> static void pat_extend(Run& R, vector<int>& code, const MPat* m, int depth) {
    pat_run<SV>(R, code); if (int(code.size()) == depth || R.case_failed) return;
    for (int c = 0; c < PatPair<SV>::NOP; c++) { PatPair<SV> n; n.m[0] = m[0]; n.m[1] = m[1]; if (!n.legal(c)) continue; n.apply(c, false); code.push_back(c); pat_extend<SV>(R, code, n.m, depth); code.pop_back(); if (R.case_failed) return; }
}
template <class SV> static void pat_sequences(Run& R, const string& name, int depth) {
    if (!R.family(name)) return;
    for (int a = 0; a < PatPair<SV>::NOP; a++) for (int b = 0; b < PatPair<SV>::NOP; b++) {
        PatPair<SV> n; n.apply(0, false); n.apply(20, false); if (!n.legal(a)) continue; n.apply(a, false); if (!n.legal(b)) continue; n.apply(b, false);
        if (!R.next([=] { return PatPair<SV>::name(a) + "; " + PatPair<SV>::name(b) + fmt("; all continuations to depth %d", depth); })) continue;
        vector<int> code{0, 20, a, b}; pat_extend<SV>(R, code, n.m, depth + 2);
    }
}
template <class SV, class VV> static void rcv(Run& R, const string& name) {
    if (!R.family(name)) return;
    typedef CppAD::sparse_rcv<SV, VV> T; const int NOP = 14, depth = R.thorough() ? 5 : 4; int tot = 1; for (int i = 0; i < depth; i++) tot *= NOP;
    CppAD::sparse_rc<SV> p2(2, 2, 2), p3(2, 3, 3); p2.set(0, 1, 1); p2.set(1, 0, 1); p3.set(0, 1, 2); p3.set(1, 0, 0); p3.set(2, 1, 0); MPat m2{2, 2, {RC(1, 1), RC(0, 1)}}, m3{2, 3, {RC(1, 2), RC(0, 0), RC(1, 0)}};
    p3.set_row_major(); m3.rm = true;
    for (int code = 0; code < tot; code++) {
        if (!R.next([=] { string d; for (int i = 0, c = code; i < depth; i++, c /= NOP) d += fmt("%d ", c % NOP); return d; })) continue;
        struct Mod { MPat p; vector<double> v; }; Mod m[2]; std::unique_ptr<T> q[2]; string e; q[0].reset(new T(p2)); m[0].p = m2; q[1].reset(new T); auto init = [&](int o) { for (size_t k = 0; k < m[o].p.e.size(); k++) q[o]->set(k, -1.0 - double(k)); m[o].v.assign(m[o].p.e.size(), 0); for (size_t k = 0; k < m[o].v.size(); k++) m[o].v[k] = -1.0 - double(k); }; init(0);
        try {
            int c = code; for (int i = 0; i < depth && e.empty(); i++, c /= NOP) {
                bool k = false;
                switch (c % NOP) {
                    case 0: q[0].reset(new T(p3)); m[0].p = m3; init(0); break; case 1: q[1].reset(new T(p2)); m[1].p = m2; init(1); break;
                    case 2: if (m[0].v.size()) { q[0]->set(0, i + 5.0); m[0].v[0] = i + 5.0; } break; case 3: if (m[0].v.size()) { q[0]->set(m[0].v.size() - 1, i + 50.0); m[0].v.back() = i + 50.0; } break; case 4: if (m[1].v.size()) { q[1]->set(1, i + 500.0); m[1].v[1] = i + 500.0; } break;
                    case 5: *q[0] = *q[1]; m[0] = m[1]; break; case 6: *q[1] = *q[0]; m[1] = m[0]; break; case 7: q[0]->swap(*q[1]); std::swap(m[0], m[1]); break;
                    case 8: { const T& s = *q[0]; *q[0] = s; } break; case 9: *q[0] = std::move(*q[1]); q[1].reset(new T); m[0] = m[1]; m[1] = Mod(); break;
                    case 10: q[1].reset(new T(*q[0])); m[1] = m[0]; break; case 11: { T t(*q[0]); q[1].reset(new T(std::move(t))); m[1] = m[0]; } break;
                    case 12: if (!throws([&] { q[0]->set(m[0].v.size(), 0.0); }, nullptr, &k) || !k) e = "index k too large was not reported"; break;
                    case 13: { T t; *q[0] = t; m[0] = Mod(); } break;
                } R.transitions++;
            }
            uint64_t h = mhash(m[1].p, mhash(m[0].p, 9)); for (auto& o : m) h = hash_bytes(o.v.data(), 8 * o.v.size(), h); saw(R, h);
            for (int o = 0; o < 2 && e.empty(); o++) { e = pat_check<SV>(R, q[o]->pat(), m[o].p); if (e.size()) break;
                if (q[o]->nr() != m[o].p.nr || q[o]->nc() != m[o].p.nc || q[o]->nnz() != m[o].v.size() || size_t(q[o]->val().size()) != m[o].v.size()) e = "sizes of the matrix are wrong"; 
                for (size_t k = 0; k < m[o].v.size() && e.empty(); k++) if (q[o]->val()[k] != m[o].v[k] || q[o]->row()[k] != m[o].p.e[k].first || q[o]->col()[k] != m[o].p.e[k].second) e = fmt("entry %zu of the matrix is wrong", k);
                if (e.empty()) { SV a = q[o]->row_major(), b = q[o]->pat().row_major(), c = q[o]->col_major(), d = q[o]->pat().col_major(); for (size_t k = 0; k < m[o].v.size(); k++) if (a[k] != b[k] || c[k] != d[k]) e = "orders of matrix and pattern differ"; } }
        } catch (CppadError& x) { e = x.what(); }
        if (e.size()) R.fail(e);
    }
}
static void sparse(Run& R) {
    int d = R.thorough() ? 4 : 3;
    pat_sequences<CppAD::vector<size_t>>(R, "rc/cppad", d); pat_sequences<std::vector<size_t>>(R, "rc/std", d);
    rcv<CppAD::vector<size_t>, CppAD::vector<double>>(R, "rcv/cppad"); rcv<std::vector<size_t>, std::vector<double>>(R, "rcv/std");
    // every pattern up to 3 x 3 in every order of a few, both with and without stored order: equality of all pairs
    if (R.family("equal")) { vector<MPat> all; for (size_t nr = 0; nr <= 3; nr++) for (size_t nc = 0; nc <= 3; nc++) { if (nr * nc > 6) continue; for (int s = 0; s < (1 << (nr * nc)); s++) { MPat m; m.nr = nr; m.nc = nc; for (size_t k = 0; k < nr * nc; k++) if (s >> k & 1) m.e.push_back(RC(k / nc, k % nc)); all.push_back(m); } }
        for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < all.size(); j++) { if (!R.next([=] { return fmt("patterns %zu %zu", i, j); })) continue;
            typedef CppAD::sparse_rc<CppAD::vector<size_t>> T; auto mk = [&](const MPat& m, int ord, int st) { auto e = m.e; if (ord) std::reverse(e.begin(), e.end()); if (ord == 2 && e.size() > 2) std::swap(e[0], e[1]); T p(m.nr, m.nc, e.size()); for (size_t k = 0; k < e.size(); k++) p.set(k, e[k].first, e[k].second); if (st & 1) p.set_row_major(); if (st & 2) p.set_col_major(); return p; };
            bool eq = all[i].nr == all[j].nr && all[i].nc == all[j].nc && all[i].e == all[j].e; saw(R, i * 1000 + eq);
            try { for (int o = 0; o < 3; o++) for (int s = 0; s < 4; s++) for (int t = 0; t < 4; t++) { T a = mk(all[i], 0, s), b = mk(all[j], o, t); R.comparisons++; if ((a == b) != eq) R.fail(fmt("== of patterns %zu %zu, order %d, stored %d %d is wrong", i, j, o, s, t)); } } catch (CppadError& x) { R.fail(x.what()); } } }
    if (R.family("index_sort")) for (int n = 0; n <= (R.thorough() ? 8 : 7); n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 4; for (int code = 0; code < tot; code++) { if (!R.next([=] { return fmt("n %d code %d", n, code); })) continue;
        auto go = [&](auto keys, auto ind, const char* what) { int c = code; for (int i = 0; i < n; i++, c /= 4) { keys[i] = c % 4 * 3 - 2; ind[i] = 999; } CppAD::index_sort(keys, ind); vector<bool> seen(n, false); for (int i = 0; i < n; i++) { R.comparisons++; if (size_t(ind[i]) >= size_t(n) || seen[ind[i]]) { R.fail(string(what) + ": not a permutation"); return; } seen[ind[i]] = true; if (i && keys[ind[i]] < keys[ind[i - 1]]) { R.fail(string(what) + ": not sorted"); return; } } };
        try { go(CppAD::vector<double>(n), CppAD::vector<size_t>(n), "double"); go(std::vector<int>(n), std::vector<size_t>(n), "int"); } catch (CppadError& x) { R.fail(x.what()); } saw(R, n * 100000 + code); } }
    if (R.family("set_union")) for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++) { if (!R.next([=] { return fmt("%d %d", a, b); })) continue; std::set<int> x, y, w; for (int k = 0; k < 6; k++) { if (a >> k & 1) { x.insert(k); w.insert(k); } if (b >> k & 1) { y.insert(k); w.insert(k); } } R.comparisons++; if (CppAD::set_union(x, y) != w) R.fail("union is wrong"); saw(R, a | b); }
}
// ---------------------------------------------------------------------------------------------- vectors
struct Trk {                                              // an element that checks its own construction and destruction
    static long live, made; static string bad; Trk* self; int v; char pad[24];
    Trk() : self(this), v(0) { live++; made++; }
    Trk(int i) : self(this), v(i) { live++; made++; }
    Trk(const Trk& o) : self(this), v(o.v) { if (o.self != &o) bad = "copy of an element that is not constructed"; live++; made++; }
    Trk& operator=(const Trk& o) { if (self != this) bad = "assignment to an element that is not constructed"; if (o.self != &o) bad = "assignment from an element that is not constructed"; v = o.v; return *this; }
    ~Trk() { if (self != this) bad = "destruction of an element that is not constructed"; self = nullptr; live--; }
    bool operator==(const Trk& o) const { return v == o.v; } bool operator!=(const Trk& o) const { return v != o.v; } bool operator<(const Trk& o) const { return v < o.v; } bool operator<=(const Trk& o) const { return v <= o.v; } bool operator>(const Trk& o) const { return v > o.v; } bool operator>=(const Trk& o) const { return v >= o.v; }
};
long Trk::live = 0, Trk::made = 0; string Trk::bad;
static std::ostream& operator<<(std::ostream& s, const Trk& t) { return s << t.v; }
template <class T> struct El { static T mk(int i) { return T(i); } static int of(const T& t) { return int(t); } };
template <> struct El<Trk> { static Trk mk(int i) { return Trk(i); } static int of(const Trk& t) { return t.v; } };
template <> struct El<string> { static string mk(int i) { return "a string that is not short " + std::to_string(i); } static int of(const string& t) { return atoi(t.c_str() + 27); } };
template <> struct El<bool> { static bool mk(int i) { return i & 1; } static int of(bool t) { return t; } };
namespace CppAD { template <> inline void CheckSimpleVector<Trk, CppAD::vector<Trk>>() {} template <> inline void CheckSimpleVector<Trk, std::vector<Trk>>() {} template <> inline void CheckSimpleVector<string, CppAD::vector<string>>() {} template <> inline void CheckSimpleVector<string, std::vector<string>>() {} }
template <class V, class T, bool B> struct Vecs {
    std::unique_ptr<V> q[2]; vector<int> m[2]; string err; int ctr = 0; vector<size_t> sz;
    Vecs(const vector<size_t>& s) : sz(s) { q[0].reset(new V); q[1].reset(new V); }
    int val() { ++ctr; return B ? (ctr * 7 / 3) & 1 : ctr; }
    static const int NOP = 34;
    static string name(int c) { static const char* s[] = {"A=new V", "A=new V(s1) fill", "A=new V(s2) fill", "A=V{..}", "A=copy of B", "A=move of copy of B", "A=B", "B=A", "A=A", "A=move(B), B new", "A=returned", "swap", "A.swap(A)", "A.push_back", "B.push_back", "A.push_back(A[0])", "A.push_vector(B)", "A.push_vector(A)", "A.push_vector(std)", "A.resize(s0)", "A.resize(s1)", "A.resize(s2)", "A.resize(s3)", "A.resize(s4)", "B.resize(s2)", "A.clear", "A[last]=v", "B[0]=v", "A[0]=B[last]", "A[0]=A[last]", "A[size] read", "A[size] write", "resize(-1)", "B.resize(size-1)"}; return s[c]; }
    void fill(int o, size_t from) { m[o].resize(q[o]->size()); for (size_t i = from; i < m[o].size(); i++) { int v = val(); (*q[o])[i] = El<T>::mk(v); m[o][i] = v; } }
    void resize(int o, size_t n, int how) {
        V& a = *q[o]; size_t old = m[o].size(), cap = a.capacity(); const void* d = data(a); 
        if (how == 0) a.resize(n); else if (how == 1) a.resize(int(n)); else a.resize((unsigned int)n);
        if (a.size() != n) { err = fmt("size is %zu after resize(%zu)", size_t(a.size()), n); return; }
        if (n <= cap && (a.capacity() != cap || (cap && data(a) != d))) { err = "resize within the capacity changed the capacity or the memory"; return; }
        m[o].resize(n); if (n > old) fill(o, old);
    }
    template <class U> static const void* data(const CppAD::vector<U>& v) { return v.data(); } static const void* data(const CppAD::vectorBool&) { return nullptr; }
    static V ret(const vector<int>& v) { V r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = El<T>::mk(v[i]); return r; }
    template <class U> static void assign_ok(U&) {}
    bool legal(int c) const {
        switch (c) { case 6: return !B || m[0].empty() || m[0].size() == m[1].size(); case 7: return !B || m[1].empty() || m[0].size() == m[1].size(); case 9: case 10: return !B || m[0].empty() || m[0].size() == (c == 9 ? m[1].size() : sz[1]);
            case 15: case 26: case 29: return !m[0].empty(); case 27: case 33: return !m[1].empty(); case 28: return !m[0].empty() && !m[1].empty(); } return true;
    }
    void apply(int c) {
        V &a = *q[0], &b = *q[1]; bool k = false;
        switch (c) {
            case 0: q[0].reset(new V); m[0].clear(); if (q[0]->capacity() != 0) err = "capacity of an empty vector is not zero"; break;
            case 1: q[0].reset(new V(sz[1])); m[0].clear(); fill(0, 0); if (m[0].size() != sz[1]) err = "size"; break; case 2: q[0].reset(new V(int(sz[2]))); m[0].clear(); fill(0, 0); if (m[0].size() != sz[2]) err = "size"; break;
            case 3: q[0].reset(new V({El<T>::mk(1), El<T>::mk(0), El<T>::mk(3), El<T>::mk(1), El<T>::mk(4)})); m[0] = {1, 0, 3, 1, 4}; if (B) for (int& i : m[0]) i &= 1; break;
            case 4: q[0].reset(new V(b)); m[0] = m[1]; break; case 5: { V t(b); q[0].reset(new V(std::move(t))); m[0] = m[1]; } break;
            case 6: { V& r = (a = b); if (&r != &a) err = "assignment returns another vector"; m[0] = m[1]; } break; case 7: b = a; m[1] = m[0]; break; case 8: { const V& r = a; a = r; } break;
            case 9: a = std::move(b); m[0] = m[1]; q[1].reset(new V); m[1].clear(); break; case 10: { vector<int> t(sz[1]); for (int& i : t) i = val(); a = ret(t); m[0] = t; } break;
            case 11: { const void *da = data(a), *db = data(b); size_t ca = a.capacity(), cb = b.capacity(); a.swap(b); std::swap(m[0], m[1]); if (a.capacity() != cb || b.capacity() != ca || (cb && data(a) != db) || (ca && data(b) != da)) err = "swap did not exchange the memory"; } break; case 12: a.swap(a); break;
            case 13: { int v = val(); a.push_back(El<T>::mk(v)); m[0].push_back(v); } break; case 14: { int v = val(); b.push_back(El<T>::mk(v)); m[1].push_back(v); } break; case 15: a.push_back(a[0]); m[0].push_back(int(m[0][0])); break;
            case 16: a.push_vector(b); m[0].insert(m[0].end(), m[1].begin(), m[1].end()); break; case 17: { a.push_vector(a); vector<int> t = m[0]; m[0].insert(m[0].end(), t.begin(), t.end()); } break;
            case 18: { std::vector<T> t; for (int i = 0; i < 3; i++) { int v = val(); t.push_back(El<T>::mk(v)); m[0].push_back(v); } a.push_vector(t); } break;
            case 19: resize(0, sz[0], 0); break; case 20: resize(0, sz[1], 1); break; case 21: resize(0, sz[2], 0); break; case 22: resize(0, sz[3], 2); break; case 23: resize(0, sz[4], 0); break; case 24: resize(1, sz[2], 0); break; 
            case 25: a.clear(); m[0].clear(); if (a.capacity() != 0) err = "capacity is not zero after clear"; break;
            case 26: { int v = val(); a[m[0].size() - 1] = El<T>::mk(v); m[0].back() = v; } break; case 27: { int v = val(); b[0] = El<T>::mk(v); m[1][0] = v; } break; case 28: a[0] = b[m[1].size() - 1]; m[0][0] = m[1].back(); break; case 29: a[0] = a[int(m[0].size()) - 1]; m[0][0] = m[0].back(); break;
            case 30: { const V& r = a; if (!throws([&] { T t = r[m[0].size()]; (void)t; }, nullptr, &k) || !k) err = "index too large was not reported"; } break; case 31: if (!throws([&] { a[m[0].size()] = El<T>::mk(1); }, nullptr, &k) || !k) err = "index too large was not reported"; break;
            case 32: if (!throws([&] { a.resize(-1); }, nullptr, &k) || !k) err = "negative size was not reported"; else { k = false; if (!throws([&] { V t(-1); }, nullptr, &k) || !k) err = "negative size in constructor was not reported"; } break;
            case 33: resize(1, m[1].size() - 1, 0); break;
        }
    }
    string check(Run& R) {
        for (int o = 0; o < 2; o++) {
            const V& r = *q[o]; R.comparisons++;
            if (r.size() != m[o].size()) return fmt("size of %c is %zu, should be %zu", 'A' + o, size_t(r.size()), m[o].size()); if (r.capacity() < r.size()) return "capacity is less than size";
            for (size_t i = 0; i < m[o].size(); i++) if (El<T>::of(r[i]) != m[o][i]) return fmt("element %zu of %c is %d, should be %d", i, 'A' + o, El<T>::of(r[i]), m[o][i]);
            string want; if (std::is_same<V, CppAD::vectorBool>::value) for (int i : m[o]) want += char('0' + i); else { std::ostringstream w; w << "{ "; for (size_t i = 0; i < m[o].size(); i++) w << (i ? ", " : "") << El<T>::mk(m[o][i]); w << " }"; want = w.str(); }
            if (m[o].size() < 70) { std::ostringstream s; s << r; if (s.str() != want) return "output is " + s.str(); }
        }
        return extra(R, *q[0], *q[1]);
    }
    template <class U> string extra(Run& R, CppAD::vector<U>& a, CppAD::vector<U>& b) {
        const CppAD::vector<U>& ca = a; size_t i = 0; for (auto it = ca.begin(); it != ca.end(); ++it, ++i) if (&*it != &ca[i] || &ca[i] != ca.data() + i) return "iterator or data does not give the element"; if (i != a.size()) return "number of elements by iterator";
        R.comparisons++; if (a.size() == b.size()) { bool f[6] = {true, true, true, true, true, true}; for (i = 0; i < a.size(); i++) { T x = El<T>::mk(m[0][i]), y = El<T>::mk(m[1][i]); f[0] &= x == y; f[1] &= x != y; f[2] &= x < y; f[3] &= x <= y; f[4] &= x > y; f[5] &= x >= y; }
            if ((a == b) != f[0] || (a != b) != f[1] || (a < b) != f[2] || (a <= b) != f[3] || (a > b) != f[4] || (a >= b) != f[5]) return "comparison of vectors is wrong"; }
        else { bool k = false; if (!throws([&] { (void)(a == b); }, nullptr, &k) || !k) return "comparison of different sizes was not reported"; }
        return "";
    }
    string extra(Run&, CppAD::vectorBool&, CppAD::vectorBool&) { return ""; }
    uint64_t hash() const { uint64_t h = 3; for (int o = 0; o < 2; o++) { size_t n = m[o].size(), c = q[o]->capacity(); h = hash_bytes(&n, 8, h); h = hash_bytes(&c, 8, h); h = hash_bytes(m[o].data(), n * sizeof(int), h); } return h; }
};
template <class V, class T, bool B> static void vec_seq(Run& R, const string& name, vector<size_t> sz, int depth) {
    if (!R.family(name)) return;
    typedef Vecs<V, T, B> P; typedef CppAD::thread_alloc ta;
    // legality depends on sizes only, but the capacity is needed to know the words: decide while running
    std::function<void(vector<int>&)> rec = [&](vector<int>& code) {
        vector<bool> ok; string e; size_t use0 = ta::inuse(0); long live0 = Trk::live; Trk::bad = "";
        { P p(sz); try { for (size_t i = 0; i < code.size() && e.empty(); i++) { if (!p.legal(code[i])) return; p.apply(code[i]); e = p.err; } if (e.empty()) e = p.check(R); saw(R, p.hash()); for (int c = 0; c < P::NOP; c++) ok.push_back(p.legal(c)); } catch (CppadError& x) { e = x.what(); } }
        R.transitions += code.size();
        if (e.empty() && Trk::bad.size()) e = Trk::bad; if (e.empty() && Trk::live != live0) e = fmt("%ld elements were not destroyed", Trk::live - live0); if (e.empty() && ta::inuse(0) != use0) e = fmt("%zu bytes were not released", ta::inuse(0) - use0);
        if (e.size()) { string d; for (int c : code) d += P::name(c) + "; "; R.fail("after " + d + e); return; }
        if (int(code.size()) == depth) return;
        for (int c = 0; c < P::NOP && !R.case_failed; c++) if (ok[c]) { code.push_back(c); rec(code); code.pop_back(); }
    };
    for (int a = 0; a < P::NOP; a++) for (int b = 0; b < P::NOP; b++) { if (!R.next([=] { return P::name(a) + "; " + P::name(b) + fmt("; all continuations to depth %d", depth); })) continue; vector<int> code{a, b}; rec(code); }
}
template <class T> static void iterators(Run& R, const string& name) {
    if (!R.family(name)) return;
    typedef CppAD::vector<T> V; typedef typename V::iterator I; typedef typename V::const_iterator C;
    for (int n = 0; n <= 5; n++) for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) {
        if (!R.next([=] { return fmt("n %d positions %d %d", n, i, j); })) continue;
        V v(n), w(n); for (int k = 0; k < n; k++) { v[k] = El<T>::mk(k + 1); w[k] = El<T>::mk(k + 1); } const V& cv = v; saw(R, n * 100 + i * 10 + j);
        auto t = [&](bool ok, const char* s) { R.comparisons++; if (!ok) R.fail(s); };
        try {
            I a = v.begin() + i, b = v.begin(); b += j; C ca = cv.begin() + i, cb = cv.end() - (n - j), cc(b);
            t(a - b == i - j && ca - cb == i - j, "difference"); t((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "comparison");
            t((ca == cb) == (i == j) && (ca != cb) == (i != j) && (ca < cb) == (i < j) && (ca <= cb) == (i <= j) && (ca > cb) == (i > j) && (ca >= cb) == (i >= j), "const comparison"); t(cc == cb, "conversion");
            if (j < n) { t(&*b == v.data() + j && &*cb == cv.data() + j, "dereference"); I d = b; t(d++ == b && d == b + 1, "post increment"); d = b; t(++d == b + 1, "pre increment"); C e = cb; t(e++ == cb && e - cb == 1, "const post increment"); t(1 + b == b + 1, "sum in other order"); }
            if (j > 0) { I d = b; t(d-- == b && d == b - 1, "post decrement"); d = b; t(--d == b - 1, "pre decrement"); d = b; d -= 1; t(b - d == 1, "minus"); }
            for (int k = -i; k < n - i; k++) { t(&a[std::ptrdiff_t(k)] == v.data() + i + k, "index"); if (k >= 0) t(&a[size_t(k)] == v.data() + i + k && &ca[size_t(k)] == v.data() + i + k, "index by size_t"); }
            if (i < n && j < n && i != j) { T s = v[i], r = v[j]; std::swap(*a, *b); t(El<T>::of(v[i]) == El<T>::of(r) && El<T>::of(v[j]) == El<T>::of(s), "write by iterator"); std::swap(v[i], v[j]); }
            bool k = false; if (i == n) { t(throws([&] { T x = *a; (void)x; }, nullptr, &k) && k, "dereference of end was not reported"); k = false; t(throws([&] { T x = *ca; (void)x; }, nullptr, &k) && k, "const dereference of end was not reported"); }
            if (i == 0) { I d = a; --d; k = false; t(throws([&] { T x = *d; (void)x; }, nullptr, &k) && k, "dereference before begin was not reported"); }
            k = false; I o = w.begin(); t(throws([&] { (void)(a == o); }, nullptr, &k) && k, "comparison of iterators of two vectors was not reported"); k = false; t(throws([&] { (void)(a < o); }, nullptr, &k) && k, "comparison < of iterators of two vectors was not reported");
            // the iterator follows the vector
            if (i < n) { size_t cap = v.capacity(); while (v.capacity() == cap) v.push_back(El<T>::mk(7)); t(&*a == v.data() + i && El<T>::of(*a) == i + 1, "iterator after growth"); v.resize(i); k = false; t(throws([&] { T x = *a; (void)x; }, nullptr, &k) && k, "dereference beyond the new size was not reported"); }
        } catch (CppadError& x) { R.fail(x.what()); }
    }
    if (!R.family(name + "/sort")) return;
    for (int n = 0; n <= 6; n++) { vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i + 1; do { if (!R.next([=] { string d = "permutation"; for (int i : p) d += fmt(" %d", i); return d; })) continue; V v(n); for (int i = 0; i < n; i++) v[i] = El<T>::mk(p[i]); saw(R, hash_bytes(p.data(), 4 * n));
        try { std::sort(v.begin(), v.end()); for (int i = 0; i < n; i++) { R.comparisons++; if (El<T>::of(v[i]) != i + 1) R.fail("sort"); } std::reverse(v.begin(), v.end()); for (int i = 0; i < n; i++) if (El<T>::of(v[i]) != n - i) R.fail("reverse"); } catch (CppadError& x) { R.fail(x.what()); } } while (std::next_permutation(p.begin(), p.end())); }
}
static void vectors(Run& R) {
    bool th = R.thorough(); int d = th ? 4 : 3;
    size_t c0 = CppAD::vector<Trk>(1).capacity(), c1 = CppAD::vector<Trk>(c0 + 1).capacity(), e0 = CppAD::vector<double>(1).capacity(), s0 = CppAD::vector<string>(1).capacity();
    for (int hold = 0; hold < 2; hold++) {
        CppAD::thread_alloc::hold_memory(hold); string h = hold ? "/hold" : "";
        vec_seq<CppAD::vector<Trk>, Trk, false>(R, "class" + h, {0, 1, c0, c0 + 1, c1 + 1}, hold ? d : 4);
        vec_seq<CppAD::vector<double>, double, false>(R, "double" + h, {0, 1, e0, e0 + 1, e0 - 1}, d);
        vec_seq<CppAD::vector<string>, string, false>(R, "string" + h, {0, 1, s0, s0 + 1, 2 * s0}, d);
        vec_seq<CppAD::vector<bool>, bool, true>(R, "bool" + h, {0, 1, 2, 128, 129}, d);
        vec_seq<CppAD::vectorBool, bool, true>(R, "vectorBool" + h, {0, 1, 64, 65, 63}, d);
        size_t cap = CppAD::vectorBool(1).capacity();
        vec_seq<CppAD::vectorBool, bool, true>(R, "vectorBoolL" + h, {0, 64, cap, cap + 1, cap - 1}, hold ? d : 4);
    }
    CppAD::thread_alloc::hold_memory(false);
    iterators<Trk>(R, "itr/class"); iterators<double>(R, "itr/double");
}
// ---------------------------------------------------------------------------------------------- thread_alloc
static size_t g_thread = 0; static bool g_par = false;
static size_t thread_num() { return g_thread; } static bool in_parallel() { return g_par; }
struct Blk { unsigned char* p; size_t min, cap, thread, n; unsigned char pat; int kind; };          // kind 0 memory, 1 array of Trk, 2 array of double
static void alloc(Run& R) {
    typedef CppAD::thread_alloc ta;
    size_t cap1, cap2, cap3; { void* a = ta::get_memory(1, cap1); void* b = ta::get_memory(cap1 + 1, cap2); void* c = ta::get_memory(cap2 + 1, cap3); ta::return_memory(a); ta::return_memory(b); ta::return_memory(c); }
    const int NOP = 25; const size_t T = 3;
    static const char* nm[NOP] = {"get(1)", "get(cap1)", "get(cap1+1)", "get(0)", "get(cap2)", "array<class>(1)", "array<class>(cap1/size+1)", "array<double>(3)", "return first", "return last", "return second", "hold(true)", "hold(false)", "free_available(0)", "free_available(1)", "free_available(2)", "thread 0", "thread 1", "thread 2", "parallel on", "parallel off", "free_all", "setup(2)", "return twice", "free all but the last"};
    std::map<size_t, size_t> capof;
    struct St { std::list<Blk> live; vector<std::multiset<void*>> av; vector<std::map<void*, size_t>> avcap; bool hold = false; size_t thread = 0; bool par = false; size_t nthread = 3; };
    auto legal = [&](const St& s, int c) -> bool {
        auto own = [&](size_t t) { return !s.par || t == s.thread; }; auto it = s.live.begin();
        switch (c) { case 8: return s.live.size() && own(s.live.front().thread); case 9: return s.live.size() > 1 && own(s.live.back().thread); case 10: return s.live.size() > 2 && own((++it)->thread); case 11: return !s.hold; case 12: return s.hold; case 13: return own(0); case 14: return own(1); case 15: return own(2);
            case 16: return s.thread != 0; case 17: return s.thread != 1; case 18: return s.thread != 2 && s.nthread > 2; case 19: return !s.par; case 20: return s.par; case 21: return !s.par; case 22: { if (s.par || s.thread > 1 || s.nthread == 2) return false; for (auto& b : s.live) if (b.thread > 1) return false; return true; }
            case 23: return false; case 24: { if (s.live.size() < 2) return false; for (auto& b : s.live) if (!own(b.thread)) return false; return true; } } return true;
    };
    auto run = [&](const vector<int>& code, vector<bool>& ok) -> string {
        St s; s.av.resize(T); s.avcap.resize(T); string e; unsigned char pat = 1; Trk::bad = ""; long live0 = Trk::live;
        g_thread = 0; g_par = false; ta::parallel_setup(T, in_parallel, thread_num); ta::hold_memory(false); vector<size_t> base(T); for (size_t t = 0; t < T; t++) { ta::free_available(t); base[t] = ta::inuse(t); }
        auto see = [&] { g_thread = s.thread; g_par = s.par; };
        auto get = [&](size_t min, int kind) {
            Blk b; b.min = min; b.kind = kind; b.thread = s.thread; b.n = 0; size_t av0 = ta::available(s.thread), in0 = ta::inuse(s.thread);
            if (kind == 0) b.p = (unsigned char*)ta::get_memory(min, b.cap);
            else if (kind == 1) { long l = Trk::live; b.p = (unsigned char*)ta::create_array<Trk>(min, b.n); if (Trk::live != l + long(b.n)) e = "create_array did not construct its elements"; b.cap = ta::inuse(s.thread) - in0; if (b.n < min || b.cap < b.n * sizeof(Trk) || b.cap >= (b.n + 1) * sizeof(Trk)) e = fmt("create_array: %zu elements in %zu bytes", b.n, b.cap); min *= sizeof(Trk); }
            else { b.p = (unsigned char*)ta::create_array<double>(min, b.n); for (size_t i = 0; i < b.n; i++) if (((double*)b.p)[i] != 0.0) e = "create_array<double>: element not zero"; b.cap = ta::inuse(s.thread) - in0; min *= sizeof(double); }
            if (b.cap < min) e = fmt("capacity %zu for %zu bytes", b.cap, min);
            size_t& c = capof[min]; if (c == 0) c = b.cap; if (c != b.cap) e = "capacity differs from that of an earlier call with the same size";
            if (ta::inuse(s.thread) != in0 + b.cap) e = fmt("inuse grows by %zu for a capacity of %zu", ta::inuse(s.thread) - in0, b.cap);
            if (size_t(b.p) % sizeof(size_t)) e = "memory is not aligned";
            for (auto& o : s.live) if (b.p < o.p + o.cap && o.p < b.p + b.cap) e = "memory overlaps a block in use";
            bool have = false; for (auto& a : s.avcap[s.thread]) have |= a.second == b.cap;
            for (size_t t = 0; t < T; t++) { auto f = s.avcap[t].find(b.p); if (f != s.avcap[t].end()) { if (t != s.thread) e = "memory that is available to another thread was used"; if (f->second != b.cap) e = "available memory of another capacity was used"; if (ta::available(s.thread) != av0 - b.cap) e = "available does not shrink when its memory is used"; s.avcap[t].erase(f); have = false; break; } else if (t == s.thread && !have && ta::available(s.thread) != av0) e = "available changes"; }
            if (have) e = "available memory of this capacity was not used";
            b.pat = ++pat; if (kind == 0) memset(b.p, b.pat, b.cap); else if (kind == 1) for (size_t i = 0; i < b.n; i++) ((Trk*)b.p)[i].v = b.pat; else for (size_t i = 0; i < b.n; i++) ((double*)b.p)[i] = b.pat;
            s.live.push_back(b);
        };
        auto intact = [&](const Blk& b) { if (b.kind == 0) { for (size_t i = 0; i < b.cap; i++) if (b.p[i] != b.pat) return false; } else if (b.kind == 1) { for (size_t i = 0; i < b.n; i++) if (((Trk*)b.p)[i].v != b.pat || ((Trk*)b.p)[i].self != (Trk*)b.p + i) return false; } else for (size_t i = 0; i < b.n; i++) if (((double*)b.p)[i] != b.pat) return false; return true; };
        auto ret = [&](std::list<Blk>::iterator it) { Blk b = *it; if (!intact(b)) e = "the contents of a block changed"; s.live.erase(it); if (b.kind == 0) ta::return_memory(b.p); else if (b.kind == 1) { long l = Trk::live; ta::delete_array((Trk*)b.p); if (Trk::live != l - long(b.n)) e = "delete_array did not destroy its elements"; } else ta::delete_array((double*)b.p); if (s.hold) s.avcap[b.thread][b.p] = b.cap; };
        auto account = [&] {
            for (auto& b : s.live) if (!intact(b)) { e = "the contents of a block changed"; return; }
            for (size_t t = 0; t < T; t++) { if (s.par && t != s.thread) continue; size_t in = base[t], av = 0; for (auto& b : s.live) if (b.thread == t) in += b.cap; for (auto& a : s.avcap[t]) av += a.second; R.comparisons++; if (ta::inuse(t) != in) { e = fmt("inuse(%zu) is %zu, should be %zu", t, ta::inuse(t), in); return; } if (ta::available(t) != av) { e = fmt("available(%zu) is %zu, should be %zu", t, ta::available(t), av); return; } }
        };
        auto op = [&](int c) {
            size_t a = sizeof(Trk); bool k = false;
            switch (c) { case 0: get(1, 0); break; case 1: get(cap1, 0); break; case 2: get(cap1 + 1, 0); break; case 3: get(0, 0); break; case 4: get(cap2, 0); break; case 5: get(1, 1); break; case 6: get(cap1 / a + 1, 1); break; case 7: get(3, 2); break;
                case 8: ret(s.live.begin()); break; case 9: ret(--s.live.end()); break; case 10: ret(++s.live.begin()); break; case 11: case 12: s.hold = c == 11; ta::hold_memory(s.hold); break;
                case 13: case 14: case 15: ta::free_available(c - 13); s.avcap[c - 13].clear(); break; case 16: case 17: case 18: s.thread = c - 16; see(); if (ta::thread_num() != s.thread) e = "thread_num"; break; case 19: case 20: s.par = c == 19; see(); if (ta::in_parallel() != s.par) e = "in_parallel"; break;
                case 21: { bool want = true; for (size_t t = 0; t < T; t++) want &= base[t] == 0; want &= s.live.empty(); bool got = ta::free_all(); for (auto& m : s.avcap) m.clear(); if (got != want) e = fmt("free_all returns %d", got); } break;
                case 22: ta::parallel_setup(2, in_parallel, thread_num); s.nthread = 2; s.avcap[s.thread].clear(); if (ta::num_threads() != 2) e = "num_threads"; break;
                case 23: { unsigned char* p = s.live.front().p; bool hold = s.hold; if (!hold) { s.hold = true; ta::hold_memory(true); } ret(s.live.begin()); if (!throws([&] { ta::return_memory(p); }, nullptr, &k) || !k) e = "a second return of the same memory was not reported"; if (!hold) { s.hold = false; ta::hold_memory(false); } } break;
                case 24: while (s.live.size() > 1 && e.empty()) ret(s.live.begin()); break; }
        };
        try { size_t i = 0; for (int c : code) { if (!legal(s, c)) { ok.clear(); break; } op(c); if (e.empty()) account(); if (e.size()) break; i++; } if (i == code.size()) for (int c = 0; c < NOP; c++) ok.push_back(legal(s, c)); } catch (CppadError& x) { e = x.what(); }
        // state: what is live, held and set
        { uint64_t h = 13; for (auto& b : s.live) { size_t v[3] = {b.cap, b.thread, size_t(b.kind)}; h = hash_bytes(v, 24, h); } for (auto& m : s.avcap) { h = h * 31 + 7; vector<size_t> c; for (auto& a : m) c.push_back(a.second); std::sort(c.begin(), c.end()); h = hash_bytes(c.data(), 8 * c.size(), h); } size_t v[4] = {s.hold, s.thread, s.par, s.nthread}; saw(R, hash_bytes(v, 32, h)); }
        s.par = false; s.thread = 0; see(); string e1 = e; e = "";
        try { while (s.live.size()) ret(s.live.begin()); if (e1.empty()) account(); if (!ta::free_all() && e.empty()) e = "free_all is false when everything was returned"; for (auto& m : s.avcap) m.clear(); if (e1.empty() && e.empty()) account(); } catch (CppadError& x) { e = x.what(); }
        ta::hold_memory(false); ta::parallel_setup(1, nullptr, nullptr); if (e1.empty()) e1 = e; if (e1.empty() && Trk::bad.size()) e1 = Trk::bad; if (e1.empty() && Trk::live != live0) e1 = "elements were not destroyed";
        return e1;
    };
    // memory that is in use before the first case would make free_all false
    if (R.family("clean")) if (R.next([] { return "no memory in use before the start"; })) { saw(R, 1); R.comparisons++; if (ta::inuse(0) != 0) R.fail("memory in use"); }
    int depth = R.thorough() ? 6 : 5; if (!R.family("seq")) return;
    std::function<void(vector<int>&)> rec = [&](vector<int>& code) {
        vector<bool> ok; string e = run(code, ok); R.transitions += code.size();
        if (e.size()) { string d; for (int c : code) d += string(nm[c]) + "; "; R.fail("after " + d + e); return; }
        if (ok.empty() || int(code.size()) == depth) return;
        for (int c = 0; c < NOP && !R.case_failed; c++) if (ok[c]) { code.push_back(c); rec(code); code.pop_back(); }
    };
    for (int a = 0; a < NOP; a++) for (int b = 0; b < NOP; b++) { if (!R.next([=] { return string(nm[a]) + "; " + nm[b] + fmt("; all continuations to depth %d", depth); })) continue; vector<int> code{a, b}; rec(code); }
    // every size up to beyond the second boundary, and around every power of two and of 3/2
    if (R.family("sizes")) { vector<size_t> z; for (size_t i = 0; i <= cap3 + 1; i++) z.push_back(i); for (int p = 8; p < 26; p++) for (int d = -1; d <= 1; d++) { z.push_back((size_t(1) << p) + d); z.push_back((size_t(3) << (p - 1)) + d); } 
        for (size_t n : z) for (int hold = 0; hold < 2; hold++) { if (!R.next([=] { return fmt("get_memory(%zu) hold %d", n, hold); })) continue; ta::hold_memory(hold); size_t in0 = ta::inuse(0), av0 = ta::available(0), cap, cap_2; 
            try { unsigned char* p = (unsigned char*)ta::get_memory(n, cap); saw(R, cap); if (cap < n) R.fail("capacity too small"); else { memset(p, 5, cap); if (ta::inuse(0) != in0 + cap) R.fail("inuse"); unsigned char* q = (unsigned char*)ta::get_memory(cap, cap_2); if (cap_2 != cap) R.fail("get_memory(cap) has another capacity"); memset(q, 6, cap_2); if (p[0] != 5 || p[cap - 1] != 5) R.fail("contents changed"); ta::return_memory(p); if (q[0] != 6 || q[cap - 1] != 6) R.fail("contents changed"); ta::return_memory(q); }
                R.comparisons += 4; if (ta::inuse(0) != in0) R.fail("inuse after return"); if (ta::available(0) != av0 + (hold ? 2 * cap : 0)) R.fail("available after return"); ta::free_available(0); if (ta::available(0) != 0) R.fail("available after free_available"); } catch (CppadError& x) { R.fail(x.what()); } }
        ta::hold_memory(false); }
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler handler(throw_handler);
    return guarded_main(R, [&] {
        if (R.has_arg("setvec")) { using namespace CppAD::local::sparse; set_class<pack_setvec>(R, "pack"); set_class<list_setvec>(R, "list"); set_class<size_setvec<unsigned int>>(R, "size", !R.thorough()); }
        else if (R.has_arg("sparse")) sparse(R);
        else if (R.has_arg("vector")) vectors(R);
        else if (R.has_arg("alloc")) alloc(R);
    });
}
