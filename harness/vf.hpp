// Common driver for every exhaustive explorer in /verif/harness.
// A harness enumerates "cases" in a fixed order, in named families; shard i of n runs the cases
// with index = i mod n, and --only FAMILY:INDEX replays exactly one case.
#ifndef VF_HPP
#define VF_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vf {

inline std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
struct Cur { char family[64]; uint64_t idx; };
static Cur* g_cur = nullptr;
static volatile uint64_t g_last = ~0ull; static volatile int g_stale = 0; static int g_hang_ticks = 20;
static char g_last_fam[64];
inline void on_tick(int) {
    if (!g_cur) return;
    if (g_last == g_cur->idx && memcmp(g_last_fam, g_cur->family, 64) == 0) {
        if (++g_stale >= g_hang_ticks) { const char m[] = "HANG\n"; (void)!write(2, m, 5); _exit(97); }
    } else { g_last = g_cur->idx; memcpy(g_last_fam, g_cur->family, 64); g_stale = 0; }
}
struct Violation { std::string family; uint64_t idx; std::string desc, msg; };

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
struct Stop {};   // thrown to end a run early

struct Run {
    std::string tier = "quick", out, only_family, only_fams; bool only = false; uint64_t only_idx = 0;
    uint64_t shard = 0, nshard = 1; std::vector<std::string> args;
    std::string fam; uint64_t idx = 0; bool in_case = false;
    std::function<std::string()> describe;
    std::vector<Violation> violations; size_t max_viol = 40; bool case_failed = false;
    std::map<std::string, uint64_t> count;            // free form counters
    std::map<std::string, uint64_t> fam_cases;
    uint64_t evaluations = 0, nontrivial = 0, states = 0, transitions = 0, comparisons = 0;
    std::unordered_set<uint64_t> outcomes; bool case_nontrivial = false;
    std::vector<std::string> samples; std::map<std::string, int> fam_samples;
    std::vector<std::string> caps;
    bool verbose = false;

    Run(int argc, char** argv) {
        std::string cur;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
            if (a == "--tier") tier = val();
            else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%lu/%lu", &shard, &nshard); }
            else if (a == "--out") out = val();
            else if (a == "--cur") cur = val();
            else if (a == "--hang") g_hang_ticks = atoi(val().c_str());
            else if (a == "--only") { std::string v = val(); size_t c = v.rfind(':'); only = true; only_family = v.substr(0, c); only_idx = strtoull(v.c_str() + c + 1, 0, 10); }
            else if (a == "--fam") only_fams = val();       // development: only families whose name starts with this
            else if (a == "-v") verbose = true;
            else args.push_back(a);
        }
        if (cur.size()) {
            int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Cur)) == 0)
                g_cur = (Cur*)mmap(0, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        }
        if (!g_cur || g_cur == MAP_FAILED) { static Cur c; g_cur = &c; }
        memset(g_cur, 0, sizeof(Cur));
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
        sigaction(SIGPROF, &sa, 0);
        struct itimerval tv; tv.it_interval.tv_sec = 2; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
        setitimer(ITIMER_PROF, &tv, 0);
    }
    bool thorough() const { return tier != "quick"; }
    bool deep() const { return tier == "deep"; }
    uint64_t g_idx() const { return g_cur->idx; }
    bool has_arg(const char* s) const { for (auto& a : args) if (a == s) return true; return false; }
    std::map<std::string, uint64_t> fam_idx;
    // start a family; false if this replay does not need it
    bool family(const std::string& f) {
        end_case(); fam_idx[fam] = idx; fam = f; idx = fam_idx[f];   // case numbers continue when a family is entered again
        if (only && f != only_family) return false;
        if (only_fams.size() && f.compare(0, only_fams.size(), only_fams)) return false;
        memset(g_cur->family, 0, 64); strncpy(g_cur->family, f.c_str(), 63);
        return true;
    }
    void end_case() {
        if (!in_case) return;
        in_case = false;
        if (case_nontrivial) nontrivial++;
    }
    // next case of the family: true if this process must run it
    template <class D> bool next(D&& d) {
        end_case();
        uint64_t i = idx++;
        if (only) { if (i != only_idx) return false; }
        else if (i % nshard != shard) return false;
        g_cur->idx = i; in_case = true; case_nontrivial = false; case_failed = false; evaluations++; fam_cases[fam]++;
        describe = std::forward<D>(d);
        int& ns = fam_samples[fam];
        if (ns < 2 && samples.size() < 40 && (fam_cases[fam] == 1 || fam_cases[fam] == 1000)) { ns++; samples.push_back(fam + ":" + std::to_string(i) + " " + describe()); }
        if (only && verbose) fprintf(stderr, "case %s:%lu %s\n", fam.c_str(), i, describe().c_str());
        return true;
    }
    void outcome(uint64_t h) { case_nontrivial = true; if (outcomes.size() < 200000) outcomes.insert(h); }
    void fail(const std::string& msg) {
        if (case_failed) return;                 // first message of a case is enough
        case_failed = true;
        Violation v{fam, g_cur->idx, describe ? describe() : "", msg};
        if (verbose || only) fprintf(stderr, "FAIL %s:%lu %s :: %s\n", fam.c_str(), v.idx, v.desc.c_str(), msg.c_str());
        violations.push_back(v);
        if (violations.size() >= max_viol) throw Stop();
    }
    // a case whose evaluation is completed later (batches)
    struct Late { std::string fam; uint64_t idx; std::string desc; };
    Late late() const { return Late{fam, g_cur->idx, describe ? describe() : ""}; }
    void focus(const Late& l) { memset(g_cur->family, 0, 64); strncpy(g_cur->family, l.fam.c_str(), 63); g_cur->idx = l.idx; }
    void fail_late(const Late& l, const std::string& msg) {
        Violation v{l.fam, l.idx, l.desc, msg}; if (verbose || only) fprintf(stderr, "FAIL %s:%lu %s :: %s\n", l.fam.c_str(), l.idx, l.desc.c_str(), msg.c_str());
        violations.push_back(v); if (violations.size() >= max_viol) throw Stop();
    }
    void check(bool ok, const char* what) { comparisons++; if (!ok) fail(what); }
    template <class F> void check(bool ok, F&& f, int) { comparisons++; if (!ok) fail(f()); }
    int finish() {
        end_case();
        FILE* o = out.size() ? fopen(out.c_str(), "w") : stdout;
        fprintf(o, "{\"evaluations\":%lu,\"nontrivial\":%lu,\"states\":%lu,\"transitions\":%lu,\"comparisons\":%lu,\n", evaluations, nontrivial, states, transitions, comparisons);
        fprintf(o, "\"counters\":{"); bool c = false; for (auto& k : count) { fprintf(o, "%s%s:%lu", c ? "," : "", jesc(k.first).c_str(), k.second); c = true; }
        fprintf(o, "},\n\"families\":{"); c = false; for (auto& k : fam_cases) { fprintf(o, "%s%s:%lu", c ? "," : "", jesc(k.first).c_str(), k.second); c = true; }
        fprintf(o, "},\n\"samples\":["); c = false; for (auto& k : samples) { fprintf(o, "%s%s", c ? "," : "", jesc(k).c_str()); c = true; }
        fprintf(o, "],\n\"caps\":["); c = false; for (auto& k : caps) { fprintf(o, "%s%s", c ? "," : "", jesc(k).c_str()); c = true; }
        fprintf(o, "],\n\"violations\":["); c = false;
        for (auto& v : violations) { fprintf(o, "%s{\"family\":%s,\"idx\":%lu,\"desc\":%s,\"msg\":%s}", c ? ",\n" : "", jesc(v.family).c_str(), v.idx, jesc(v.desc).c_str(), jesc(v.msg).c_str()); c = true; }
        fprintf(o, "],\n\"outcomes\":["); c = false;
        if (out.size()) for (auto h : outcomes) { fprintf(o, "%s%lu", c ? "," : "", h >> 11); c = true; }
        else fprintf(o, "%lu", (unsigned long)outcomes.size());
        fprintf(o, "]}\n");
        if (o != stdout) fclose(o);
        return violations.empty() ? 0 : 1;
    }
};
template <class F> int guarded_main(Run& R, F&& body) {
    try { body(); } catch (Stop&) {}
    return R.finish();
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline bool finite_(double x) { return std::isfinite(x); }
inline bool close(double a, double b, double rel = 1e-7, double abs = 1e-9) {
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs + rel * (std::fabs(a) + std::fabs(b));
}
inline bool same_double(double a, double b) { return a == b || (a != a && b != b); }
} // namespace vf
#endif
