// C23: pairs and triples of thread programs on the real library. Every memory access is checked for conflicts that
// no synchronisation orders, and every interleaving at the marked points up to the preemption bound must give each
// thread exactly what it gets alone. Each execution is a forked process.
#include "thr.hpp"
#include "vfc.hpp"
#include <sys/wait.h>
using namespace vf; using std::string; using trt::sh; using CppAD::thread_alloc;
static std::vector<thr::Program> progs; static int g_prog[trt::MAXT];
static bool par() { return trt::in_parallel(); }
static size_t num() { return size_t(trt::self()); }
namespace thr { void append(const char* s, size_t n) { int t = trt::self(); size_t& k = sh->nlog[t]; if (k + n > sizeof sh->log[t]) { k = sizeof sh->log[t]; return; } memcpy(sh->log[t] + k, s, n); k += n; } }
static void body(int t) {
    if (g_prog[t] < 0) return;
    try { progs[g_prog[t]].run(t); }
    catch (std::exception& e) { snprintf(sh->error[t], sizeof sh->error[t], "%s", e.what()); }
}
struct Exec { int status = 0; string race, err, log[trt::MAXT], end; std::vector<trt::Decision> dec; };
static int NT = 2; static bool g_hold;
static Exec execute(const std::vector<int>& who, const std::vector<uint8_t>& choice, Run& R) {
    memset(sh, 0, offsetof(trt::Shared, error)); memset(sh->error, 0, sizeof sh->error); memset(sh->nlog, 0, sizeof sh->nlog); sh->end[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        alarm(60); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        for (int t = 0; t < trt::MAXT; t++) g_prog[t] = t >= 1 && t <= (int)who.size() ? who[t - 1] : -1;
        trt::fresh_memory(true); thread_alloc::hold_memory(g_hold);
        trt::run((int)who.size(), body, choice.data(), (int)choice.size());
        try {
            string s;
            for (size_t t = 1; t <= who.size(); t++) { s += fmt("thread %zu: inuse %zu available %zu\n", t, thread_alloc::inuse(t), thread_alloc::available(t)); }
            thr::teardown_a(); thr::teardown_b(); thr::teardown_c(); thr::teardown_d();
            thread_alloc::hold_memory(false);
            for (size_t t = 1; t <= who.size(); t++) { thread_alloc::free_available(t); s += fmt("thread %zu: inuse %zu available %zu at the end\n", t, thread_alloc::inuse(t), thread_alloc::available(t)); }
            snprintf(sh->end, sizeof sh->end, "%s", s.c_str());
        } catch (std::exception& e) { snprintf(sh->error[0], sizeof sh->error[0], "after the threads: %s", e.what()); }
        _exit(0);
    }
    Exec x; if (pid < 0) { x.status = 1; x.err = "fork"; return x; }
    while (waitpid(pid, &x.status, 0) < 0 && errno == EINTR) ;
    if (sh->nrace) x.race = fmt("%d conflicting accesses; first: ", sh->nrace) + sh->race;
    for (int t = 0; t < trt::MAXT; t++) { if (sh->error[t][0]) x.err += fmt("thread %d: ", t) + sh->error[t]; x.log[t].assign(sh->log[t], sh->nlog[t]); }
    x.end = sh->end; for (int d = 0; d < sh->ndec && d < trt::MAXD; d++) x.dec.push_back(sh->dec[d]);
    R.transitions += sh->ndec; R.count["accesses"] += sh->accesses; R.count["sync_operations"] += sh->syncs; R.count["executions"]++;
    if (sh->accesses > R.count["max_accesses"]) R.count["max_accesses"] = sh->accesses; if (sh->bytes > R.count["max_heap_bytes"]) R.count["max_heap_bytes"] = sh->bytes;
    return x;
}
static std::map<std::pair<int, int>, Exec> alone;
static Exec& ref(int p, int t, Run& R) {
    auto k = std::make_pair(p * 2 + g_hold, t); auto i = alone.find(k); if (i != alone.end()) return i->second;
    std::vector<int> who(t, -1); who[t - 1] = p; return alone[k] = execute(who, {}, R);
}
static string endline(const string& s, int t, bool fin) { std::istringstream is(s); string l; while (getline(is, l)) if (!l.compare(0, fmt("thread %d:", t).size(), fmt("thread %d:", t)) && (l.find("at the end") != string::npos) == fin) return l; return ""; }
static string judge(const std::vector<int>& who, const Exec& x, Run& R) {
    if (x.race.size()) return x.race;
    if (!WIFEXITED(x.status) || WEXITSTATUS(x.status)) return fmt("process ended with status %d ", x.status) + x.err;
    if (x.err.size()) return x.err;
    for (size_t i = 0; i < who.size(); i++) {
        int t = int(i) + 1; Exec& a = ref(who[i], t, R); R.comparisons++;
        if (x.log[t] != a.log[t]) { size_t k = 0; while (k < x.log[t].size() && k < a.log[t].size() && x.log[t][k] == a.log[t][k]) k++; size_t b = k > 60 ? k - 60 : 0; return fmt("thread %d (%s) gets \"%s\", alone \"%s\"", t, progs[who[i]].name, x.log[t].substr(b, 160).c_str(), a.log[t].substr(b, 160).c_str()); }
        if (endline(x.end, t, false) != endline(a.end, t, false)) return "memory: " + endline(x.end, t, false) + ", alone " + endline(a.end, t, false);
        string e = endline(x.end, t, true); if (e != fmt("thread %d: inuse 0 available 0 at the end", t)) return "memory after everything is freed: " + e;
    }
    return "";
}
// all schedules with at most bound preemptions; cap is a safety limit only
static void explore(Run& R, const std::vector<int>& who, int bound) {
    struct Item { std::vector<uint8_t> c; int pre; }; std::vector<Item> todo; todo.push_back({{}, 0}); uint64_t h = 0;
    while (!todo.empty()) {
        Item it = todo.back(); todo.pop_back(); Exec x = execute(who, it.c, R); R.states++; R.count["schedules"]++; string e = judge(who, x, R);
        if (e.size()) { string s; for (auto& d : x.dec) s += char('0' + d.chosen); R.fail(e + " [schedule " + s + "]"); return; }
        for (int t = 1; t <= (int)who.size(); t++) h = hash_bytes(x.log[t].data(), x.log[t].size(), h);
        for (size_t d = it.c.size(); d < x.dec.size(); d++) for (int t = 1; t <= (int)who.size(); t++) if (t != x.dec[d].chosen && (x.dec[d].enabled >> t & 1)) {
            int pre = it.pre + (x.dec[d].forced ? 0 : 1); if (pre > bound) continue;
            Item n; n.pre = pre; for (size_t k = 0; k < d; k++) n.c.push_back(x.dec[k].chosen); n.c.push_back(t); todo.push_back(n); }
    }
    R.outcome(h);
}
int main(int argc, char** argv) {
    Run R(argc, argv); CppAD::ErrorHandler eh(throw_handler);
    sh = (trt::Shared*)mmap(0, sizeof(trt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    thread_alloc::parallel_setup(trt::MAXT, par, num); thread_alloc::hold_memory(true); CppAD::parallel_ad<double>(); CppAD::parallel_ad<thr::A1>();
    thr::setup_a(); thr::setup_b(); thr::setup_c(); thr::setup_d(); thr::reg_a(progs); thr::reg_b(progs); thr::reg_c(progs); thr::reg_d(progs);
    return guarded_main(R, [&] {
        int n = (int)progs.size(); bool th = R.thorough();
        for (int hold = 0; hold < 2; hold++) { g_hold = hold; if (!R.family(hold ? "alone_hold" : "alone")) continue;
            for (int t = 1; t < trt::MAXT; t++) for (int p = 0; p < n; p++) if (R.next([&] { return fmt("%s as thread %d", progs[p].name, t); })) {
                Exec x = ref(p, t, R); string e = x.race; if (e.empty() && (!WIFEXITED(x.status) || WEXITSTATUS(x.status))) e = fmt("process ended with status %d ", x.status); e += x.err; R.states++; if (e.empty() && x.log[t].empty()) e = "no result";
                if (e.empty()) { string l = endline(x.end, t, true); if (l != fmt("thread %d: inuse 0 available 0 at the end", t)) e = "memory after everything is freed: " + l; }
                if (e.empty()) { Exec y = execute([&] { std::vector<int> w(t, -1); w[t - 1] = p; return w; }(), {}, R); if (y.log[t] != x.log[t]) e = "a second run gives other results"; }
                if (e.size()) R.fail(e); R.outcome(hash_bytes(x.log[t].data(), x.log[t].size())); } }
        for (int hold = 0; hold < 2; hold++) { g_hold = hold; if (!R.family(hold ? "pair_hold" : "pair")) continue;
            for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) { if (hold != (p + q) % 2 && !th) continue; if (p > q && !th) continue;
                if (R.next([&] { return fmt("%s | %s", progs[p].name, progs[q].name); })) explore(R, {p, q}, th ? 2 : 1); } }
        g_hold = false;
        if (R.family("triple")) for (int p = 0; p < n; p++) for (int q = p; q < n; q++) for (int r = q; r < n; r++) { if (!th && !(p == q && q == r)) continue;
            if (R.next([&] { return fmt("%s | %s | %s", progs[p].name, progs[q].name, progs[r].name); })) explore(R, {p, q, r}, th && p == q && q == r ? 1 : 0); }
    });
}
