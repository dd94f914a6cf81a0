// Not instrumented. The library and the thread programs are compiled with clang -fsanitize=thread and linked with
// the entry points below instead of the sanitizer's runtime, so every memory access is seen, none is sampled, and
// no access is forgotten: two accesses conflict when they overlap, one writes, and they are not ordered by
// thread creation, thread end, atomic variables, mutexes or guards of static variables.
#include "trt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <unordered_map>
#include <atomic>
#include <dlfcn.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
namespace trt {
Shared* sh = nullptr;
static thread_local int tid = 0;
static thread_local char *stk_lo = nullptr, *stk_hi = nullptr;
static bool g_par = false, g_track = false, g_fresh = false;
typedef uint16_t Clk;
static Clk vc[MAXT][MAXT];                     // vc[t][u]: what t knows of u
struct Page { Clk w[4096], r[4096]; };
// shadow pages live outside the heap under test
static char *arena = nullptr, *arena_end = nullptr;
static void* arena_get(size_t n) {
    n = (n + 63) & ~size_t(63);
    if (!arena || arena + n > arena_end) { size_t m = size_t(64) << 20; if (n > m) m = n; arena = (char*)mmap(0, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena_end = arena + m; }
    void* p = arena; arena += n; return p;
}
static const size_t HB = 1 << 18;              // open addressing table: page number -> pages of each thread
struct Slot { uintptr_t pg; Page* p[MAXT]; };
static Slot* tab = nullptr;
static Slot* slot(uintptr_t pg) {
    static thread_local Slot* last = nullptr;
    if (last && last->pg == pg) return last;
    if (!tab) tab = (Slot*)mmap(0, HB * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t h = (pg * 0x9E3779B97F4A7C15ull) >> 46;
    while (tab[h].pg && tab[h].pg != pg) h = (h + 1) & (HB - 1);
    if (!tab[h].pg) { tab[h].pg = pg; if (sh) sh->pages++; }
    return last = tab + h;
}
static void name(char* out, size_t n, void* pc) {
    Dl_info i; if (dladdr(pc, &i) && i.dli_sname) snprintf(out, n, "%s", i.dli_sname); else snprintf(out, n, "%p", pc);
}
static const int CS = 64; static thread_local void* cstk[CS]; static thread_local int ncs = 0;
static void report(int t, int u, uintptr_t a, bool w, bool ow, void* pc) {
    if (sh->nrace++ > 0) return;
    char f[300], o[300]; name(f, 300, pc);
    Dl_info i; const char* sym = ""; if (dladdr((void*)a, &i) && i.dli_sname) sym = i.dli_sname;
    int n = snprintf(sh->race, sizeof sh->race, "thread %d %s %#lx %s in %s; thread %d %s it earlier; called from", t, w ? "writes" : "reads", (unsigned long)a, sym, f, u, ow ? "wrote" : "read");
    for (int k = ncs - 1; k >= 0 && k >= ncs - 12 && n < 2600; k--) if (k < CS) { name(o, 180, cstk[k]); n += snprintf(sh->race + n, sizeof sh->race - n, " < %s", o); }
}
static void access(const void* p, size_t n, bool w, void* pc) {
    int t = tid; if (!t || !g_track) return;
    if ((char*)p >= stk_lo && (char*)p < stk_hi) return;
    sh->accesses++;
    uintptr_t a = (uintptr_t)p;
    while (n) {
        Slot* s = slot(a >> 12); size_t o = a & 4095, k = 4096 - o < n ? 4096 - o : n;
        if (!s->p[t]) s->p[t] = (Page*)arena_get(sizeof(Page));
        for (int u = 1; u < MAXT; u++) if (u != t && s->p[u]) {
            Clk known = vc[t][u];
            for (size_t b = o; b < o + k; b++) {
                if (s->p[u]->w[b] > known) { report(t, u, a + b - o, w, true, pc); break; }
                if (w && s->p[u]->r[b] > known) { report(t, u, a + b - o, w, false, pc); break; }
            }
        }
        Clk c = vc[t][t]; Clk* d = (w ? s->p[t]->w : s->p[t]->r) + o;
        for (size_t b = 0; b < k; b++) d[b] = c;
        a += k; n -= k;
    }
}
// synchronisation objects: a clock per address
struct Sync { Clk c[MAXT]; };
struct SyncTab { uintptr_t a; Sync s; };
static SyncTab* synct = nullptr; static const size_t NS = 1 << 14;
static Sync& sync_of(const void* p) {
    if (!synct) synct = (SyncTab*)mmap(0, NS * sizeof(SyncTab), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t h = ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 50;
    while (synct[h].a && synct[h].a != (uintptr_t)p) h = (h + 1) & (NS - 1);
    synct[h].a = (uintptr_t)p; return synct[h].s;
}
static void acquire(const void* p) { int t = tid; if (!t || !g_track) return; sh->syncs++; Sync& s = sync_of(p); for (int u = 0; u < MAXT; u++) if (s.c[u] > vc[t][u]) vc[t][u] = s.c[u]; }
static void release(const void* p) { int t = tid; if (!t || !g_track) return; sh->syncs++; Sync& s = sync_of(p); for (int u = 0; u < MAXT; u++) if (vc[t][u] > s.c[u]) s.c[u] = vc[t][u]; if (vc[t][t] < 65000) vc[t][t]++; }
// scheduler
static sem_t go[MAXT], done_sem; static uint8_t fin[MAXT]; static int NT; static const uint8_t* g_choice; static int g_nc; static Body g_body;
static int decide(int cur) {            // cur = thread that just ran (0 at the start); returns the next, 0 when all are done
    uint8_t en = 0; for (int t = 1; t <= NT; t++) if (!fin[t]) en |= 1 << t;
    if (!en) return 0;
    int d = sh->ndec++, c;
    if (d < g_nc) c = g_choice[d];
    else if (cur && !fin[cur]) c = cur;
    else for (c = 1; fin[c]; c++) ;
    if (d < MAXD) { sh->dec[d].cur = cur; sh->dec[d].enabled = en; sh->dec[d].chosen = c; sh->dec[d].forced = !cur || fin[cur]; }
    if (!((en >> c) & 1)) { fprintf(stderr, "schedule chooses a finished thread\n"); _exit(96); }
    return c;
}
static void* worker(void* v) {
    tid = int(intptr_t(v));
    pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    stk_lo = (char*)lo; stk_hi = stk_lo + sz;
    while (sem_wait(&go[tid])) ;
    g_body(tid);
    fin[tid] = 1; int n = decide(tid);
    if (n) sem_post(&go[n]); else sem_post(&done_sem);
    while (sem_wait(&go[tid])) ;              // keep the stack alive until all are done
    return nullptr;
}
int self() { return tid; }
bool in_parallel() { return g_par; }
void step() {
    if (!tid || !g_par) return;
    int n = decide(tid);
    if (n != tid) { sem_post(&go[n]); while (sem_wait(&go[tid])) ; }
}
void run(int nt, Body body, const uint8_t* choice, int nc) {
    NT = nt; g_choice = choice; g_nc = nc; g_body = body; sh->ndec = 0;
    memset(vc, 0, sizeof vc); for (int t = 0; t < MAXT; t++) { vc[t][t] = 1; fin[t] = 0; sem_init(&go[t], 0, 0); } sem_init(&done_sem, 0, 0);
    pthread_t h[MAXT]; g_par = true; g_track = true;
    for (int t = 1; t <= nt; t++) if (pthread_create(&h[t], 0, worker, (void*)intptr_t(t))) { fprintf(stderr, "pthread_create\n"); _exit(96); }
    sem_post(&go[decide(0)]);
    while (sem_wait(&done_sem)) ;
    g_track = false; g_par = false;
    for (int t = 1; t <= nt; t++) sem_post(&go[t]);
    for (int t = 1; t <= nt; t++) pthread_join(h[t], 0);
}
// heap
static char *hp = nullptr, *hend = nullptr, *hbeg = nullptr; static const size_t HEAP = size_t(1) << 30;
void fresh_memory(bool on) {
    if (on && !hp) { hbeg = hp = (char*)mmap(0, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); hend = hp + HEAP; }
    g_fresh = on;
}
static void* get(size_t n) {
    if (!g_fresh) return malloc(n ? n : 1);
    n = ((n ? n : 1) + 63) & ~size_t(63);       // blocks of different threads never share a line
    if (sh) { sh->blocks++; sh->bytes += n; }
    if (hp + n > hend) return nullptr;
    void* p = hp; hp += n; return p;
}
static void put(void* p) { if ((char*)p >= hbeg && (char*)p < hend && hbeg) return; free(p); }
}
using namespace trt;
void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (ncs < CS) cstk[ncs] = pc; ncs++; }
void __tsan_func_exit() { if (ncs > 0) ncs--; }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(N) void __tsan_read##N(void* p) { access(p, N, false, PC); } void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, true, PC); } void __tsan_unaligned_read_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access(d, n, true, PC); return memset(d, c, n); }
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int) { T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); acquire((const void*)p); return v; } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { release((const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { acquire((const void*)p); release((const void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { acquire((const void*)p); release((const void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { acquire((const void*)p); release((const void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { acquire((const void*)p); release((const void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { acquire((const void*)p); release((const void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { acquire((const void*)p); release((const void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { acquire((const void*)p); release((const void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { acquire((const void*)p); release((const void*)p); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { acquire((const void*)p); release((const void*)p); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { acquire((const void*)p); release((const void*)p); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// guards of static variables, mutexes (linked with --wrap)
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); acquire(g); return r; }
void __wrap___cxa_guard_release(void* g) { release(g); __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void* g) { __real___cxa_guard_abort(g); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int r = __real_pthread_mutex_lock(m); if (!r) acquire(m); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { int r = __real_pthread_mutex_trylock(m); if (!r) acquire(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { release(m); return __real_pthread_mutex_unlock(m); }
}
