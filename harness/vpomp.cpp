// A deterministic OpenMP runtime: exactly one thread of a team runs at a time,
// and who runs next is decided by a seeded scheduler at every runtime call and
// at every memory access of code compiled with -fsanitize=thread (this file
// also provides the access callbacks; ThreadSanitizer itself is not linked).
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <unordered_map>
#include <vector>

namespace {
struct WS { long next, end, incr, chunk; bool up; };
struct Team {
    int n; int arrived; unsigned gen;
    std::map<unsigned, WS> loops; std::map<unsigned, int> singles; void* copy;
    Team(int n) : n(n), arrived(0), gen(0), copy(0) {}
};
enum Kind { READY, BARRIER, LOCK, JOIN, DONE };
struct Ctx { Team* team; int tid; unsigned ws; WS* cur; };
struct Thr {
    sem_t sem; pthread_t th; bool made; Kind kind; unsigned gen; int volatile* lock; Team* wteam;
    void (*fn)(void*); void* data; Ctx ctx; unsigned prio; int section; bool held; void* rd[4]; unsigned nrd;
};
int const MAXT = 64;
Thr g_thr[MAXT];
int g_n = 0;                    // threads of the active outer team (0: none)
int g_cur = 0;
int g_max = 4;
int g_left = 0;
int g_crit = 0, g_atomic = 0;
std::map<void**, int> g_named;
__thread int t_self = 0;
__thread Ctx t_ctx = { 0, 0, 0, 0 };
__thread int t_off = 0;
uint64_t g_rng = 88172645463325252ULL;
int g_mode = 0; unsigned g_p = 0; long g_fair = 0; long g_until = 0; int g_victim = 0;
unsigned long g_switches = 0;
inline uint32_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return uint32_t(g_rng >> 16); }

bool runnable(Thr& t) {
    switch (t.kind) {
    case READY: return true;
    case BARRIER: return t.wteam->gen != t.gen;
    case LOCK: return *t.lock == 0;
    case JOIN: return g_left == 0;
    default: return false;
    }
}
int pick(int self, bool other) {
    int c[MAXT], m = 0;
    for (int k = 0; k < g_n; ++k) if ((k != self || !other) && runnable(g_thr[k]) && !g_thr[k].held) c[m++] = k;
    if (m == 0) for (int k = 0; k < g_n; ++k) if ((k != self || !other) && runnable(g_thr[k])) c[m++] = k;
    if (m == 0) return -1;
    switch (g_mode) {
    case 0: return c[0];
    case 6: return c[m - 1];
    case 5: { int b = c[0]; for (int k = 1; k < m; ++k) if (g_thr[c[k]].prio > g_thr[b].prio) b = c[k]; return b; }
    case 7: { int b; do b = c[rnd() % m]; while (b == g_victim && m > 1 && rnd() % 50); return b; }
    default: return c[rnd() % m];
    }
}
int pickAny(int self) {         // for busy waiting: whoever, so that the awaited thread comes to run
    int c[MAXT], m = 0;
    for (int k = 0; k < g_n; ++k) if (k != self && runnable(g_thr[k])) c[m++] = k;
    return m ? c[rnd() % m] : -1;
}
void go(int self, int next) {
    if (next == self) { g_thr[self].kind = READY; return; }
    ++g_switches;
    g_cur = next;
    sem_post(&g_thr[next].sem);
    while (sem_wait(&g_thr[self].sem) != 0) {}
    g_thr[self].kind = READY;
    g_thr[self].held = false;
}
void block(Kind k) {            // the caller waits for something
    Thr& t = g_thr[t_self];
    t.kind = k;
    int nx = pick(t_self, false);
    if (nx < 0) {
        fprintf(stderr, "vpomp: deadlock of %d threads\n", g_n);
        fflush(stderr);
        abort();
    }
    go(t_self, nx);
}
// mode 4: a thread that is about to write what it has read is held back until
// all others wait for it
std::unordered_map<void*, int> g_seen;          // who has used an address in this region; -1: several
void hold(void* a, bool write) {
    Thr& t = g_thr[t_self];
    int& who = g_seen.insert(std::make_pair(a, t_self)).first->second;
    bool shared = who != t_self;
    if (shared) who = -1;
    if (!write) { t.rd[t.nrd++ & 3] = a; return; }
    bool read = false;
    for (int k = 0; k < 4; ++k) if (t.rd[k] == a) read = true;
    for (int k = 0; k < g_n; ++k) if (g_thr[k].held) return;
    bool act = shared && t.rd[(t.nrd + 3) & 3] == a;        // tests a variable and sets it
    if (act ? rnd() % 8 != 0 : rnd() % (shared && read ? 4 : shared ? 20 : 400) == 0) {
        ++t_off;
        t.kind = READY; t.held = true;
        int nx = pick(t_self, true);
        if (nx >= 0) go(t_self, nx);
        t.held = false;
        --t_off;
    }
}
inline void point(bool strong, bool write = false, void* a = 0) {
    if (g_n < 2 || t_off) return;
    if (g_mode == 4 && a) hold(a, write);
    bool sw = false;
    switch (g_mode) {
    case 0: case 1: case 6: if (++g_fair > 200000) { g_fair = 0; sw = true; } break;
    case 5:
        if (--g_until <= 0) { g_until = 1 + rnd() % g_p; g_thr[t_self].prio = rnd() % 1000; sw = true; }
        break;
    case 8: sw = strong || rnd() % (write ? 2 : g_p) == 0; break;     // between reading and writing
    default: sw = strong || rnd() % g_p == 0;
    }
    if (!sw) return;
    ++t_off;
    g_thr[t_self].kind = READY;
    int nx = g_mode <= 1 || g_mode == 6 ? pick(t_self, true) : pick(t_self, false);
    if (nx >= 0) go(t_self, nx);
    --t_off;
}
void* worker(void* p) {
    t_self = int(reinterpret_cast<long>(p));
    Thr& t = g_thr[t_self];
    while (true) {
        while (sem_wait(&t.sem) != 0) {}
        t.kind = READY;
        t_ctx = t.ctx;
        t.fn(t.data);
        --g_left;
        t.kind = DONE;
        int nx = pick(t_self, true);
        if (nx < 0) { fprintf(stderr, "vpomp: deadlock at the end of a region\n"); abort(); }
        ++g_switches;
        g_cur = nx;
        sem_post(&g_thr[nx].sem);
    }
    return 0;
}
void teamBarrier() {
    Ctx& c = t_ctx;
    if (!c.team || c.team->n < 2) return;
    point(true);
    if (++c.team->arrived == c.team->n) { c.team->arrived = 0; ++c.team->gen; point(true); return; }
    Thr& t = g_thr[t_self];
    t.gen = c.team->gen; t.wteam = c.team;
    block(BARRIER);
}
void lockIt(int* l) {
    point(true);
    while (*l) { if (g_n < 2) abort(); g_thr[t_self].lock = l; block(LOCK); }
    *l = 1;
}
void unlockIt(int* l) { *l = 0; point(true); }
Team g_serial(1);
Team* team() { if (!t_ctx.team) { t_ctx.team = &g_serial; } return t_ctx.team; }
bool claim(WS& w, long* a, long* b) {
    point(true);
    if (w.up ? w.next >= w.end : w.next <= w.end) return false;
    long e = w.next + w.chunk * w.incr;
    if (w.up ? (e > w.end || e < w.next) : (e < w.end || e > w.next)) e = w.end;
    *a = w.next; *b = e; w.next = e;
    return true;
}
WS* openLoop(long s, long e, long i, long c, bool up) {
    Team* t = team();
    unsigned k = t_ctx.ws++;
    if (t == &g_serial) t->loops.erase(k);
    std::map<unsigned, WS>::iterator f = t->loops.find(k);
    if (f == t->loops.end()) {
        WS w = { s, e, i, c < 1 ? 1 : c, up };
        f = t->loops.insert(std::make_pair(k, w)).first;
    }
    return t_ctx.cur = &f->second;
}
bool single() {
    Team* t = team();
    if (t->n < 2) return true;
    point(true);
    return t->singles[t_ctx.ws++]++ == 0;
}
void runTeam(void (*fn)(void*), void* data, unsigned n, WS const* pre) {
    if (n == 0) n = g_max;
    if (g_n) n = 1;                     // nested regions are serialised
    if (n > unsigned(MAXT)) n = MAXT;
    Team tm(n);
    if (pre) tm.loops[0] = *pre;
    Ctx old = t_ctx;
    Ctx c = { &tm, 0, 0, 0 };
    if (pre) { c.ws = 1; c.cur = &tm.loops[0]; }
    t_ctx = c;
    if (n == 1) { fn(data); t_ctx = old; return; }
    for (unsigned k = 0; k < n; ++k) {
        Thr& t = g_thr[k];
        if (!t.made) {
            sem_init(&t.sem, 0, 0);
            t.made = true;
            if (k && pthread_create(&t.th, 0, worker, reinterpret_cast<void*>(long(k))) != 0) { perror("thread"); exit(3); }
        }
        t.kind = READY; t.fn = fn; t.data = data; t.ctx = c; t.ctx.tid = k; t.prio = rnd() % 1000;
        t.held = false; t.nrd = 0; memset(t.rd, 0, sizeof t.rd);
    }
    g_seen.clear();
    g_left = n - 1;
    g_victim = rnd() % n;
    t_self = 0;
    g_cur = 0;
    g_n = n;
    point(true);
    fn(data);
    if (g_left) block(JOIN);
    g_n = 0;
    t_ctx = old;
}
}  // namespace

extern "C" {
void vp_schedule(long seed) {
    g_rng = 88172645463325252ULL ^ (uint64_t(seed) * 0x9E3779B97F4A7C15ULL);
    if (!g_rng) g_rng = 1;
    for (int k = 0; k < 8; ++k) rnd();
    g_fair = 0;
    static unsigned const P[] = { 2, 5, 16, 60, 300, 2000 };
    g_p = P[rnd() % 6];
    g_mode = int(seed % 10);
    if (g_mode == 9) g_mode = 2;
    if (g_mode == 5) g_p = 50 + rnd() % 4000;
    g_until = 1;
}
void vp_yield(void) { point(false); }
unsigned long vp_switches() { unsigned long s = g_switches; g_switches = 0; return s; }

int omp_get_max_threads(void) { return g_max; }
int omp_get_num_threads(void) { return team()->n; }
int omp_get_thread_num(void) { return t_ctx.tid; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team()->n > 1; }
void omp_set_num_threads(int n) { g_max = n < 1 ? 1 : n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_level(void) { return team() != &g_serial; }
int omp_get_active_level(void) { return team()->n > 1; }
double omp_get_wtime(void) { return 0; }
void omp_init_lock(int* l) { *l = 0; }
void omp_destroy_lock(int*) {}
void omp_set_lock(int* l) { lockIt(l); }
void omp_unset_lock(int* l) { unlockIt(l); }
int omp_test_lock(int* l) { point(true); if (*l) return 0; *l = 1; return 1; }

void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { runTeam(fn, d, n, 0); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { runTeam(fn, d, n, 0); return n ? n : g_max; }
void GOMP_barrier(void) { teamBarrier(); }
bool GOMP_single_start(void) { return single(); }
void* GOMP_single_copy_start(void) { if (single()) return 0; teamBarrier(); return team()->copy; }
void GOMP_single_copy_end(void* p) { team()->copy = p; teamBarrier(); }
void GOMP_critical_start(void) { lockIt(&g_crit); }
void GOMP_critical_end(void) { unlockIt(&g_crit); }
void GOMP_critical_name_start(void** p) { lockIt(&g_named[p]); }
void GOMP_critical_name_end(void** p) { unlockIt(&g_named[p]); }
void GOMP_atomic_start(void) { lockIt(&g_atomic); }
void GOMP_atomic_end(void) { unlockIt(&g_atomic); }
void GOMP_loop_end(void) { teamBarrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { teamBarrier(); return false; }
#define LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return claim(*openLoop(s, e, i, c, i > 0), a, b); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { return claim(*t_ctx.cur, a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { \
    return claim(*openLoop(s, e, i, c, up), reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return claim(*t_ctx.cur, reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { WS w = { s, e, i, c < 1 ? 1 : c, i > 0 }; runTeam(fn, d, n, &w); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
#define RLOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return claim(*openLoop(s, e, i, 1, i > 0), a, b); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { return claim(*t_ctx.cur, a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { \
    return claim(*openLoop(s, e, i, 1, up), reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return claim(*t_ctx.cur, reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { WS w = { s, e, i, 1, i > 0 }; runTeam(fn, d, n, &w); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) { long a, b; return claim(*openLoop(1, long(n) + 1, 1, 1, true), &a, &b) ? unsigned(a) : 0; }
unsigned GOMP_sections_next(void) { long a, b; return claim(*t_ctx.cur, &a, &b) ? unsigned(a) : 0; }
void GOMP_sections_end(void) { teamBarrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { WS w = { 1, long(c) + 1, 1, 1, true }; runTeam(fn, d, n, &w); }

// a mutex of the program: waiting for it must let its owner run
int pthread_mutex_trylock(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) {
    point(true);
    int r;
    while ((r = pthread_mutex_trylock(m)) != 0) {
        if (r != 16 /* EBUSY */) return r;
        if (g_n < 2) continue;
        int o = t_off; t_off = 0;
        g_thr[t_self].kind = READY;
        int nx = pickAny(t_self);
        if (nx >= 0) go(t_self, nx);
        t_off = o;
    }
    return 0;
}
// function-local statics under initialisation by a preempted thread
int __cxa_guard_acquire(uint64_t* g) {
    char* p = reinterpret_cast<char*>(g);
    if (p[0]) return 0;
    while (p[1]) { if (g_n < 2) abort(); g_thr[t_self].kind = READY; int nx = pickAny(t_self); if (nx < 0) abort(); go(t_self, nx); }
    if (p[0]) return 0;
    p[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) { char* p = reinterpret_cast<char*>(g); p[1] = 0; p[0] = 1; }
void __cxa_guard_abort(uint64_t* g) { reinterpret_cast<char*>(g)[1] = 0; }

// ---- access callbacks -----------------------------------------------------
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACC(N) void __tsan_read##N(void* p) { point(false, false, p); } void __tsan_write##N(void* p) { point(false, true, p); } \
    void __tsan_unaligned_read##N(void* p) { point(false, false, p); } void __tsan_unaligned_write##N(void* p) { point(false, true, p); } \
    void __tsan_volatile_read##N(void* p) { point(false, false, p); } void __tsan_volatile_write##N(void* p) { point(false, true, p); } \
    void __tsan_unaligned_volatile_read##N(void* p) { point(false, false, p); } void __tsan_unaligned_volatile_write##N(void* p) { point(false, true, p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void*, size_t) { point(false); }
void __tsan_write_range(void*, size_t) { point(false); }
#define AT(N, T) \
T __tsan_atomic##N##_load(T const volatile* a, int) { point(true); return *a; } \
void __tsan_atomic##N##_store(T volatile* a, T v, int) { point(true); *a = v; } \
T __tsan_atomic##N##_exchange(T volatile* a, T v, int) { point(true); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(T volatile* a, T v, int) { point(true); T o = *a; *a = T(o + v); return o; } \
T __tsan_atomic##N##_fetch_sub(T volatile* a, T v, int) { point(true); T o = *a; *a = T(o - v); return o; } \
T __tsan_atomic##N##_fetch_and(T volatile* a, T v, int) { point(true); T o = *a; *a = T(o & v); return o; } \
T __tsan_atomic##N##_fetch_or(T volatile* a, T v, int) { point(true); T o = *a; *a = T(o | v); return o; } \
T __tsan_atomic##N##_fetch_xor(T volatile* a, T v, int) { point(true); T o = *a; *a = T(o ^ v); return o; } \
T __tsan_atomic##N##_fetch_nand(T volatile* a, T v, int) { point(true); T o = *a; *a = T(~(o & v)); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) { point(true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(T volatile* a, T* c, T v, int, int) { point(true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(T volatile* a, T c, T v, int, int) { point(true); T o = *a; if (o == c) *a = v; return o; }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef unsigned long u64;
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { point(true); }
void __tsan_atomic_signal_fence(int) {}
}
