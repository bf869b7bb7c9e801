#include "nx.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <execinfo.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <atomic>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#define NOTSAN __attribute__((no_sanitize("thread")))
namespace nx {
static const int MAXT = 16;
// ------------------------------------------------------------------ shared report area (survives a crash of the worker)
struct Shared {
    volatile uint64_t execs; volatile uint64_t steps; volatile uint64_t distinct;
    volatile int failed; char msg[2048]; char scen[128]; uint64_t seed; int strat;
    volatile int nchoice; uint8_t choice[1 << 16]; volatile int ntrace; char trace[1 << 16];
    volatile uint64_t curseed; volatile int cursc;
};
static Shared* S;
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; };
enum St { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, DONE, YIELDED };
struct Th {
    int id; volatile int go; St st; void* wait; bool timed; uint64_t deadline; bool timedout; VC vc; void* (*fn)(void*); void* arg; pthread_t real; bool joined; void* ret; int prio; uint64_t spin; void* lastaddr; uint64_t lastval; VC acqfence; VC relfence; bool started;
    void* cmutex; int clk; std::vector<std::pair<void*, int>>* unused;
};
static Th T[MAXT]; static int NT; static __thread int me = -1; static volatile bool active = false;
static uint64_t vnow; static const uint64_t T0 = 1000000000000ull;
static uint64_t rng; static int strat; static uint64_t stepno; static const uint64_t MAXSTEP = 20000;
static std::vector<uint8_t>* replayc; static size_t replayi;
static bool leakc, racec, allowblk; static int pswitch;
static volatile bool inrt = false;     // runtime-internal (single running thread, so a global is fine)
static bool verbose = false;
// mutex state
struct Mx { int owner = -1; int rec = 0; VC vc; }; 
static std::unordered_map<void*, Mx>* mxs;
struct Cell { Clk wclk; int8_t wt; VC* r; Clk rclk; int8_t rt; bool part; };
static std::unordered_map<uintptr_t, Cell>* shadow;
static std::unordered_map<uintptr_t, VC>* relvc;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static uint64_t hashsched;
static void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void futex_wait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void tr(const char* fmt, ...) {
    if (!S) return; va_list ap; va_start(ap, fmt); char b[256]; int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n > 255) n = 255;
    if (S->ntrace + n + 2 < (int)sizeof(S->trace)) { memcpy(S->trace + S->ntrace, b, n); S->trace[S->ntrace + n] = '\n'; S->ntrace += n + 1; S->trace[S->ntrace] = 0; }
}
void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); char b[256]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); tr("[T%d] %s", me, b); }
void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (S && !S->failed) { vsnprintf(S->msg, sizeof S->msg, fmt, ap); S->failed = 1; }
    va_end(ap); _exit(77);
}
bool& leak_check() { return leakc; }
bool& race_check() { return racec; }
void allow_block(bool b) { allowblk = b; }
int tid() { return me; }
uint64_t now_ns() { return vnow; }
static int pick(int n) {           // any nondeterministic decision goes through here
    if (n <= 1) return 0;
    int c;
    if (replayc && replayi < replayc->size()) c = (*replayc)[replayi++] % n;
    else if (replayc && strat == 9) c = 0;
    else c = rnd() % n;
    if (S->nchoice < (int)sizeof(S->choice)) S->choice[S->nchoice++] = c;
    hashsched = (hashsched ^ c) * 1099511628211ull + n;
    return c;
}
int choose(int n) { int c = pick(n); tr("[T%d] choose(%d) = %d", me, n, c); return c; }
// ------------------------------------------------------------------ scheduling
static bool runnable(int i) {
    Th& t = T[i];
    if (!t.started) return false;
    if (t.st == RUN || t.st == YIELDED) return true;
    return false;
}
static void switch_to(int n) {
    int o = me; if (n == o) return;
    T[n].go = 1; futex_wake(&T[n].go);
    while (!T[o].go) futex_wait(&T[o].go, 0);
    T[o].go = 0;
}
static void deadlock() {
    if (allowblk) { S->failed = 0; _exit(0); }
    char b[512]; int k = 0; for (int i = 0; i < NT; i++) if (T[i].started && T[i].st != DONE) k += snprintf(b + k, sizeof b - k, " T%d:%s", i, T[i].st == BLK_MUTEX ? "mutex" : T[i].st == BLK_COND ? "condvar" : T[i].st == BLK_JOIN ? "join" : "?");
    fail("blocked forever: no thread can make progress (lost wake-up or deadlock):%s", b);
}
static int next_thread(bool self_ok) {
    for (;;) {
        int c[MAXT], n = 0; 
        for (int i = 0; i < NT; i++) if (runnable(i) && T[i].st == RUN && (self_ok || i != me)) c[n++] = i;
        if (!n) for (int i = 0; i < NT; i++) if (runnable(i) && T[i].st == YIELDED) c[n++] = i;
        // timed waiters whose deadline has passed
        if (n) {
            // a due or future timeout may also fire now (rarely): keeps timing nondeterministic
            int tw = -1; for (int i = 0; i < NT; i++) if (T[i].started && T[i].st == BLK_COND && T[i].timed && T[i].deadline <= vnow) tw = i;
            if (tw >= 0) { T[tw].timedout = true; T[tw].st = RUN; tr("[sched] timeout of T%d (due)", tw); continue; }
            if (n == 1) return c[0];
            return c[pick(n)];
        }
        // nobody runnable: advance the virtual clock to the earliest deadline
        int tw = -1; for (int i = 0; i < NT; i++) if (T[i].started && T[i].st == BLK_COND && T[i].timed && (tw < 0 || T[i].deadline < T[tw].deadline)) tw = i;
        if (tw >= 0) { if (T[tw].deadline > vnow) vnow = T[tw].deadline; T[tw].timedout = true; T[tw].st = RUN; tr("[sched] time passes, timeout of T%d", tw); continue; }
        deadlock();
    }
}
static void sched(const char* why, bool yielding = false) {
    if (!active || me < 0) return;
    if (++stepno > MAXSTEP) fail("no progress: more than %d steps (livelock)", (int)MAXSTEP);
    S->steps++;
    int others = 0; for (int i = 0; i < NT; i++) if (i != me && runnable(i)) others++;
    if (!others) { if (yielding) { // let time pass for timed waiters
            int tw = -1; for (int i = 0; i < NT; i++) if (T[i].started && T[i].st == BLK_COND && T[i].timed && (tw < 0 || T[i].deadline < T[tw].deadline)) tw = i;
            if (tw >= 0) { if (T[tw].deadline > vnow) vnow = T[tw].deadline; T[tw].timedout = true; T[tw].st = RUN; switch_to(tw); } else if (stepno > MAXSTEP - 10) {} }
        return; }
    if (yielding) { T[me].st = YIELDED; int n = next_thread(false); if (n != me) switch_to(n); T[me].st = RUN; return; }
    for (int i = 0; i < NT; i++) if (T[i].st == YIELDED && i != me) T[i].st = RUN;
    // context switch decision: 0 = stay
    int d;
    if (replayc && replayi < replayc->size()) d = pick(100);
    else if (replayc && strat == 9) d = 99;
    else { d = ((int)(rnd() % 100) < pswitch) ? 0 : 99; if (S->nchoice < (int)sizeof(S->choice)) S->choice[S->nchoice++] = d; hashsched = (hashsched ^ d) * 1099511628211ull; }
    if (d == 0) { int n = next_thread(false); if (n != me) { tr("[sched] T%d -> T%d at %s", me, n, why); switch_to(n); } }
}
static void block(St st, void* w) {
    T[me].st = st; T[me].wait = w;
    int n = next_thread(true);
    if (n != me) { switch_to(n); }
    T[me].st = RUN;
}
void yield() { sched("yield"); }
// ------------------------------------------------------------------ arena allocator with use-after-free shadow
static char* AR; static const size_t ARSZ = 64u << 20; static size_t artop; static uint8_t* ash; static size_t arlive; static size_t arcnt;
static inline bool inar(uintptr_t a) { return a >= (uintptr_t)AR && a < (uintptr_t)AR + ARSZ; }
static void* ar_alloc(size_t n, size_t al = 16) {
    if (al < 16) al = 16; size_t p = (artop + 16 + al - 1) / al * al; size_t e = p + ((n + 15) & ~size_t(15)) + 16; if (e > ARSZ) return nullptr;
    *(size_t*)(AR + p - 8) = n; artop = e; memset(ash + p / 8, 1, ((n ? n : 1) + 7) / 8); ++arlive; ++arcnt; memset(AR + p, 0xCD, n);
    return AR + p;
}
static void ar_free(void* q) {
    size_t p = (char*)q - AR; if (ash[p / 8] != 1) fail("heap block released twice or never allocated");
    size_t n = *(size_t*)(AR + p - 8); memset(ash + p / 8, 2, ((n ? n : 1) + 7) / 8); --arlive; memset(AR + p, 0xDD, n);
}
static std::string bt() { return ""; }
static void racefail(const char* what, uintptr_t a, int sz, int other, const char* ow) { fail("data race: %s of %d bytes by T%d conflicts with unsynchronised %s by T%d (%s memory)", what, sz, me, ow, other, inar(a) ? "heap" : "static/stack"); }
static uintptr_t bytekey(uintptr_t k, uintptr_t i) { return (uintptr_t)1 << 63 | k * 4 + i; }
static NOTSAN void plain(uintptr_t a, int sz, bool w) {
    if (!active || me < 0 || inrt) return;
    if (inar(a)) { uint8_t s = ash[(a - (uintptr_t)AR) / 8]; if (s == 2) fail("use after free: %s of %d bytes by T%d in a released heap block", w ? "write" : "read", sz, me); if (s == 0) fail("heap out-of-bounds %s of %d bytes by T%d", w ? "write" : "read", sz, me); }
    if (!racec || NT < 2) return;
    inrt = true;
    uintptr_t k0 = a >> 2, k1 = (a + sz - 1) >> 2; Th& t = T[me];
    auto chk = [&](Cell& c) {
        if (c.wclk && c.wt != me && c.wclk > t.vc.c[(int)c.wt]) { inrt = false; racefail(w ? "write" : "read", a, sz, c.wt, "write"); }
        if (w) {
            if (c.r) { for (int i = 0; i < NT; i++) if (i != me && c.r->c[i] > t.vc.c[i]) { inrt = false; racefail("write", a, sz, i, "read"); } }
            else if (c.rclk && c.rt != me && c.rclk > t.vc.c[(int)c.rt]) { inrt = false; racefail("write", a, sz, c.rt, "read"); }
        }
    };
    auto rec = [&](Cell& c) {
        if (w) { c.wclk = t.vc.c[me]; c.wt = me; }
        else if (c.r) c.r->c[me] = t.vc.c[me];
        else if (!c.rclk || c.rt == me || c.rclk <= t.vc.c[(int)c.rt]) { c.rclk = t.vc.c[me]; c.rt = me; }
        else { c.r = new VC(); memset(c.r, 0, sizeof(VC)); c.r->c[(int)c.rt] = c.rclk; c.r->c[me] = t.vc.c[me]; }
    };
    for (uintptr_t k = k0; k <= k1; k++) {
        uintptr_t lo = a > k * 4 ? a - k * 4 : 0, hi = a + sz < k * 4 + 4 ? a + sz - k * 4 : 4;      // bytes of this granule that are touched
        chk((*shadow)[k]);
        if (lo == 0 && hi == 4) { if ((*shadow)[k].part) for (uintptr_t i = 0; i < 4; i++) chk((*shadow)[bytekey(k, i)]); rec((*shadow)[k]); }
        else { (*shadow)[k].part = true; for (uintptr_t i = lo; i < hi; i++) { chk((*shadow)[bytekey(k, i)]); rec((*shadow)[bytekey(k, i)]); } }
    }
    inrt = false;
}
static void forget(uintptr_t a, size_t n) { if (!shadow) return; for (uintptr_t k = a >> 2; k <= (a + n - 1) >> 2; k++) { auto it = shadow->find(k); if (it != shadow->end()) { if (it->second.part) for (uintptr_t i = 0; i < 4; i++) shadow->erase(bytekey(k, i)); shadow->erase(k); } for (uintptr_t i = 0; i < 4; i++) relvc->erase(k * 4 + i); } }
// ------------------------------------------------------------------ atomics
static void atomic_check(uintptr_t a, int sz) { if (inar(a)) { uint8_t s = ash[(a - (uintptr_t)AR) / 8]; if (s == 2) fail("use after free: atomic access by T%d in a released heap block", me); if (s == 0) fail("heap out-of-bounds atomic access by T%d", me); } }
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void on_load(uintptr_t a, int mo) { auto it = relvc->find(a); if (it != relvc->end()) { if (acq(mo)) vjoin(T[me].vc, it->second); else vjoin(T[me].acqfence, it->second); } }
static void on_store(uintptr_t a, int mo, bool rmw) {
    VC& v = (*relvc)[a];
    if (!rmw) memset(&v, 0, sizeof v);
    if (rel(mo)) { if (rmw) vjoin(v, T[me].vc); else v = T[me].vc; T[me].vc.c[me]++; } else vjoin(v, T[me].relfence);
}
struct Op { Op(const volatile void* a, int sz, const char* nm) { if (active && me >= 0 && !inrt) { sched(nm); atomic_check((uintptr_t)a, sz); on = true; inrt = true; } } ~Op() { if (on) inrt = false; } bool on = false; };
static void spincheck(const volatile void* a, uint64_t v) { Th& t = T[me]; if (t.lastaddr == a && t.lastval == v) { if (++t.spin > 20) { t.spin = 0; inrt = false; sched("spin", true); inrt = true; } } else { t.lastaddr = (void*)a; t.lastval = v; t.spin = 0; } }
}
using namespace nx;
extern "C" {
#define ATOM(N, TY) \
TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { for (;;) { Op o(a, N / 8, "load"); TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (o.on) { on_load((uintptr_t)a, mo); spincheck(a, (uint64_t)v); } return v; } } \
void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { Op o(a, N / 8, "store"); if (o.on) { on_store((uintptr_t)a, mo, false); T[me].spin = 0; T[me].lastaddr = nullptr; } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { Op o(a, N / 8, "exchange"); if (o.on) { on_load((uintptr_t)a, mo); on_store((uintptr_t)a, mo, true); T[me].lastaddr = nullptr; } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { Op o(a, N / 8, "fetch_add"); if (o.on) { on_load((uintptr_t)a, mo); on_store((uintptr_t)a, mo, true); T[me].lastaddr = nullptr; } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { Op o(a, N / 8, "fetch_sub"); if (o.on) { on_load((uintptr_t)a, mo); on_store((uintptr_t)a, mo, true); T[me].lastaddr = nullptr; } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { Op o(a, N / 8, "fetch_and"); if (o.on) { on_load((uintptr_t)a, mo); on_store((uintptr_t)a, mo, true); T[me].lastaddr = nullptr; } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { Op o(a, N / 8, "fetch_or"); if (o.on) { on_load((uintptr_t)a, mo); on_store((uintptr_t)a, mo, true); T[me].lastaddr = nullptr; } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { Op o(a, N / 8, "fetch_xor"); if (o.on) { on_load((uintptr_t)a, mo); on_store((uintptr_t)a, mo, true); T[me].lastaddr = nullptr; } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { Op o(a, N / 8, "fetch_nand"); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
static int cas##N(volatile TY* a, TY* c, TY v, int mo, int fmo, bool weak) { Op o(a, N / 8, "cas"); \
    TY cur = __atomic_load_n(a, __ATOMIC_SEQ_CST); bool ok = cur == *c; \
    if (o.on && weak && ok && nx::pick(8) == 7) ok = false; \
    if (ok) { if (o.on) { on_load((uintptr_t)a, mo); on_store((uintptr_t)a, mo, true); T[me].lastaddr = nullptr; } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return 1; } \
    if (o.on) { on_load((uintptr_t)a, fmo); spincheck(a, (uint64_t)cur); } *c = cur; return 0; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fmo) { return cas##N(a, c, v, mo, fmo, false); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fmo) { return cas##N(a, c, v, mo, fmo, true); } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fmo) { cas##N(a, &c, v, mo, fmo, false); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (active && me >= 0 && !inrt) { sched("fence"); if (acq(mo)) vjoin(T[me].vc, T[me].acqfence); if (rel(mo)) { T[me].relfence = T[me].vc; T[me].vc.c[me]++; } } }
void __tsan_atomic_signal_fence(int) {}
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { plain((uintptr_t)p, 8, true); } void __tsan_vptr_read(void** p) { plain((uintptr_t)p, 8, false); }
#define RW(N) void __tsan_read##N(void* a) { plain((uintptr_t)a, N, false); } void __tsan_write##N(void* a) { plain((uintptr_t)a, N, true); } \
 void __tsan_unaligned_read##N(void* a) { plain((uintptr_t)a, N, false); } void __tsan_unaligned_write##N(void* a) { plain((uintptr_t)a, N, true); } \
 void __tsan_volatile_read##N(void* a) { plain((uintptr_t)a, N, false); } void __tsan_volatile_write##N(void* a) { plain((uintptr_t)a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { for (unsigned long i = 0; i < n; i += 8) plain((uintptr_t)a + i, n - i < 8 ? n - i : 8, false); }
void __tsan_write_range(void* a, unsigned long n) { for (unsigned long i = 0; i < n; i += 8) plain((uintptr_t)a + i, n - i < 8 ? n - i : 8, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { __tsan_read_range((void*)s, n); __tsan_write_range(d, n); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { __tsan_write_range(d, n); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { __tsan_read_range((void*)s, n); __tsan_write_range(d, n); return memmove(d, s, n); }
}
// ------------------------------------------------------------------ allocation
static bool ctrl() { return active && me >= 0 && !inrt; }
static void* xnew(size_t n, size_t al) { if (ctrl()) { inrt = true; void* p = ar_alloc(n, al); if (p) forget((uintptr_t)p, n ? n : 1); inrt = false; if (p) return p; fail("arena exhausted (runaway allocation)"); } void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); return p; }
static void xdel(void* p) { if (!p) return; if (inar((uintptr_t)p)) { if (ctrl()) { size_t n = *(size_t*)((char*)p - 8); if (ash[((char*)p - AR) / 8] == 1 && racec && n) plain((uintptr_t)p, n < 64 ? (int)n : 64, true); inrt = true; ar_free(p); inrt = false; } else ar_free(p); } else free(p); }
void* operator new(size_t n) { return xnew(n, 16); } void* operator new[](size_t n) { return xnew(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return xnew(n, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return xnew(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xnew(n, 16); }
void operator delete(void* p) noexcept { xdel(p); } void operator delete[](void* p) noexcept { xdel(p); } void operator delete(void* p, size_t) noexcept { xdel(p); } void operator delete[](void* p, size_t) noexcept { xdel(p); }
void operator delete(void* p, std::align_val_t) noexcept { xdel(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { xdel(p); } void operator delete[](void* p, std::align_val_t) noexcept { xdel(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { xdel(p); }
// ------------------------------------------------------------------ pthread interposition
template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static void* trampoline(void* p) {
    int id = (int)(intptr_t)p; me = id; while (!T[id].go) futex_wait(&T[id].go, 0); T[id].go = 0;
    T[id].ret = T[id].fn(T[id].arg);
    // thread end: release joiners
    T[id].st = DONE;
    for (int i = 0; i < NT; i++) if (T[i].st == BLK_JOIN && T[i].wait == &T[id]) T[i].st = RUN;
    int n = next_thread(false); me = -1; T[n].go = 1; futex_wake(&T[n].go);
    return nullptr;
}
extern "C" {
// exception objects: libstdc++ mallocs and frees them (uninstrumented, ordered by its own
// reference count), so memory that comes back for a new exception has no access history
void* __cxa_allocate_exception(size_t n) noexcept {
    static auto r = real<void* (*)(size_t)>("__cxa_allocate_exception");
    void* p = r(n); if (ctrl() && racec) { inrt = true; forget((uintptr_t)p, n ? n : 1); inrt = false; } return p;
}
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!ctrl()) return r(t, at, fn, arg);
    if (NT >= MAXT) fail("too many threads in scenario");
    inrt = true; int id = NT++; Th& x = T[id]; memset((void*)&x, 0, sizeof x); x.id = id; x.fn = fn; x.arg = arg; x.st = RUN; x.started = true; x.vc = T[me].vc; x.vc.c[id] = 1; T[me].vc.c[me]++;
    int rc = r(&x.real, at, trampoline, (void*)(intptr_t)id); *t = x.real; inrt = false; if (rc) fail("pthread_create failed");
    sched("thread start"); return 0;
}
int pthread_join(pthread_t t, void** ret) {
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!ctrl()) return r(t, ret);
    int id = -1; for (int i = 0; i < NT; i++) if (T[i].started && pthread_equal(T[i].real, t)) id = i;
    if (id < 0) return r(t, ret);
    sched("join");
    while (T[id].st != DONE) block(BLK_JOIN, &T[id]);
    vjoin(T[me].vc, T[id].vc); T[id].joined = true; r(t, ret); return 0;
}
int pthread_detach(pthread_t t) { static auto r = real<int (*)(pthread_t)>("pthread_detach"); return r(t); }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!ctrl()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); if (active && me >= 0) return 0; return r(m); }
    if (inar((uintptr_t)m) && ash[((char*)m - AR) / 8] == 2) fail("use after free: lock of a mutex in a released heap block");
    sched("lock"); inrt = true; Mx& x = (*mxs)[m]; inrt = false;
    while (x.owner >= 0) { if (x.owner == me) fail("self-deadlock: T%d locks a mutex it already holds", me); block(BLK_MUTEX, m); }
    x.owner = me; vjoin(T[me].vc, x.vc); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!ctrl()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m); } sched("trylock"); inrt = true; Mx& x = (*mxs)[m]; inrt = false; if (x.owner >= 0) return EBUSY; x.owner = me; vjoin(T[me].vc, x.vc); return 0; }
static void unlock(pthread_mutex_t* m) { inrt = true; Mx& x = (*mxs)[m]; inrt = false; if (x.owner != me) fail("unlock of a mutex not held by T%d", me); x.owner = -1; vjoin(x.vc, T[me].vc); T[me].vc.c[me]++; for (int i = 0; i < NT; i++) if (T[i].st == BLK_MUTEX && T[i].wait == m) T[i].st = RUN; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!ctrl()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); if (active && me >= 0) return 0; return r(m); }
    if (inar((uintptr_t)m) && ash[((char*)m - AR) / 8] == 2) fail("use after free: unlock of a mutex in a released heap block");
    unlock(m); sched("unlock"); return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t dl) {
    sched("wait"); unlock(m); T[me].timed = timed; T[me].deadline = dl; T[me].timedout = false; T[me].st = BLK_COND; T[me].wait = c;
    if (nx::pick(12) == 11) { T[me].st = RUN; tr("[T%d] spurious wake-up", me); }
    else { int n = next_thread(true); if (n != me) switch_to(n); T[me].st = RUN; }
    bool to = T[me].timedout; T[me].timed = false; pthread_mutex_lock(m); return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!ctrl()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return r(c, m); } return cwait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!ctrl()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return r(c, m, ts); } return cwait(c, m, true, ts->tv_sec * 1000000000ull + ts->tv_nsec); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { if (!ctrl()) return EINVAL; return cwait(c, m, true, ts->tv_sec * 1000000000ull + ts->tv_nsec); }
int pthread_cond_signal(pthread_cond_t* c) { if (!ctrl()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return r(c); }
    if (inar((uintptr_t)c) && ash[((char*)c - AR) / 8] == 2) fail("use after free: notify on a condition variable in a released heap block");
    sched("notify_one"); int w[MAXT], n = 0; for (int i = 0; i < NT; i++) if (T[i].started && T[i].st == BLK_COND && T[i].wait == c) w[n++] = i; if (n) T[w[nx::pick(n)]].st = RUN; return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!ctrl()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return r(c); }
    if (inar((uintptr_t)c) && ash[((char*)c - AR) / 8] == 2) fail("use after free: notify on a condition variable in a released heap block");
    sched("notify_all"); for (int i = 0; i < NT; i++) if (T[i].started && T[i].st == BLK_COND && T[i].wait == c) T[i].st = RUN; return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int sched_yield() { if (ctrl()) sched("yield", true); return 0; }
int clock_gettime(clockid_t, struct timespec* ts) { if (ctrl()) { ts->tv_sec = vnow / 1000000000ull; ts->tv_nsec = vnow % 1000000000ull; return 0; } return syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts); }
static int vsleep(uint64_t ns) { static pthread_mutex_t sm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t sc = PTHREAD_COND_INITIALIZER; uint64_t dl = vnow + ns; while (vnow < dl) { pthread_mutex_lock(&sm); cwait(&sc, &sm, true, dl); pthread_mutex_unlock(&sm); } return 0; }
int nanosleep(const struct timespec* ts, struct timespec*) { if (!ctrl()) return syscall(SYS_nanosleep, ts, nullptr); return vsleep(ts->tv_sec * 1000000000ull + ts->tv_nsec); }
int clock_nanosleep(clockid_t, int fl, const struct timespec* ts, struct timespec*) { if (!ctrl()) return 0; uint64_t x = ts->tv_sec * 1000000000ull + ts->tv_nsec; return vsleep(fl ? (x > vnow ? x - vnow : 0) : x); }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
system_clock::time_point system_clock::now() noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
} } }
// ------------------------------------------------------------------ driver
namespace nx {
int Val::live = 0, Val::copies = 0;
static Scenario* list;
Scenario::Scenario(const char* p, const char* n, void (*f)(), int w) : prop(p), name(n), fn(f), weight(w), next(list) { list = this; }
static void run_one(Scenario* sc, uint64_t seed, int st, std::vector<uint8_t>* rep) {
    rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567ull; rnd(); rnd(); rnd(); strat = st; replayc = rep; replayi = 0; stepno = 0; vnow = T0; hashsched = 14695981039346656037ull;
    static const int ps[] = { 3, 10, 25, 50 }; pswitch = ps[seed % 4];
    S->nchoice = 0; S->ntrace = 0; S->trace[0] = 0; S->curseed = seed; leakc = true; racec = true; allowblk = false;
    size_t used = artop; memset(ash, 0, used / 8 + 64); artop = 0; arlive = 0; Val::live = 0; Val::copies = 0;
    mxs->clear(); for (auto& c : *shadow) delete c.second.r; shadow->clear(); relvc->clear();
    NT = 1; memset((void*)&T[0], 0, sizeof(Th)); T[0].st = RUN; T[0].started = true; T[0].vc.c[0] = 1; me = 0; T[0].real = pthread_self();
    active = true;
    try { sc->fn(); } catch (std::exception& e) { fail("unexpected exception escapes the scenario: %s", e.what()); } catch (Err& e) { fail("unexpected exception escapes the scenario: Err(%d)", e.code); } catch (...) { fail("unexpected exception escapes the scenario"); }
    for (int i = 1; i < NT; i++) if (T[i].st != DONE) { block(BLK_JOIN, &T[i]); }
    active = false; me = -1;
    if (leakc && arlive) fail("leak: %d heap block(s) never released", (int)arlive);
    if (leakc && Val::live) fail("leak: %d payload object(s) not destroyed (or destroyed twice)", Val::live);
}
static void onsig(int s) { if (S && !S->failed) { snprintf(S->msg, sizeof S->msg, "crash: signal %d (%s)", s, s == SIGSEGV ? "invalid memory access" : s == SIGABRT ? "abort/terminate/assert" : s == SIGALRM ? "execution hangs" : "fatal"); S->failed = 1; } _exit(78); }
}
int main(int argc, char** argv) {
    // usage: scen --prop P05 --time SEC --seed N [--only name] | --replay name seed choices
    std::string prop, only, rep; double tl = 5; uint64_t seed = 1; int maxex = 1 << 30; std::string out;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--prop") prop = argv[++i]; else if (a == "--time") tl = atof(argv[++i]); else if (a == "--seed") seed = atoll(argv[++i]); else if (a == "--only") only = argv[++i]; else if (a == "--replay") rep = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--max") maxex = atoi(argv[++i]); else if (a == "--list") { for (auto* s = nx::list; s; s = s->next) printf("%s %s\n", s->prop, s->name); return 0; } }
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    AR = (char*)mmap(nullptr, ARSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ash = (uint8_t*)mmap(nullptr, ARSZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<nx::Scenario*> L; for (auto* s = nx::list; s; s = s->next) if ((prop.empty() || prop == s->prop) && (only.empty() || only == s->name)) L.push_back(s);
    std::reverse(L.begin(), L.end());
    auto child = [&](auto&& body) -> int { fflush(stdout); pid_t p = fork(); if (p == 0) { signal(SIGSEGV, nx::onsig); signal(SIGBUS, nx::onsig); signal(SIGABRT, nx::onsig); signal(SIGFPE, nx::onsig); signal(SIGILL, nx::onsig); signal(SIGALRM, nx::onsig);
            stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nx::onsig; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr);
            mxs = new std::unordered_map<void*, Mx>(); shadow = new std::unordered_map<uintptr_t, Cell>(); relvc = new std::unordered_map<uintptr_t, VC>(); freopen("/dev/null", "w", stderr); body(); _exit(0); } int st = 0; waitpid(p, &st, 0); return st; };
    if (!rep.empty()) {
        // replay file: scenario seed choices...
        FILE* f = fopen(rep.c_str(), "r"); char nm[128]; char line[256]; std::vector<uint8_t> ch; uint64_t sd = 0; nm[0] = 0; 
        while (f && fgets(line, sizeof line, f)) { if (sscanf(line, "scenario %127s", nm) == 1) {} else if (sscanf(line, "seed %lu", &sd) == 1) {} else if (!strncmp(line, "choices", 7)) { int c; while (fscanf(f, "%d", &c) == 1) ch.push_back(c); break; } }
        nx::Scenario* sc = nullptr; for (auto* s = nx::list; s; s = s->next) if (!strcmp(s->name, nm)) sc = s; if (!sc) { fprintf(stderr, "no such scenario %s\n", nm); return 2; }
        child([&] { alarm(20); nx::run_one(sc, sd, 9, &ch); });
        if (S->failed) { printf("REPRODUCED %s: %s\n%s", nm, S->msg, S->trace); return 1; } printf("NOT REPRODUCED %s\n", nm); return 0;
    }
    auto t0 = time(nullptr); struct timeval a, b; gettimeofday(&a, nullptr); auto el = [&] { gettimeofday(&b, nullptr); return (b.tv_sec - a.tv_sec) + 1e-6 * (b.tv_usec - a.tv_usec); };
    uint64_t total = 0; std::string samples;
    for (size_t k = 0; k < L.size(); k++) {
        double budget = (tl - el()) / (L.size() - k); if (budget < 0.05) budget = 0.05; double tend = el() + budget;
        uint64_t sd = seed * 1000003ull; S->execs = 0; S->distinct = 0;
        while (el() < tend && (int)S->execs < maxex) {
            S->failed = 0; uint64_t start = sd + S->execs;
            int st = child([&] { std::unordered_map<uint64_t, char> seen; for (uint64_t i = 0; i < 500 && (int)S->execs < maxex; i++) { alarm(20); nx::run_one(L[k], start + i, 0, nullptr); S->execs++; bool isnew = seen.emplace(hashsched, 1).second; if (isnew) S->distinct++; if (!isnew && S->nchoice == 0 && i > 2) { S->failed = -1; return; } if (el() > tend && i > 3) return; } });
            if (S->failed == -1) break;     // deterministic scenario: one execution is all there is
            if (S->failed || (WIFSIGNALED(st)) || WEXITSTATUS(st) != 0) {
                if (!S->failed) snprintf(S->msg, sizeof S->msg, "abnormal end of execution (status %x)", st);
                printf("FAIL scenario=%s seed=%lu msg=%s\n", L[k]->name, S->curseed, S->msg);
                if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); fprintf(f, "# replay of a violation against the real code\nscenario %s\nseed %lu\nmessage %s\n# trace\n", L[k]->name, S->curseed, S->msg); std::string t = S->trace; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); fprintf(f, "#   %s\n", t.substr(p, e - p).c_str()); p = e + 1; }
                    fprintf(f, "choices\n"); for (int i = 0; i < S->nchoice; i++) fprintf(f, "%d ", S->choice[i]); fprintf(f, "\n"); fclose(f); }
                return 1;
            }
        }
        total += S->execs; printf("OK scenario=%s executions=%lu distinct=%lu\n", L[k]->name, S->execs, S->distinct); fflush(stdout);
    }
    printf("TOTAL %lu steps=%lu\n", total, S->steps); return 0;
}
