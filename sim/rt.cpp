// Deterministic simulation runtime.
//
// The code under test is compiled with -fsanitize=thread, but linked against
// THIS file instead of libtsan: every instrumented memory access, every atomic
// operation and every threading/allocation library call lands here.  Real
// threads are used (so thread_local works) but exactly one of them, the holder
// of the baton, runs at any moment; who gets the baton next is decided by a
// seeded scheduler (explore) or by a recorded trace (replay).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <initializer_list>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

#define NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);

// ---------------------------------------------------------------- raw syscalls
static inline long raw_syscall6(long n, long a, long b, long c, long d, long e,
                                long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ __volatile__("syscall"
                         : "=a"(ret)
                         : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8),
                           "r"(r9)
                         : "rcx", "r11", "memory");
    return ret;
}
static void raw_wait(volatile uint32_t* w, uint32_t v) {
    raw_syscall6(SYS_futex, (long)w, 128 /*WAIT|PRIVATE*/, v, 0, 0, 0);
}
static void raw_wake(volatile uint32_t* w) {
    raw_syscall6(SYS_futex, (long)w, 129 /*WAKE|PRIVATE*/, 1, 0, 0, 0);
}

// ------------------------------------------------------------------------ PRNG
struct Rng {
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)(next() % n); }
};

// ----------------------------------------------------------------- global state
static const int MAXT = 250;
enum TState { T_FREE = 0, T_RUN, T_BLOCKED, T_DONE };
enum WaitKind { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_ONCE, W_SLEEP, W_RW, W_SEM, W_BARRIER };
static const char* wait_name[] = {"-", "mutex", "condvar", "futex", "join", "once/guard", "sleep", "rwlock", "semaphore", "barrier"};

struct Thread {
    int st;
    volatile uint32_t baton;
    int wk;
    uintptr_t wobj;
    uint64_t deadline;  // 0 = none
    bool idle;          // sleeps until nobody else can run
    int wake_reason;    // 0 normal, 1 timeout, 2 spurious
    uint32_t wbitset;
    uint32_t vc[MAXT];
    uint32_t acq[MAXT];    // pending acquire (relaxed loads, for fences)
    uint32_t relf[MAXT];   // release fence clock
    bool has_acq, has_relf;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool joined, detached, client;
    uint32_t armed;  // bitmask of fault kinds armed for this thread
    int64_t prio;
    char *stack_lo, *stack_hi;
    uint64_t last_pc;
};

static bool g_active = false;
static SimMode g_mode;
static SimResult* R;
static const SimTrace* RT;
static uint32_t rt_w, rt_s;
static Rng rngW, rngS, rngF;
static Thread T[MAXT];
static int nT;
static int cur = 0;
static uint64_t g_step, g_next_pp, g_slice_start, g_max_steps, g_fair_from;
static uint64_t g_clock;
static uint64_t g_hash, g_hsync;
static int g_in_exit;
static bool g_leak;
static void (*g_end_fn)();
static uint32_t g_armed_count[F_N];
struct Plan { int mode; uint32_t den, max, first, count, seen[3], where; };
static Plan plan[F_N];
static uint8_t g_garbage;
static __thread int tl_native = 0;
static __thread int tl_id = -1;
static __thread int tl_nofault = 0;

// strategy
static int st_kind;
static uint32_t st_psync_den, st_gap;
static uint64_t st_chg[8];
static int st_nchg, st_chgi;
static int64_t st_low;
static uint32_t st_victims;
static uint64_t st_stall_from, st_stall_to;

static const uint64_t SLICE = 50000;

static inline void hmix(uint64_t& h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_detach)(pthread_t);
static pthread_key_t g_key;

// ------------------------------------------------------------------- reporting
static void finish(int code) {
    R->steps = g_step;
    R->hash_all = g_hash;
    R->hash_sync = g_hsync;
    R->clock_ns = g_clock;
    R->nthreads = nT;
    raw_syscall6(SYS_exit_group, code, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

extern "C" void sim_fail(const char* cls, const char* fmt, ...) {
    if (!g_active) { fprintf(stderr, "sim_fail outside simulation: %s\n", cls); _exit(9); }
    tl_native++;
    R->status = 2;
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    finish(1);
    __builtin_unreachable();
}
extern "C" void sim_infra(const char* fmt, ...) {
    tl_native++;
    R->status = 3;
    snprintf(R->cls, sizeof R->cls, "INFRA");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    finish(3);
    __builtin_unreachable();
}
extern "C" void sim_note(const char* fmt, ...) {
    if (!g_active) return;
    tl_native++;
    size_t l = strlen(R->note);
    va_list ap;
    va_start(ap, fmt);
    if (l + 2 < sizeof R->note) vsnprintf(R->note + l, sizeof R->note - l, fmt, ap);
    va_end(ap);
    tl_native--;
}

static const char* thread_states(char* b, size_t n) {
    size_t l = 0;
    b[0] = 0;
    for (int i = 0; i < nT && l + 64 < n; i++) {
        if (T[i].st == T_FREE || T[i].st == T_DONE) continue;
        l += (size_t)snprintf(b + l, n - l, " t%d:%s%s", i,
                      T[i].st == T_RUN ? "runnable" : "blocked-on-",
                      T[i].st == T_RUN ? "" : wait_name[T[i].wk]);
    }
    return b;
}

// ---------------------------------------------------------------- shadow: races
struct Ent { uint32_t clk; uint8_t tid, mask; uint16_t pc; };
struct Cell { Ent w[2], r[6]; };
struct SPage { uintptr_t key; Cell c[512]; };
static const uint32_t NBUCKET = 1u << 15;
static SPage** g_bucket;  // pointers to pages
static uintptr_t last_key = ~(uintptr_t)0;
static SPage* last_page;
static char *pp_cur, *pp_end;

static NOINLINE SPage* page_slow(uintptr_t key, bool create) {
    uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 40) & (NBUCKET - 1);
    for (uint32_t n = 0; n < NBUCKET; n++) {
        SPage* p = g_bucket[h];
        if (!p) {
            if (!create) return nullptr;
            if (pp_cur + sizeof(SPage) > pp_end) {
                size_t sz = 64u << 20;
                pp_cur = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (pp_cur == MAP_FAILED) sim_infra("shadow mmap");
                pp_end = pp_cur + sz;
            }
            p = (SPage*)pp_cur;
            pp_cur += (sizeof(SPage) + 63) & ~63ul;
            p->key = key;
            g_bucket[h] = p;
        }
        if (p->key == key) { last_key = key; last_page = p; return p; }
        h = (h + 1) & (NBUCKET - 1);
    }
    sim_infra("shadow table full");
}
static inline SPage* page_of(uintptr_t a, bool create) {
    uintptr_t k = a >> 12;
    if (LIKELY(k == last_key)) return last_page;
    return page_slow(k, create);
}

static NOINLINE void report_race(const Ent& e, bool prev_write, bool now_write,
                                 uintptr_t addr, uintptr_t pc);

static uintptr_t g_text_base;  // executable base (0 for non-PIE)
static uint32_t g_pcs[1 << 16];
static uint16_t g_npcs = 1;
static uint16_t pc_id(uintptr_t pc) {  // small table of code addresses
    uint32_t v = (uint32_t)pc;
    static uint32_t hkey[1 << 14];
    static uint16_t hval[1 << 14];
    uint32_t h = (v * 2654435761u) >> 18;
    for (int n = 0; n < 64; n++) {
        if (hkey[h] == v) return hval[h];
        if (hkey[h] == 0) {
            if (g_npcs == 0xffff) return 0;
            hkey[h] = v;
            hval[h] = g_npcs;
            g_pcs[g_npcs] = v;
            return g_npcs++;
        }
        h = (h + 1) & ((1 << 14) - 1);
    }
    return 0;
}

static inline void race_word(uintptr_t wa, uint8_t mask, bool wr, uintptr_t pc) {
    SPage* p = page_of(wa, true);
    Cell& c = p->c[(wa >> 3) & 511];
    Thread& me = T[cur];
    const uint8_t id = (uint8_t)cur;
    const uint32_t myclk = me.vc[cur];
    for (int i = 0; i < 2; i++) {
        const Ent& e = c.w[i];
        if (e.clk && e.tid != id && (e.mask & mask) && e.clk > me.vc[e.tid])
            report_race(e, true, wr, wa, pc);
    }
    if (!wr) {
        int slot = -1;
        for (int i = 0; i < 6; i++) {
            Ent& e = c.r[i];
            if (e.clk && e.tid == id) {
                if (e.clk == myclk) { e.mask |= mask; }
                else { e.clk = myclk; e.mask = mask; e.pc = pc_id(pc); }
                return;
            }
            if (slot < 0 && (!e.clk || e.clk <= me.vc[e.tid])) slot = i;
        }
        if (slot < 0) slot = (int)(g_step % 6);
        c.r[slot].clk = myclk; c.r[slot].tid = id; c.r[slot].mask = mask; c.r[slot].pc = pc_id(pc);
    } else {
        for (int i = 0; i < 6; i++) {
            Ent& e = c.r[i];
            if (!e.clk) continue;
            if (e.tid != id && (e.mask & mask) && e.clk > me.vc[e.tid])
                report_race(e, false, true, wa, pc);
            if (!(e.mask & ~mask)) e.clk = 0;
        }
        int slot = -1;
        for (int i = 0; i < 2; i++) {
            Ent& e = c.w[i];
            if (e.clk && e.tid == id) {
                if (e.clk == myclk) e.mask |= mask;
                else { e.clk = myclk; e.mask = mask; e.pc = pc_id(pc); }
                if (e.clk == myclk) return;
            }
            if (slot < 0 && (!e.clk || !(e.mask & ~mask))) slot = i;
        }
        if (slot < 0) slot = 1;
        c.w[slot].clk = myclk; c.w[slot].tid = id; c.w[slot].mask = mask; c.w[slot].pc = pc_id(pc);
    }
}
static void race_range(uintptr_t a, size_t n, bool wr, uintptr_t pc) {
    if (!n) return;
    uintptr_t e = a + n;
    uintptr_t w = a & ~(uintptr_t)7;
    for (; w < e; w += 8) {
        uint8_t m = 0xff;
        if (w < a) m &= (uint8_t)(0xff << (a - w));
        if (w + 8 > e) m &= (uint8_t)(0xff >> (w + 8 - e));
        race_word(w, m, wr, pc);
    }
}
static NOINLINE void report_race(const Ent& e, bool pw, bool nw, uintptr_t addr,
                                 uintptr_t pc) {
    extern bool arena_owns(uintptr_t);
    sim_fail("DATA-RACE",
             "unsynchronised %s by t%d at pc=0x%lx conflicts with earlier %s by t%d at pc=0x%x (%s memory)",
             nw ? "write" : "read", cur, (unsigned long)(pc - g_text_base),
             pw ? "write" : "read", e.tid,
             (unsigned)(g_pcs[e.pc] ? g_pcs[e.pc] - (uint32_t)g_text_base : 0),
             arena_owns(addr) ? "heap" : "stack/global");
}

// --------------------------------------------------------------- shadow: heap
static char* const ARENA = (char*)0x100000000000ul;
static const size_t ARENA_SZ = 1ul << 30;
static uint8_t* const HSH = (uint8_t*)0x110000000000ul;  // 1 byte / 8 bytes
static const uint8_t H_RED = 0x80, H_FREED = 0x40, H_EXEMPT = 0x10;
static size_t a_top = 64;
struct Chunk {  // placed right before the user block, in the red zone
    uint32_t magic, kind;
    uint64_t size;
    uint32_t tid;
    uint32_t pc;
    Chunk *next, *nfree;
};
static const uint32_t C_LIVE = 0xC0FFEE01, C_DEAD = 0xDEADBEEF;
static Chunk* a_list;
static uint64_t a_live_new, a_cnt, a_bytes;
bool arena_owns(uintptr_t a) { return a - (uintptr_t)ARENA < ARENA_SZ; }

static NOINLINE void report_heap(uintptr_t, size_t n, bool wr, uint8_t s,
                                 uintptr_t pc) {
    if (s & H_FREED)
        sim_fail("USE-AFTER-FREE", "%s of %zu bytes by t%d in freed heap memory, pc=0x%lx",
                 wr ? "write" : "read", n, cur, (unsigned long)(pc - g_text_base));
    sim_fail("HEAP-OUT-OF-BOUNDS", "%s of %zu bytes by t%d outside any live heap block, pc=0x%lx",
             wr ? "write" : "read", n, cur, (unsigned long)(pc - g_text_base));
}
// returns true if the range is exempt from race detection
static inline bool heap_check(uintptr_t a, size_t n, bool wr, uintptr_t pc) {
    if (!n) return false;
    size_t o = a - (uintptr_t)ARENA;
    size_t i = o >> 3, j = (o + n - 1) >> 3;
    bool ex = false;
    for (size_t k = i; k <= j; k++) {
        uint8_t s = HSH[k];
        if (LIKELY(s == 0)) continue;
        if (s & (H_RED | H_FREED)) report_heap(a, n, wr, s, pc);
        if (s & H_EXEMPT) ex = true;
        uint8_t lim = s & 0xf;
        if (lim) {
            size_t last = (k == j) ? ((o + n - 1) & 7) : 7;
            if (last >= lim) report_heap(a, n, wr, H_RED, pc);
        }
    }
    return ex;
}
extern "C" int sim_heap_ok(const void* p, size_t n) {
    if (!arena_owns((uintptr_t)p)) return 0;
    size_t o = (uintptr_t)p - (uintptr_t)ARENA;
    for (size_t k = o >> 3; k <= (o + n - 1) >> 3; k++) {
        uint8_t s = HSH[k];
        if (s & (H_RED | H_FREED)) return 0;
        uint8_t lim = s & 0xf;
        if (lim && ((k << 3) + lim) < o + n) return 0;
    }
    return 1;
}

enum { K_MALLOC = 1, K_NEW = 2, K_ALIGNED = 3 };
// The heap of a run (drawn per run): what fresh memory contains, where blocks
// lie modulo larger powers of two, and whether addresses are used again.
static bool g_reuse;
static uint32_t g_heap;
static Chunk* a_free[1024];
static void shadow_forget(uintptr_t a, size_t n) {
    for (uintptr_t w = a & ~7ul; w < a + n; w += 8) {
        SPage* p = page_of(w, false);
        if (!p) { w |= 4095 & ~7ul; continue; }
        memset(&p->c[(w >> 3) & 511], 0, sizeof(Cell));
    }
}
static void garbage(char* p, size_t n) {
    // never the same garbage twice in a row: reading it must show
    memset(p, g_garbage == 0xFF ? 0xFF : (int)(g_garbage + (a_cnt * 5) % 23), n);
}
static void* arena_alloc(size_t n, size_t align, int kind, uintptr_t pc) {
    if (align < 16) align = 16;
    if (g_reuse && kind != K_MALLOC && n < 16384)
        for (Chunk** q = &a_free[(n >> 4) & 1023]; *q; q = &(*q)->nfree) {
            Chunk* c = *q;
            char* p = (char*)(c + 1);
            if (c->size != n || (uintptr_t)p % align) continue;
            *q = c->nfree;
            size_t o = (size_t)(p - ARENA);
            memset(HSH + (o >> 3), 0, n >> 3);
            if (n & 7) HSH[(o >> 3) + (n >> 3)] = (uint8_t)(n & 7);
            shadow_forget((uintptr_t)p, n);
            c->magic = C_LIVE;
            c->kind = (uint32_t)kind;
            c->tid = (uint32_t)cur;
            c->pc = (uint32_t)pc;
            garbage(p, n);
            a_live_new++; a_cnt++; a_bytes += n;
            R->reused++;
            return p;
        }
    size_t base = a_top + sizeof(Chunk) + 16;
    base = (base + align - 1) & ~(align - 1);
    base += align * (((g_heap + 1) * 2654435761u + (uint32_t)a_cnt * 40503u * g_heap) >> 16 & 3);
    size_t end = base + ((n + 15) & ~15ul);
    if (n > ARENA_SZ || end + 4096 > ARENA_SZ) {
        if (n > (64u << 20)) return nullptr;  // absurd request: genuine failure
        sim_infra("simulated heap exhausted");
    }
    memset(HSH + (a_top >> 3), H_RED, (base - a_top) >> 3);
    uint8_t ex = kind == K_MALLOC ? H_EXEMPT : 0;
    memset(HSH + (base >> 3), ex, n >> 3);
    if (n & 7) HSH[(base >> 3) + (n >> 3)] = (uint8_t)(ex | (n & 7));
    size_t used = (n + 7) & ~7ul;
    if (base + used < end) memset(HSH + ((base + used) >> 3), H_RED, (end - base - used) >> 3);
    memset(HSH + (end >> 3), H_RED, 8);
    a_top = end;
    char* p = ARENA + base;
    Chunk* c = (Chunk*)(p - sizeof(Chunk));
    c->magic = C_LIVE;
    c->kind = (uint32_t)kind;
    c->size = n;
    c->tid = (uint32_t)cur;
    c->pc = (uint32_t)pc;
    c->next = a_list;
    a_list = c;
    garbage(p, n);
    if (kind != K_MALLOC) { a_live_new++; a_cnt++; a_bytes += n; }
    return p;
}
static void purge_sync(uintptr_t a, size_t n);
static void arena_free(void* p, uintptr_t pc, bool by_delete) {
    Chunk* c = (Chunk*)((char*)p - sizeof(Chunk));
    if (c->magic == C_DEAD)
        sim_fail("DOUBLE-FREE", "block freed twice by t%d, pc=0x%lx", cur, (unsigned long)(pc - g_text_base));
    if (c->magic != C_LIVE)
        sim_fail("INVALID-FREE", "free of a pointer that is not a live block by t%d, pc=0x%lx", cur, (unsigned long)(pc - g_text_base));
    if ((c->kind == K_NEW) != by_delete)
        sim_fail("INVALID-FREE", "block from %s given to %s by t%d, pc=0x%lx", c->kind == K_NEW ? "operator new" : "malloc", by_delete ? "operator delete" : "free", cur, (unsigned long)(pc - g_text_base));
    // freeing counts as a write to the whole block
    if (c->kind != K_MALLOC && nT > 1 && !tl_native) race_range((uintptr_t)p, c->size, true, pc);
    c->magic = C_DEAD;
    size_t o = (size_t)((char*)p - ARENA);
    size_t used = (c->size + 7) & ~7ul;
    memset(HSH + (o >> 3), H_FREED, used >> 3);
    memset(p, 0xEF, c->size);
    purge_sync((uintptr_t)p, c->size);
    if (c->kind != K_MALLOC) {
        a_live_new--;
        if (g_reuse && c->size < 16384) { Chunk** q = &a_free[(c->size >> 4) & 1023]; c->nfree = *q; *q = c; }
    }
}
extern "C" uint64_t sim_live_bytes() {
    uint64_t s = 0;
    for (Chunk* c = a_list; c; c = c->next)
        if (c->magic == C_LIVE && c->kind != K_MALLOC) s += c->size;
    return s;
}

// ------------------------------------------------------------ sync object table
struct Sync {
    uintptr_t addr;
    int owner, count;   // mutex / rwlock writer / once runner
    int readers, val;   // rwlock readers, semaphore value, once/guard state
    uint32_t vc[MAXT];
    bool has_vc;
};
static const uint32_t NSYNC = 65536;
static Sync g_sync[NSYNC];
static uint32_t g_nsync_used, g_sync_slot[NSYNC];
static Sync* sync_of(uintptr_t a, bool create = true) {
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 45) & (NSYNC - 1);
    int tomb = -1;
    for (uint32_t n = 0; n < NSYNC; n++) {
        Sync& s = g_sync[h];
        if (s.addr == a) return &s;
        if (s.addr == 1 && tomb < 0) tomb = (int)h;
        if (s.addr == 0) {
            if (!create) return nullptr;
            Sync& d = tomb >= 0 ? g_sync[tomb] : s;
            memset(&d, 0, sizeof d);
            d.addr = a;
            d.owner = -1;
            if (tomb < 0) g_sync_slot[g_nsync_used++] = h;
            return &d;
        }
        h = (h + 1) & (NSYNC - 1);
    }
    sim_infra("sync table full");
}
static void purge_sync(uintptr_t a, size_t n) {
    if (!g_nsync_used || !n) return;
    if (n <= 512) {
        for (uintptr_t x = a & ~3ul; x < a + n; x += 4) {
            Sync* s = sync_of(x, false);
            if (s) s->addr = 1;
        }
        return;
    }
    for (uint32_t i = 0; i < g_nsync_used; i++) {
        Sync& s = g_sync[g_sync_slot[i]];
        if (s.addr > 1 && s.addr - a < n) s.addr = 1;
    }
}
static void vjoin(uint32_t* d, const uint32_t* s) {
    for (int i = 0; i < nT; i++) if (s[i] > d[i]) d[i] = s[i];
}
static void hb_acquire(Sync* s) { if (s->has_vc) vjoin(T[cur].vc, s->vc); }
static void hb_release(Sync* s, bool join = true) {
    if (!join) memset(s->vc, 0, (size_t)nT * sizeof *s->vc);
    vjoin(s->vc, T[cur].vc);
    s->has_vc = true;
    T[cur].vc[cur]++;
}

// -------------------------------------------------------------------- scheduler
struct Mask {  // a set of threads
    uint64_t w[4];
    bool has(int i) const { return w[i >> 6] >> (i & 63) & 1; }
    void add(int i) { w[i >> 6] |= 1ull << (i & 63); }
    void del(int i) { w[i >> 6] &= ~(1ull << (i & 63)); }
    bool any() const { return w[0] | w[1] | w[2] | w[3]; }
    uint32_t count() const {
        uint32_t n = 0;
        for (uint64_t x : w) n += (uint32_t)__builtin_popcountll(x);
        return n;
    }
};
static Mask runnable_mask() {
    Mask m = {};
    for (int i = 0; i < nT; i++) if (T[i].st == T_RUN) m.add(i);
    return m;
}
static void record_dev(uint64_t step, int tid) {
    SimTrace& t = R->tr;
    if (t.ns < SIM_MAXS) { t.s[t.ns].step = step; t.s[t.ns].tid = (uint32_t)tid; t.ns++; }
    else t.overflow = 1;
}
static void record_fire(uint32_t kind, uint32_t idx, uint32_t val) {
    SimTrace& t = R->tr;
    if (t.nf < SIM_MAXF) { t.f[t.nf].kind = kind; t.f[t.nf].idx = idx; t.f[t.nf].val = val; t.nf++; }
    else t.overflow = 1;
}
// one fault opportunity; returns fired?, *val receives the argument
static bool fault_opportunity(int kind, uint32_t nval, uint32_t* val) {
    uint32_t idx = R->opp[kind]++;
    Plan& p = plan[kind];
    uint32_t at = p.seen[0]++, mine = p.seen[T[cur].client ? 1 : 2]++;
    if (g_mode == SIM_REPLAY) {
        for (uint32_t i = 0; i < RT->nf; i++)
            if (RT->f[i].kind == (uint32_t)kind && RT->f[i].idx == idx) {
                uint32_t v = nval ? RT->f[i].val % nval : 0;
                if (val) *val = v;
                R->fired[kind]++;
                record_fire((uint32_t)kind, idx, v);
                return true;
            }
        return false;
    }
    bool fire = false;
    if (p.mode == 1) fire = R->fired[kind] < p.max && rngF.below(p.den) == 0;
    else if (p.mode == 2) {
        if (p.where) at = p.where == (T[cur].client ? 1u : 2u) ? mine : p.first - 1;
        fire = at >= p.first && at - p.first < p.count;
    }
    if (!fire) return false;
    uint32_t v = nval ? rngF.below(nval) : 0;
    if (val) *val = v;
    R->fired[kind]++;
    record_fire((uint32_t)kind, idx, v);
    return true;
}

static int default_choice(const Mask& mask) {
    if (mask.has(cur)) return cur;
    for (int k = 1; k <= nT; k++) {
        int i = (cur + k) % nT;
        if (mask.has(i)) return i;
    }
    return -1;
}
static void set_next_pp() {
    uint64_t lim = g_slice_start + (g_step > g_fair_from ? 2000 : SLICE);
    uint64_t nx = lim;
    if (g_mode == SIM_REPLAY) {
        if (rt_s < RT->ns && RT->s[rt_s].step < nx) nx = RT->s[rt_s].step;
    } else {
        if (st_kind == 1) {
            if (st_chgi < st_nchg && st_chg[st_chgi] < nx) nx = st_chg[st_chgi];
        } else if (st_gap) {
            // geometric-ish gap
            uint64_t g = 1 + rngS.below(2 * st_gap);
            if (g_step + g < nx) nx = g_step + g;
        }
    }
    if (nx <= g_step) nx = g_step + 1;
    g_next_pp = nx;
}
static int pick_random(const Mask& mask) {
    uint32_t k = rngS.below(mask.count());
    for (int i = 0;; i++) if (mask.has(i)) { if (!k--) return i; }
}
// Decide who runs after step g_step. mask = runnable threads (nonempty).
static int decide(const Mask& mask, bool sync, bool yielding) {
    int def = default_choice(mask);
    bool slice_over = mask.has(cur) && g_step - g_slice_start >= (g_step > g_fair_from ? 2000 : SLICE);
    if (slice_over || yielding) {
        Mask others = mask;
        others.del(cur);
        if (others.any()) {
            for (int k = 1; k <= nT; k++) {
                int i = (cur + k) % nT;
                if (others.has(i)) { def = i; break; }
            }
            if (slice_over) T[cur].prio = st_low--;
        }
        if (slice_over) g_slice_start = g_step;
    }
    int ch = def;
    if (g_mode == SIM_REPLAY) {
        while (rt_s < RT->ns && RT->s[rt_s].step < g_step) rt_s++;
        if (rt_s < RT->ns && RT->s[rt_s].step == g_step) {
            uint32_t t = RT->s[rt_s].tid;
            rt_s++;
            if (t < (uint32_t)MAXT && mask.has((int)t)) ch = (int)t;
        }
    } else if (g_step > g_fair_from) {
        ch = def;
    } else if (st_kind == 1) {  // PCT
        if (st_chgi < st_nchg && g_step >= st_chg[st_chgi]) { st_chgi++; T[cur].prio = st_low--; }
        if (yielding) T[cur].prio = st_low--;
        int64_t best = INT64_MIN;
        for (int i = 0; i < nT; i++)
            if (mask.has(i) && T[i].prio > best) { best = T[i].prio; ch = i; }
    } else {
        Mask m = mask;
        if (st_kind == 2 && g_step >= st_stall_from && g_step < st_stall_to) {
            Mask o = m;
            o.w[0] &= ~(uint64_t)st_victims;
            if (o.any()) {
                if (m.w[0] & st_victims) { R->fired[F_STALL]++; }
                m = o;
                if (!m.has(ch)) ch = pick_random(m);
            }
        }
        if (yielding) {
            Mask o = m;
            o.del(cur);
            if (o.any()) m = o;
        }
        bool roll = sync ? rngS.below(st_psync_den) == 0 : st_gap != 0;
        if (!m.has(ch)) roll = true;
        if (!mask.has(cur)) roll = st_kind != 3 || rngS.below(4) == 0 || roll;
        if (roll) ch = pick_random(m);
    }
    if (ch != def) record_dev(g_step, ch);
    return ch;
}
static void hand_over(int next) {
    Thread& me = T[cur];
    int self = cur;
    if (next == self) return;
    R->switches++;
    g_slice_start = g_step;
    hmix(g_hsync, 0x5151000 + (uint64_t)next);
    hmix(g_hash, g_step * 256 + (uint64_t)next);
    cur = next;
    last_key = ~(uintptr_t)0;
    set_next_pp();
    me.baton = 0;
    __atomic_store_n(&T[next].baton, 1, __ATOMIC_RELEASE);
    raw_wake(&T[next].baton);
    if (me.st == T_DONE) return;
    while (!__atomic_load_n(&me.baton, __ATOMIC_ACQUIRE)) raw_wait(&me.baton, 0);
    last_key = ~(uintptr_t)0;
}
static NOINLINE void check_budget() {
    if (g_step > g_max_steps) {
        char b[1024];
        sim_fail("NO-PROGRESS", "run did not finish within %lu steps (fair scheduling from step %lu on):%s",
                 (unsigned long)g_max_steps, (unsigned long)g_fair_from, thread_states(b, sizeof b));
    }
}
static void maybe_spurious() {
    // spurious wake-ups: any condvar/futex waiter may return early
    if (g_mode == SIM_EXPLORE && !plan[F_SPURIOUS].mode) return;
    int c[MAXT], n = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].st == T_BLOCKED && (T[i].wk == W_COND || T[i].wk == W_FUTEX)) c[n++] = i;
    if (!n) return;
    uint32_t v;
    if (!fault_opportunity(F_SPURIOUS, (uint32_t)n, &v)) return;
    Thread& t = T[c[v]];
    t.st = T_RUN;
    t.wake_reason = 2;
}
static void maybe_timer() {
    // time passes while threads that could run do not
    if (g_mode == SIM_EXPLORE && !plan[F_TIMER].mode) return;
    int c[MAXT], n = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].st == T_BLOCKED && T[i].deadline && !T[i].idle) c[n++] = i;
    if (!n) return;
    uint32_t v;
    if (!fault_opportunity(F_TIMER, (uint32_t)n, &v)) return;
    uint64_t dl = T[c[v]].deadline;
    if (dl > g_clock) g_clock = dl;
    for (int i = 0; i < n; i++)
        if (T[c[i]].deadline <= g_clock) { T[c[i]].st = T_RUN; T[c[i]].wake_reason = 1; }
}
static void sched(bool sync, bool yielding = false) {
    check_budget();
    Mask m = runnable_mask();
    int nx = decide(m, sync, yielding);
    if (nx != cur) hand_over(nx);
    set_next_pp();
}
static inline void sync_point(int kind, uintptr_t obj) {
    g_step++;
    R->nsync++;
    hmix(g_hsync, (uint64_t)cur * 131 + (uint64_t)kind);
    hmix(g_hash, g_step ^ ((uint64_t)cur << 56) ^ ((uint64_t)kind << 48) ^
                     (arena_owns(obj) ? obj : 0));
    maybe_spurious();
    maybe_timer();
    sched(true);
}
static bool fire_timer() {
    int best = -1;
    for (int i = 0; i < nT; i++)
        if (T[i].st == T_BLOCKED && T[i].deadline && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
    if (best < 0) return false;
    if (T[best].deadline > g_clock) g_clock = T[best].deadline;
    T[best].st = T_RUN;
    T[best].wake_reason = 1;
    return true;
}
static void leave_cpu() {  // current thread is not runnable any more
    g_step++;
    hmix(g_hsync, 0x777 + (uint64_t)cur * 131 + (uint64_t)T[cur].wk);
    check_budget();
    Mask m = runnable_mask();
    while (!m.any()) {
        if (!fire_timer()) {
            char b[1024];
            sim_fail("DEADLOCK", "no thread can run:%s%s", thread_states(b, sizeof b),
                     g_in_exit ? " (during process exit)" : "");
        }
        m = runnable_mask();
    }
    int nx = decide(m, true, false);
    if (nx != cur) hand_over(nx);
    else set_next_pp();
}
// returns wake reason
static int block(int wk, uintptr_t obj, uint64_t deadline = 0) {
    Thread& me = T[cur];
    me.st = T_BLOCKED;
    me.wk = wk;
    me.wobj = obj;
    me.deadline = deadline;
    me.wake_reason = 0;
    leave_cpu();
    me.wk = W_NONE;
    me.wobj = 0;
    me.deadline = 0;
    return me.wake_reason;
}
static void wake_all(int wk, uintptr_t obj) {
    for (int i = 0; i < nT; i++)
        if (T[i].st == T_BLOCKED && T[i].wk == wk && T[i].wobj == obj) { T[i].st = T_RUN; T[i].wake_reason = 0; }
}
static bool wake_one(int wk, uintptr_t obj, uint32_t bits = ~0u) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].st == T_BLOCKED && T[i].wk == wk && T[i].wobj == obj && (wk != W_FUTEX || (T[i].wbitset & bits))) c[n++] = i;
    if (!n) return false;
    uint32_t v = 0;
    if (n > 1) {
        uint32_t vv;
        if (fault_opportunity(F_NOTIFY, (uint32_t)n, &vv)) v = vv;
    }
    T[c[v]].st = T_RUN;
    T[c[v]].wake_reason = 0;
    return true;
}

// ------------------------------------------------------------ access hook
static NOINLINE void mem_preempt() {
    R->preempt_mem++;
    if (nT > 1) sched(false);
    else { check_budget(); g_slice_start = g_step; set_next_pp(); }
}
static inline void access(uintptr_t a, size_t n, bool wr, uintptr_t pc) {
    if (UNLIKELY(!g_active) || tl_native) return;
    if (UNLIKELY(++g_step >= g_next_pp)) mem_preempt();
    bool ex = false;
    if (arena_owns(a)) {
        ex = heap_check(a, n, wr, pc);
        g_hash = (g_hash ^ (a + n + (wr ? 77 : 0))) * 0x100000001b3ull;
    } else g_hash = (g_hash ^ (n + 3)) * 0x100000001b3ull;
    if (nT > 1 && !ex) {
        if (LIKELY((a & 7) + n <= 8)) {
            race_word(a & ~7ul, (uint8_t)(((1u << n) - 1) << (a & 7)), wr, pc);
        } else race_range(a, n, wr, pc);
    }
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
#define RW(n)                                                              \
    void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, PC); }    \
    void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, PC); }    \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_read##n##_pc(void* p, void*) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_write##n##_pc(void* p, void*) { access((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* a, unsigned, int) { if (g_active && !tl_native) hb_acquire(sync_of((uintptr_t)a)); }
int __tsan_mutex_pre_unlock(void* a, unsigned) { if (g_active && !tl_native) hb_release(sync_of((uintptr_t)a)); return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}

// instrumented objects have their mem* calls renamed to these (objcopy)
void* sim_memcpy(void* d, const void* s, size_t n) {
    if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
    return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
    if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
    return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
    if (n) access((uintptr_t)d, n, true, PC);
    return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n) {
    if (n) { access((uintptr_t)a, n, false, PC); access((uintptr_t)b, n, false, PC); }
    return memcmp(a, b, n);
}
}

// --------------------------------------------------------------------- atomics
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline bool is_acq(int mo) { mo &= 7; return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { mo &= 7; return mo == 3 || mo == 4 || mo == 5; }
static void at_pre(uintptr_t a, size_t n, bool wr, uintptr_t pc) {
    sync_point(wr ? 20 : 21, a);
    if (arena_owns(a)) heap_check(a, n, wr, pc);
    // an atomic access still conflicts with plain accesses: handled below
}
static void at_plain_conflict(uintptr_t a, size_t n, bool wr, uintptr_t pc) {
    // check against plain accesses of other threads, without recording
    if (nT < 2) return;
    SPage* p = page_slow(a >> 12, false);
    if (!p) return;
    Cell& c = p->c[(a >> 3) & 511];
    uint8_t mask = (uint8_t)(n >= 8 ? 0xff : ((1u << n) - 1) << (a & 7));
    for (auto& e : c.w)
        if (e.clk && e.tid != cur && (e.mask & mask) && e.clk > T[cur].vc[e.tid]) report_race(e, true, wr, a, pc);
    if (wr)
        for (auto& e : c.r)
            if (e.clk && e.tid != cur && (e.mask & mask) && e.clk > T[cur].vc[e.tid]) report_race(e, false, true, a, pc);
}
static void at_load(uintptr_t a, int mo) {
    Sync* s = sync_of(a, false);
    if (!s || !s->has_vc) return;
    if (is_acq(mo)) vjoin(T[cur].vc, s->vc);
    else { vjoin(T[cur].acq, s->vc); T[cur].has_acq = true; }
}
static void at_store(uintptr_t a, int mo, bool rmw) {
    Thread& me = T[cur];
    if (is_rel(mo)) {
        Sync* s = sync_of(a);
        if (!rmw) memset(s->vc, 0, (size_t)nT * sizeof *s->vc);
        vjoin(s->vc, me.vc);
        s->has_vc = true;
        me.vc[cur]++;
    } else if (me.has_relf) {
        Sync* s = sync_of(a);
        if (!rmw) memset(s->vc, 0, (size_t)nT * sizeof *s->vc);
        vjoin(s->vc, me.relf);
        s->has_vc = true;
    } else if (!rmw) {
        Sync* s = sync_of(a, false);
        if (s) { memset(s->vc, 0, (size_t)nT * sizeof *s->vc); s->has_vc = false; }
    }
}
#define SIMON (g_active && !tl_native)
template <typename V> static V a_load(const volatile V* p, int mo, uintptr_t pc) {
    if (SIMON) {
        at_pre((uintptr_t)p, sizeof(V), false, pc);
        at_plain_conflict((uintptr_t)p, sizeof(V), false, pc);
        V v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
        at_load((uintptr_t)p, mo);
        return v;
    }
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);
}
template <typename V> static void a_store(volatile V* p, V v, int mo, uintptr_t pc) {
    if (SIMON) {
        at_pre((uintptr_t)p, sizeof(V), true, pc);
        at_plain_conflict((uintptr_t)p, sizeof(V), true, pc);
        at_store((uintptr_t)p, mo, false);
    }
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
}
template <typename V, typename F> static V a_rmw(volatile V* p, int mo, F f, uintptr_t pc) {
    if (SIMON) {
        at_pre((uintptr_t)p, sizeof(V), true, pc);
        at_plain_conflict((uintptr_t)p, sizeof(V), true, pc);
        at_load((uintptr_t)p, mo);
        at_store((uintptr_t)p, mo, true);
        V o = *p;
        *p = f(o);
        return o;
    }
    V o = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    while (!__atomic_compare_exchange_n(p, &o, f(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
    return o;
}
template <typename V> static bool a_cas(volatile V* p, V* c, V v, int mo, int fmo, bool weak, uintptr_t pc) {
    if (SIMON) {
        at_pre((uintptr_t)p, sizeof(V), true, pc);
        at_plain_conflict((uintptr_t)p, sizeof(V), true, pc);
        V o = *p;
        (void)weak;
        if (o == *c) {
            at_load((uintptr_t)p, mo);
            at_store((uintptr_t)p, mo, true);
            *p = v;
            return true;
        }
        at_load((uintptr_t)p, fmo);
        *c = o;
        return false;
    }
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long long a64;
typedef unsigned __int128 a128;
extern "C" {
#define ATOMICS(B)                                                                                   \
    a##B __tsan_atomic##B##_load(const volatile a##B* p, int mo) { return a_load(p, mo, PC); }        \
    void __tsan_atomic##B##_store(volatile a##B* p, a##B v, int mo) { a_store(p, v, mo, PC); }        \
    a##B __tsan_atomic##B##_exchange(volatile a##B* p, a##B v, int mo) { return a_rmw(p, mo, [=](a##B) { return v; }, PC); } \
    a##B __tsan_atomic##B##_fetch_add(volatile a##B* p, a##B v, int mo) { return a_rmw(p, mo, [=](a##B o) { return (a##B)(o + v); }, PC); } \
    a##B __tsan_atomic##B##_fetch_sub(volatile a##B* p, a##B v, int mo) { return a_rmw(p, mo, [=](a##B o) { return (a##B)(o - v); }, PC); } \
    a##B __tsan_atomic##B##_fetch_and(volatile a##B* p, a##B v, int mo) { return a_rmw(p, mo, [=](a##B o) { return (a##B)(o & v); }, PC); } \
    a##B __tsan_atomic##B##_fetch_or(volatile a##B* p, a##B v, int mo) { return a_rmw(p, mo, [=](a##B o) { return (a##B)(o | v); }, PC); }  \
    a##B __tsan_atomic##B##_fetch_xor(volatile a##B* p, a##B v, int mo) { return a_rmw(p, mo, [=](a##B o) { return (a##B)(o ^ v); }, PC); } \
    a##B __tsan_atomic##B##_fetch_nand(volatile a##B* p, a##B v, int mo) { return a_rmw(p, mo, [=](a##B o) { return (a##B) ~(o & v); }, PC); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile a##B* p, a##B* c, a##B v, int mo, int fmo) { return a_cas(p, c, v, mo, fmo, false, PC); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile a##B* p, a##B* c, a##B v, int mo, int fmo) { return a_cas(p, c, v, mo, fmo, true, PC); } \
    a##B __tsan_atomic##B##_compare_exchange_val(volatile a##B* p, a##B c, a##B v, int mo, int fmo) { a_cas(p, &c, v, mo, fmo, false, PC); return c; }
ATOMICS(8) ATOMICS(16) ATOMICS(32) ATOMICS(64)
void __tsan_atomic_thread_fence(int mo) {
    if (!SIMON) return;
    sync_point(22, 0);
    Thread& me = T[cur];
    if (is_acq(mo) && me.has_acq) vjoin(me.vc, me.acq);
    if (is_rel(mo)) { memcpy(me.relf, me.vc, sizeof me.vc); me.has_relf = true; me.vc[cur]++; }
}
void __tsan_atomic_signal_fence(int) {}
}

// --------------------------------------------------------------------- mutexes
static inline void obj_check(void* p, size_t n, uintptr_t pc) {
    if (arena_owns((uintptr_t)p)) heap_check((uintptr_t)p, n, true, pc);
}
static bool mtx_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int mtx_acquire(pthread_mutex_t* m, uint64_t deadline) {
    uintptr_t a = (uintptr_t)m;
    for (;;) {
        Sync* s = sync_of(a);
        if (s->owner == cur && mtx_recursive(m)) { s->count++; return 0; }
        if (s->owner < 0) { s->owner = cur; s->count = 1; hb_acquire(s); return 0; }
        int r = block(W_MUTEX, a, deadline);
        if (r == 1) return ETIMEDOUT;
    }
}
static int mtx_release(pthread_mutex_t* m) {
    uintptr_t a = (uintptr_t)m;
    Sync* s = sync_of(a);
    if (s->owner != cur)
        sim_fail("BAD-UNLOCK", "t%d unlocks a mutex it does not hold", cur);
    if (--s->count > 0) return 0;
    s->owner = -1;
    hb_release(s);
    wake_all(W_MUTEX, a);
    return 0;
}
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }

#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!SIMON) return 0;
    obj_check(m, sizeof *m, PC);
    sync_point(1, (uintptr_t)m);
    return mtx_acquire(m, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!SIMON) return 0;
    obj_check(m, sizeof *m, PC);
    sync_point(2, (uintptr_t)m);
    Sync* s = sync_of((uintptr_t)m);
    if (s->owner >= 0 && !(s->owner == cur && mtx_recursive(m))) return EBUSY;
    return mtx_acquire(m, 0);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!SIMON) return 0;
    sync_point(1, (uintptr_t)m);
    return mtx_acquire(m, ts_ns(ts) + 1);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    if (!SIMON) return 0;
    sync_point(1, (uintptr_t)m);
    return mtx_acquire(m, ts_ns(ts) + 1);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!SIMON) return 0;
    obj_check(m, sizeof *m, PC);
    int r = mtx_release(m);
    sync_point(3, (uintptr_t)m);
    return r;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
    int kind = 0;
    if (at) pthread_mutexattr_gettype(at, &kind);
    memset(m, 0, sizeof *m);
    m->__data.__kind = kind;
    if (SIMON) { Sync* s = sync_of((uintptr_t)m, false); if (s) s->addr = 1; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!SIMON) return 0;
    Sync* s = sync_of((uintptr_t)m, false);
    if (s) {
        if (s->owner >= 0) sim_fail("BAD-DESTROY", "mutex destroyed while held by t%d", s->owner);
        s->addr = 1;
    }
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset((void*)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!SIMON) return 0;
    for (int i = 0; i < nT; i++)
        if (T[i].st == T_BLOCKED && T[i].wk == W_COND && T[i].wobj == (uintptr_t)c)
            sim_fail("BAD-DESTROY", "condition variable destroyed while t%d waits on it", i);
    return 0;
}
static int cond_wait_common(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
    Sync* s = sync_of((uintptr_t)m);
    if (s->owner != cur) sim_fail("BAD-WAIT", "t%d waits on a condition variable without holding the mutex", cur);
    sync_point(4, (uintptr_t)c);
    int cnt = s->count;
    s->count = 1;
    mtx_release(m);
    int r = block(W_COND, (uintptr_t)c, dl);
    mtx_acquire(m, 0);
    sync_of((uintptr_t)m)->count = cnt;
    return r == 1 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!SIMON) return 0;
    obj_check(c, sizeof *c, PC);
    return cond_wait_common(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!SIMON) return 0;
    return cond_wait_common(c, m, ts_ns(ts) + 1);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    if (!SIMON) return 0;
    return cond_wait_common(c, m, ts_ns(ts) + 1);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!SIMON) return 0;
    obj_check(c, sizeof *c, PC);
    sync_point(5, (uintptr_t)c);
    wake_one(W_COND, (uintptr_t)c);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!SIMON) return 0;
    obj_check(c, sizeof *c, PC);
    sync_point(6, (uintptr_t)c);
    wake_all(W_COND, (uintptr_t)c);
    return 0;
}
// rwlocks (std::shared_mutex)
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tr, uint64_t dl) {
    if (!SIMON) return 0;
    sync_point(wr ? 7 : 8, (uintptr_t)l);
    for (;;) {
        Sync* s = sync_of((uintptr_t)l);
        if (s->owner < 0 && (!wr || s->readers == 0)) {
            if (wr) s->owner = cur; else s->readers++;
            hb_acquire(s);
            return 0;
        }
        if (tr) return EBUSY;
        if (block(W_RW, (uintptr_t)l, dl) == 1) return ETIMEDOUT;
    }
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset((void*)l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true, 0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true, 0); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) { return rw_lock(l, false, false, ts_ns(t) + 1); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) { return rw_lock(l, true, false, ts_ns(t) + 1); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const struct timespec* t) { return rw_lock(l, false, false, ts_ns(t) + 1); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const struct timespec* t) { return rw_lock(l, true, false, ts_ns(t) + 1); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!SIMON) return 0;
    Sync* s = sync_of((uintptr_t)l);
    if (s->owner == cur) s->owner = -1;
    else if (s->readers > 0) s->readers--;
    else sim_fail("BAD-UNLOCK", "t%d unlocks an rwlock nobody holds", cur);
    hb_release(s);
    wake_all(W_RW, (uintptr_t)l);
    sync_point(9, (uintptr_t)l);
    return 0;
}
// spin locks behave like mutexes
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { return rw_lock((pthread_rwlock_t*)l, true, false, 0); }
int pthread_spin_trylock(pthread_spinlock_t* l) { return rw_lock((pthread_rwlock_t*)l, true, true, 0); }
int pthread_spin_unlock(pthread_spinlock_t* l) { return pthread_rwlock_unlock((pthread_rwlock_t*)l); }
// semaphores
int sem_init(sem_t* s, int, unsigned v) {
    memset(s, 0, sizeof *s);
    *(unsigned*)s = v;
    if (SIMON) { Sync* y = sync_of((uintptr_t)s); y->val = (int)v; }
    return 0;
}
int sem_destroy(sem_t* s) { if (SIMON) { Sync* y = sync_of((uintptr_t)s, false); if (y) y->addr = 1; } return 0; }
int sem_post(sem_t* s) {
    if (!SIMON) return 0;
    Sync* y = sync_of((uintptr_t)s);
    y->val++;
    hb_release(y);
    wake_all(W_SEM, (uintptr_t)s);
    sync_point(10, (uintptr_t)s);
    return 0;
}
static int sem_acq(sem_t* s, bool tr, uint64_t dl) {
    if (!SIMON) return 0;
    sync_point(11, (uintptr_t)s);
    for (;;) {
        Sync* y = sync_of((uintptr_t)s);
        if (y->val > 0) { y->val--; hb_acquire(y); return 0; }
        if (tr) { errno = EAGAIN; return -1; }
        if (block(W_SEM, (uintptr_t)s, dl) == 1) { errno = ETIMEDOUT; return -1; }
    }
}
int sem_wait(sem_t* s) { return sem_acq(s, false, 0); }
int sem_trywait(sem_t* s) { return sem_acq(s, true, 0); }
int sem_timedwait(sem_t* s, const struct timespec* t) { return sem_acq(s, false, ts_ns(t) + 1); }
int sem_clockwait(sem_t* s, clockid_t, const struct timespec* t) { return sem_acq(s, false, ts_ns(t) + 1); }

// pthread_once / std::call_once.  exceptions may propagate out of fn
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!SIMON) {
        if (*(volatile int*)o == 2) return 0;
        fn();
        *(volatile int*)o = 2;
        return 0;
    }
    sync_point(12, (uintptr_t)o);
    obj_check(o, sizeof *o, PC);
    for (;;) {
        Sync* s = sync_of((uintptr_t)o);
        if (*(volatile int*)o == 2) { hb_acquire(s); return 0; }
        if (s->owner < 0) {
            s->owner = cur;
            hb_acquire(s);
            try { fn(); } catch (...) {
                s = sync_of((uintptr_t)o);
                s->owner = -1;
                hb_release(s);
                wake_all(W_ONCE, (uintptr_t)o);
                throw;
            }
            s = sync_of((uintptr_t)o);
            s->owner = -1;
            *(volatile int*)o = 2;
            hb_release(s);
            wake_all(W_ONCE, (uintptr_t)o);
            sync_point(13, (uintptr_t)o);
            return 0;
        }
        block(W_ONCE, (uintptr_t)o);
    }
}
// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    if (*(volatile char*)g) return 0;
    if (!SIMON) return 1;
    sync_point(14, (uintptr_t)g);
    for (;;) {
        Sync* s = sync_of((uintptr_t)g);
        if (*(volatile char*)g) { hb_acquire(s); return 0; }
        if (s->owner < 0) { s->owner = cur; hb_acquire(s); return 1; }
        if (s->owner == cur) sim_fail("RECURSIVE-INIT", "recursive initialisation of a local static");
        block(W_ONCE, (uintptr_t)g);
    }
}
void __cxa_guard_release(uint64_t* g) {
    if (SIMON) {
        Sync* s = sync_of((uintptr_t)g);
        s->owner = -1;
        hb_release(s);
        *(volatile char*)g = 1;
        wake_all(W_ONCE, (uintptr_t)g);
        sync_point(15, (uintptr_t)g);
        return;
    }
    *(volatile char*)g = 1;
}
void __cxa_guard_abort(uint64_t* g) {
    if (SIMON) {
        Sync* s = sync_of((uintptr_t)g);
        s->owner = -1;
        hb_release(s);
        wake_all(W_ONCE, (uintptr_t)g);
        sync_point(16, (uintptr_t)g);
    }
}
// ----------------------------------------------------------------- futex
static long sim_futex(uint32_t* w, int op, uint32_t val, const struct timespec* ts, uint32_t v3) {
    int cmd = op & 127;
    switch (cmd) {
        case 0:    // WAIT (relative timeout)
        case 9: {  // WAIT_BITSET (absolute)
            sync_point(17, (uintptr_t)w);
            obj_check(w, 4, PC);
            if (*(volatile uint32_t*)w != val) { errno = EAGAIN; return -1; }
            uint64_t dl = ts ? ts_ns(ts) + (cmd == 0 ? g_clock : 0) + 1 : 0;
            if (fault_opportunity(F_EINTR, 0, nullptr)) { errno = EINTR; return -1; }
            T[cur].wbitset = cmd == 9 ? v3 : ~0u;
            int r = block(W_FUTEX, (uintptr_t)w, dl);
            if (r == 1) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        case 1:
        case 10: {
            sync_point(18, (uintptr_t)w);
            long n = 0;
            while (n < (long)val && wake_one(W_FUTEX, (uintptr_t)w, cmd == 10 ? v3 : ~0u)) n++;
            return n;
        }
        default: sim_infra("futex op %d not simulated", op);
    }
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && SIMON) return sim_futex((uint32_t*)a, (int)b, (uint32_t)c, (const struct timespec*)d, (uint32_t)f);
    long r = raw_syscall6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
// ------------------------------------------------------------------ time
static void sim_sleep(uint64_t ns) {
    sync_point(19, 0);
    block(W_SLEEP, 0, g_clock + ns + 1);
}
void sim_idle(uint64_t ns) {
    if (!SIMON) return;
    T[cur].idle = true;
    sim_sleep(ns);
    T[cur].idle = false;
}
int sched_yield() {
    if (!SIMON) return 0;
    g_step++;
    hmix(g_hsync, (uint64_t)cur * 131 + 40);
    sched(true, true);
    return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) { if (SIMON) sim_sleep(ts_ns(t)); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) {
    if (SIMON) { uint64_t n = ts_ns(t); if (flags) n = n > g_clock ? n - g_clock : 0; sim_sleep(n); }
    return 0;
}
int usleep(unsigned us) { if (SIMON) sim_sleep((uint64_t)us * 1000); return 0; }
unsigned sleep(unsigned s) { if (SIMON) sim_sleep((uint64_t)s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) {
    if (SIMON) {
        g_clock += 100;  // time moves with every observation
        uint32_t v;
        if (fault_opportunity(F_TIMER, 8, &v)) {
            uint64_t j = 1000;
            while (v--) j *= 10;
            g_clock += j;
        }
        t->tv_sec = (time_t)(g_clock / 1000000000ull);
        t->tv_nsec = (long)(g_clock % 1000000000ull);
        return 0;
    }
    return (int)raw_syscall6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
}
int get_nprocs() {
    if (!SIMON) return 4;
    if (fault_opportunity(F_HWC, 0, nullptr)) return 0;
    return 3;
}
int get_nprocs_conf() { return get_nprocs(); }

// --------------------------------------------------------------- threads
static char* const STACKS = (char*)0x120000000000ul;
static const size_t STACK_SZ = 1u << 20;
void* sim_main_stack(size_t* sz) {
    *sz = STACK_SZ;
    return STACKS;
}

static void thread_end(void*) {  // key destructor: after C++ TLS destructors
    if (!g_active || tl_id < 0) return;
    tl_native = 1;
    Thread& me = T[cur];
    me.vc[cur]++;
    me.st = T_DONE;
    wake_all(W_JOIN, (uintptr_t)cur + 1);
    leave_cpu();
}
static void* trampoline(void* p) {
    int id = (int)(intptr_t)p;
    tl_id = id;
    tl_native = 1;
    while (!__atomic_load_n(&T[id].baton, __ATOMIC_ACQUIRE)) raw_wait(&T[id].baton, 0);
    last_key = ~(uintptr_t)0;
    pthread_setspecific(g_key, (void*)1);
    tl_native = 0;
    sync_point(30, 0);
    sim_stack_garbage();
    T[id].ret = T[id].fn(T[id].arg);
    return T[id].ret;
}
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!g_active) return real_pthread_create(th, at, fn, arg);
    sync_point(31, 0);
    Thread& c = T[cur];
    if (!tl_nofault)
    if ((c.armed >> F_THREAD & 1) || (!c.client && g_armed_count[F_THREAD]))
        if (fault_opportunity(F_THREAD, 0, nullptr)) return EAGAIN;
    int id = nT;
    uint32_t clk0 = 0;
    if (nT >= MAXT) {  // take over the place of a thread whose end the creator knows of
        for (id = 1; id < MAXT; id++)
            if (T[id].st == T_DONE && T[id].joined && c.vc[id] >= T[id].vc[id]) break;
        if (id == MAXT) sim_infra("too many threads");
        clk0 = T[id].vc[id];
    }
    Thread& t = T[id];
    memset((void*)&t, 0, sizeof t);
    t.fn = fn;
    t.arg = arg;
    t.stack_lo = STACKS + (size_t)id * (STACK_SZ + 65536);
    t.stack_hi = t.stack_lo + STACK_SZ;
    int detached = 0;
    if (at) { int ds; pthread_attr_getdetachstate(at, &ds); detached = ds == PTHREAD_CREATE_DETACHED; }
    tl_native++;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, t.stack_lo, STACK_SZ);
    if (detached) pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    t.detached = detached;
    int r = real_pthread_create(&t.real, &a, trampoline, (void*)(intptr_t)id);
    pthread_attr_destroy(&a);
    tl_native--;
    if (r) sim_infra("real pthread_create failed: %d", r);
    *th = t.real;
    if (id == nT) nT++;
    memcpy(t.vc, c.vc, sizeof t.vc);
    t.vc[id] = clk0 + 1;
    c.vc[cur]++;
    t.st = T_RUN;
    t.prio = g_mode == SIM_EXPLORE ? (int64_t)rngS.below(1u << 30) : 0;
    sync_point(32, 0);
    return 0;
}
static int find_thread(pthread_t p) {
    for (int i = nT - 1; i >= 0; i--)
        if (T[i].st != T_FREE && T[i].real == p && !T[i].joined) return i;
    return -1;
}
int pthread_join(pthread_t p, void** ret) {
    if (!g_active) return real_pthread_join(p, ret);
    int id = find_thread(p);
    if (id < 0) sim_fail("BAD-JOIN", "t%d joins a thread that is not joinable", cur);
    sync_point(33, 0);
    while (T[id].st != T_DONE) block(W_JOIN, (uintptr_t)id + 1);
    vjoin(T[cur].vc, T[id].vc);
    T[id].joined = true;
    tl_native++;
    real_pthread_join(p, nullptr);
    tl_native--;
    if (ret) *ret = T[id].ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!g_active) return real_pthread_detach(p);
    int id = find_thread(p);
    if (id < 0) sim_fail("BAD-DETACH", "detach of unknown thread");
    T[id].detached = true;
    tl_native++;
    real_pthread_detach(p);
    tl_native--;
    return 0;
}

// ------------------------------------------------------------ allocation
static bool alloc_fails() {
    Thread& c = T[cur];
    if (tl_nofault) return false;
    if (!((c.armed >> F_ALLOC & 1) || (!c.client && g_armed_count[F_ALLOC]))) return false;
    return fault_opportunity(F_ALLOC, 0, nullptr);
}
extern char __executable_start, etext;
static inline bool from_program(uintptr_t pc) { return pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&etext; }
void* malloc(size_t n) {
    if (!SIMON) return __libc_malloc(n);
    if (from_program(PC)) {  // the library itself, not libstdc++ or libc
        sync_point(35, 0);
        if (alloc_fails()) return nullptr;
        return arena_alloc(n, 16, K_ALIGNED, PC);
    }
    return arena_alloc(n, 16, K_MALLOC, PC);
}
void* calloc(size_t n, size_t m) {
    if (!SIMON) return __libc_calloc(n, m);
    if (m && n > (size_t)-1 / m) return nullptr;
    if (from_program(PC)) {
        sync_point(35, 0);
        if (alloc_fails()) return nullptr;
        void* q = arena_alloc(n * m, 16, K_ALIGNED, PC);
        if (q) memset(q, 0, n * m);
        return q;
    }
    void* p = arena_alloc(n * m, 16, K_MALLOC, PC);
    if (p) memset(p, 0, n * m);
    return p;
}
void free(void* p) {
    if (!p) return;
    if (!arena_owns((uintptr_t)p)) { __libc_free(p); return; }
    if (g_active) arena_free(p, PC, false);
}
void* realloc(void* p, size_t n) {
    if (p && !arena_owns((uintptr_t)p)) return __libc_realloc(p, n);
    if (!SIMON) return __libc_realloc(nullptr, n);
    void* q = arena_alloc(n, 16, from_program(PC) ? K_ALIGNED : K_MALLOC, PC);
    if (p && q) {
        Chunk* c = (Chunk*)((char*)p - sizeof(Chunk));
        memcpy(q, p, c->size < n ? c->size : n);
        arena_free(p, PC, false);
    }
    return q;
}
int posix_memalign(void** out, size_t al, size_t n) {
    if (!SIMON) { void* p = __libc_memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }
    sync_point(35, 0);
    if (alloc_fails()) return ENOMEM;
    void* p = arena_alloc(n, al, K_ALIGNED, PC);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* aligned_alloc(size_t al, size_t n) {
    if (!SIMON) return __libc_memalign(al, n);
    sync_point(35, 0);
    if (alloc_fails()) return nullptr;
    return arena_alloc(n, al, K_ALIGNED, PC);
}
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
}  // extern "C"

static void* new_impl(size_t n, size_t al, uintptr_t pc) {
    if (!SIMON) return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
    sync_point(34, 0);
    if (alloc_fails()) return nullptr;
    return arena_alloc(n, al, K_NEW, pc);
}
static void del_impl(void* p, uintptr_t pc) {
    if (!p) return;
    if (!arena_owns((uintptr_t)p)) { __libc_free(p); return; }
    if (g_active) arena_free(p, pc, true);
}
void* operator new(size_t n) { void* p = new_impl(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = new_impl(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { void* p = new_impl(n, (size_t)a, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = new_impl(n, (size_t)a, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, PC); }
void operator delete(void* p) noexcept { del_impl(p, PC); }
void operator delete[](void* p) noexcept { del_impl(p, PC); }
void operator delete(void* p, size_t) noexcept { del_impl(p, PC); }
void operator delete[](void* p, size_t) noexcept { del_impl(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { del_impl(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { del_impl(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del_impl(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del_impl(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p, PC); }

// ------------------------------------------------------------ scenario API
extern "C" {
uint32_t sim_w(uint32_t n) {
    if (n == 0) n = 1;
    SimTrace& t = R->tr;
    uint32_t v;
    if (g_mode == SIM_REPLAY) {
        v = rt_w < RT->nw ? RT->w[rt_w] % n : 0;
        rt_w++;
    } else v = rngW.below(n);
    if (t.nw < SIM_MAXW) { t.w[t.nw] = v; t.wn[t.nw] = n; t.nw++; }
    else t.overflow = 1;
    return v;
}
uint32_t sim_w_free(uint32_t n) {
    if (R->nfree < 8) R->freew[R->nfree++] = R->tr.nw;
    return sim_w(n);
}
void sim_digest(uint64_t d) {
    R->digest = R->digest * 0x9E3779B97F4A7C15ull + (d ^ (d >> 29)) + 1;
}
void sim_digest_done() {
    if (RT && g_mode == SIM_REPLAY && RT->expect && RT->expect != R->digest)
        sim_fail("NOT-REPRODUCIBLE", "digest of all results is %lx, another execution of the same program (other schedule, other number of workers) gives %lx", (unsigned long)R->digest, (unsigned long)RT->expect);
}
uint32_t sim_range(uint32_t lo, uint32_t hi) { return lo + sim_w(hi - lo + 1); }
void sim_plan_prob(int k, uint32_t den, uint32_t max) { plan[k].mode = 1; plan[k].den = den; plan[k].max = max; }
void sim_plan_at(int k, uint32_t first, uint32_t count) { sim_plan_in(k, 0, first, count); }
void sim_plan_in(int k, uint32_t where, uint32_t first, uint32_t count) {
    sim_plan_none(k);
    plan[k].mode = 2;
    plan[k].where = where;
    plan[k].first = first;
    plan[k].count = count;
}
void sim_plan_none(int k) { memset(&plan[k], 0, sizeof plan[k]); }
uint32_t sim_plan_seen(int k, uint32_t where) { return plan[k].seen[where]; }
void sim_arm(int k, int on) {
    Thread& c = T[cur];
    if (on && !(c.armed >> k & 1)) { c.armed |= 1u << k; g_armed_count[k]++; }
    if (!on && (c.armed >> k & 1)) { c.armed &= ~(1u << k); g_armed_count[k]--; }
}
void sim_arm_workers(int k, int on) { if (on) g_armed_count[k]++; else g_armed_count[k]--; }
void sim_nofault(int d) { tl_nofault += d; }
void sim_client() { T[cur].client = true; }
int sim_fault_point(int k) {
    if (!SIMON) return 0;
    Thread& c = T[cur];
    if (tl_nofault) return 0;
    if (!((c.armed >> k & 1) || (!c.client && g_armed_count[k]))) return 0;
    return fault_opportunity(k, 0, nullptr);
}
uint32_t sim_fired(int k) { return R->fired[k]; }
uint32_t sim_self() { return (uint32_t)cur; }
uint32_t sim_threads_alive() {
    uint32_t n = 0;
    for (int i = 0; i < nT; i++) if (T[i].st == T_RUN || T[i].st == T_BLOCKED) n++;
    return n;
}
uint64_t sim_step() { return g_step; }
void sim_yield() { if (SIMON) sync_point(41, 0); }
void sim_probe(int i) { if (SIMON) R->probe[i]++; }
void sim_native(int d) { tl_native += d; }
void sim_leak_check(int on) { g_leak = on; }
void sim_at_end(void (*fn)()) { g_end_fn = fn; }
int sim_is_active() { return g_active; }

// Declare everything below the caller's frame dead: a later access of another
// thread to a stack variable of a returned function is then a detected race.
NOINLINE void sim_stack_garbage() {
    if (!SIMON) return;
    char buf[12288];
    garbage(buf, sizeof buf);
    __asm__ volatile("" : : "r"(buf) : "memory");
}
NOINLINE void sim_stack_retire() {
    if (!SIMON) return;
    char here;
    uintptr_t hi = (uintptr_t)__builtin_frame_address(0), lo = (uintptr_t)&here - 49152;
    if (T[cur].stack_lo && lo < (uintptr_t)T[cur].stack_lo + 4096) lo = (uintptr_t)T[cur].stack_lo + 4096;
    if (nT > 1)
        for (uintptr_t w = lo & ~7ul; w < hi; w += 8) {
            SPage* p = page_of(w, false);
            if (!p) { w |= 4095 & ~7ul; continue; }
            Cell& c = p->c[(w >> 3) & 511];
            bool used = false;
            for (auto& e : c.w) used |= e.clk != 0;
            for (auto& e : c.r) used |= e.clk != 0;
            if (used) race_word(w, 0xff, true, PC);
        }
}
}

// -------------------------------------------------------------------- set-up
static void on_signal(int sig, siginfo_t*, void*) {
    if (!g_active) _exit(128 + sig);
    if (sig == SIGXCPU) sim_fail("HANG", "run used its CPU budget outside instrumented code (t%d)", cur);
    sim_fail(sig == SIGSEGV || sig == SIGBUS ? "CRASH" : sig == SIGABRT ? "ABORT" : "SIGNAL",
             "signal %d in t%d", sig, cur);
}
static void on_terminate() {
    tl_native++;
    const char* what = "no active exception";
    char b[256];
    std::type_info* ti = abi::__cxa_current_exception_type();
    if (ti) {
        int st;
        char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        snprintf(b, sizeof b, "uncaught %s", d ? d : ti->name());
        what = b;
    }
    sim_fail("TERMINATE", "std::terminate in t%d: %s", cur, what);
}
static void sim_final() {
    if (!g_active) return;
    tl_native++;
    for (int i = 1; i < nT; i++)
        if (T[i].st != T_DONE && !T[i].detached)
            sim_fail("THREAD-LEFT", "thread t%d still alive at the end of the process", i);
    for (int i = 1; i < nT; i++)
        if (!T[i].joined && !T[i].detached)
            sim_fail("THREAD-LEFT", "thread t%d never joined", i);
    if (g_end_fn) g_end_fn();
    if (g_leak && a_live_new) {
        char b[1024];
        size_t l = 0;
        uint64_t n = 0, by = 0;
        b[0] = 0;
        for (Chunk* c = a_list; c; c = c->next)
            if (c->magic == C_LIVE && c->kind != K_MALLOC) {
                n++;
                by += c->size;
                if (l + 64 < sizeof b) l += (size_t)snprintf(b + l, sizeof b - l, " [%lu bytes, t%u, pc=0x%lx]", (unsigned long)c->size, c->tid, (unsigned long)(c->pc - (uint32_t)g_text_base));
            }
        sim_fail("LEAK", "%lu block(s), %lu bytes never released:%s", (unsigned long)n, (unsigned long)by, b);
    }
    R->alloc_count = a_cnt;
    R->alloc_bytes = a_bytes;
    if (R->status == 0) R->status = 1;
    finish(0);
}
__attribute__((constructor(101))) static void early() { atexit(sim_final); }

extern "C" void sim_setup_once() {
    real_pthread_create = REAL(pthread_create);
    real_pthread_join = REAL(pthread_join);
    real_pthread_detach = REAL(pthread_detach);
    pthread_key_create(&g_key, thread_end);
    void* p = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap(HSH, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s = mmap(STACKS, (size_t)MAXT * (STACK_SZ + 65536), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA || q != (void*)HSH || s != STACKS) { fprintf(stderr, "cannot map simulator memory\n"); _exit(4); }
    g_bucket = (SPage**)mmap(nullptr, NBUCKET * sizeof(SPage*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::set_terminate(on_terminate);
}

extern "C" void sim_start(SimMode mode, uint64_t seed, const SimTrace* replay, SimResult* res, uint64_t max_steps) {
    R = res;
    RT = replay;
    g_mode = mode;
    rngW.s = seed ^ 0x57ull * 0x100000001b3ull;
    rngS.s = seed * 3 + 0x1234567;
    rngF.s = seed * 5 + 0x9876543;
    for (int i = 0; i < 3; i++) { rngW.next(); rngS.next(); rngF.next(); }
    g_max_steps = max_steps;
    g_fair_from = max_steps / 3 < 13000000 ? max_steps / 3 : 13000000;
    nT = 1;
    cur = 0;
    tl_id = 0;
    T[0].st = T_RUN;
    T[0].baton = 1;
    T[0].vc[0] = 1;
    T[0].client = true;
    T[0].stack_lo = STACKS;
    T[0].stack_hi = STACKS + STACK_SZ;
    T[0].real = pthread_self();
    g_clock = 1000000000ull;
    g_heap = sim_w_free(64);
    g_garbage = g_heap % 3 == 1 ? 0xFF : 0xC3;  // 0xFF..FF is a NaN
    g_reuse = g_heap % 4 == 3;
    // strategy (swarm): drawn from the schedule stream
    uint32_t k = rngS.below(10);
    st_kind = k < 4 ? 0 : k < 7 ? 1 : k < 9 ? 2 : 3;
    static const uint32_t dens[] = {2, 4, 8, 32};
    st_psync_den = dens[rngS.below(4)];
    static const uint32_t gaps[] = {0, 0, 15, 60, 300, 2000};
    st_gap = gaps[rngS.below(6)];
    if (st_kind == 3) { st_psync_den = 100; st_gap = 0; }
    if (st_kind == 1) {
        st_nchg = (int)rngS.below(6);
        static const uint32_t hor[] = {300, 3000, 20000, 100000};
        uint32_t h = hor[rngS.below(4)];
        for (int i = 0; i < st_nchg; i++) st_chg[i] = 1 + rngS.below(h);
        for (int i = 0; i < st_nchg; i++) for (int j = i + 1; j < st_nchg; j++) if (st_chg[j] < st_chg[i]) { uint64_t t = st_chg[i]; st_chg[i] = st_chg[j]; st_chg[j] = t; }
        T[0].prio = rngS.below(1u << 30);
    }
    if (st_kind == 2) {
        st_victims = (uint32_t)rngS.next() & (uint32_t)rngS.next() & 0x7fff;
        st_stall_from = rngS.below(2000);
        static const uint32_t len[] = {500, 5000, 50000};
        st_stall_to = st_stall_from + len[rngS.below(3)];
    }
    st_low = -1;
    R->strategy = (uint32_t)st_kind;
    if (mode == SIM_EXPLORE) {
        plan[F_NOTIFY].mode = 1;
        plan[F_NOTIFY].den = 2;
        plan[F_NOTIFY].max = 1u << 30;
        if (rngF.below(3) == 0) { plan[F_SPURIOUS].mode = 1; plan[F_SPURIOUS].den = 20 + rngF.below(200); plan[F_SPURIOUS].max = 1 + rngF.below(8); }
        if (rngF.below(3) == 0) { plan[F_EINTR].mode = 1; plan[F_EINTR].den = 2 + rngF.below(4); plan[F_EINTR].max = 1 + rngF.below(4); }
        if (rngF.below(2) == 0) { plan[F_TIMER].mode = 1; plan[F_TIMER].den = 1 + rngF.below(12); plan[F_TIMER].max = 1 + rngF.below(8); }
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    struct rlimit rl = {40, 60};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    Dl_info di;
    g_text_base = 0;
    if (dladdr((void*)&sim_start, &di)) g_text_base = (uintptr_t)di.dli_fbase;
    extern char __executable_start;
    g_text_base = (uintptr_t)&__executable_start <= 0x400000 ? 0 : (uintptr_t)&__executable_start;
    g_step = 0;
    g_slice_start = 0;
    g_active = true;
    set_next_pp();
}
extern "C" void sim_exit_phase() { g_in_exit = 1; }
