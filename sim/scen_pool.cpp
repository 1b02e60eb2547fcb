// Scenarios for the thread pool: exactly-once execution, progress, shutdown,
// start-up.  The pool is the real DedicatedThreadPool; only threads, locks,
// futexes, clocks and the allocator underneath are simulated.
#include "DedicatedThreadPool.hpp"
#include "rt.h"
#include "scen.h"

#include <atomic>
#include <chrono>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>

using intp::DedicatedThreadPool;

#define EXPECT(cond, cls, ...)             \
    do {                                   \
        if (!(cond)) sim_fail(cls, __VA_ARGS__); \
    } while (0)

namespace {

struct TaskError {
    int id;
};
struct StdTaskError : std::exception {
    int id;
    explicit StdTaskError(int i) : id(i) {}
};
struct MoveOnly {
    std::unique_ptr<int> p;
    MoveOnly() {}
    explicit MoveOnly(int v) : p(new int(v)) {}
    MoveOnly(MoveOnly&& o) : p(std::move(o.p)) {}
    MoveOnly& operator=(MoveOnly&& o) {
        p = std::move(o.p);
        return *this;
    }
};

// one submitted task and everything the specification says about it
struct Rec {
    int id = 0;
    int in = 0;      // plain: written before queue_task, read by the task
    int out = 0;     // plain: written by the task, read after get()
    int runs = 0;    // plain: how often the task body ran
    bool throws = false;
    bool accepted = false;
    std::atomic<int> done{0};
    Rec* sub = nullptr;  // task queues this one
    int work = 0;
    uint32_t owner = ~0u;  // the submitting thread, where moving the callable may fail
    int kind = 0;        // what it throws: 0 TaskError, 1 bad_alloc, 2 runtime_error, 3 future_error, 4 int
};

template <typename R>
struct Val;
template <>
struct Val<int> {
    static int make(int v) { return v * 3 + 1; }
    static bool ok(int r, int v) { return r == v * 3 + 1; }
};
template <>
struct Val<void> {
    static void make(int) {}
};
template <>
struct Val<MoveOnly> {
    static MoveOnly make(int v) { return MoveOnly(v * 5 + 2); }
    static bool ok(const MoveOnly& r, int v) { return r.p && *r.p == v * 5 + 2; }
};

template <>
struct Val<std::string> {
    static std::string make(int v) { return std::string(20 + (size_t)v % 30, (char)('a' + v % 26)); }
    static bool ok(const std::string& r, int v) { return r == make(v); }
};
int g_cells[64];
template <>
struct Val<int&> {
    static int& make(int v) { return g_cells[v & 63]; }
    static bool ok(int& r, int v) { return &r == &g_cells[v & 63]; }
};

// RAII for armed faults
struct Arm {
    int k;
    explicit Arm(int kind, bool on = true) : k(on ? kind : -1) {
        if (k >= 0) sim_arm(k, 1);
    }
    ~Arm() {
        if (k >= 0) sim_arm(k, 0);
    }
};

struct NoFault {
    NoFault() { sim_nofault(1); }
    ~NoFault() { sim_nofault(-1); }
};

struct MoveFailed {};  // a callable that can not be moved just now
// a task of one pool that uses another one
void cross(int v) {
    auto f = DedicatedThreadPool<long>::get_instance(2).queue_task([v] { return (long)v + 5; });
    if (v & 1) EXPECT(f.get() == v + 5, "WRONG-VALUE", "task of another pool");
}
template <typename R>
struct Body {
    Rec* r;
    DedicatedThreadPool<R>* pool;
    std::unique_ptr<int> payload;  // move-only capture: leaks show up
    std::future<R>* subf;
    Body(Rec* rr, DedicatedThreadPool<R>* p, std::future<R>* sf)
        : r(rr), pool(p), payload(new int(rr->id)), subf(sf) {}
    Body(Body&& o) : r(o.r), pool(o.pool), payload(), subf(o.subf) {
        if (r->owner == sim_self() && sim_fault_point(F_THROW)) throw MoveFailed();
        payload = std::move(o.payload);
    }
    R operator()() {
        NoFault nf;  // what the task body does is the user's business
        const int in = r->in;
        common();
        return Val<R>::make(in);
    }
    void common() {
        EXPECT(payload && *payload == r->id, "TASK-CORRUPTED", "captured state of task %d was lost", r->id);
        r->runs++;
        int x = r->in;
        for (int i = 0; i < r->work; i++) sim_yield();
        r->out = x + 7;
        if (r->sub && subf) {
            Rec* s = r->sub;
            s->in = 1000 + s->id;
            try {
                *subf = pool->queue_task(Body<R>(s, pool, nullptr));
                s->accepted = true;
            } catch (const std::bad_alloc&) {
                if (!sim_fired(F_ALLOC)) throw;
            }
        }
        const bool th = r->throws;
        const int id = r->id, kind = r->kind;
        if (kind == 9) cross(id);
        r->done.store(1);  // the record may be gone from here on
        if (!th) return;
        switch (kind) {
            case 1: throw std::bad_alloc();
            case 2: throw StdTaskError(id);
            case 3: throw std::future_error(std::future_errc::no_state);
            case 4: throw id;
            default: throw TaskError{id};
        }
    }
};
template <typename R>
std::future<R> submit(DedicatedThreadPool<R>& pool, Rec* r, std::future<R>* subf) {
    return pool.queue_task(Body<R>(r, &pool, subf));
}

template <typename R>
struct Getter {
    static void get(std::future<R>& f, Rec& r) {
        R v(f.get());
        EXPECT(Val<R>::ok(v, r.in), "WRONG-VALUE", "task %d delivered a wrong result", r.id);
    }
};
template <>
struct Getter<void> {
    static void get(std::future<void>& f, Rec&) { f.get(); }
};

template <typename R>
void redeem(std::future<R>& f, Rec& r) {
    EXPECT(f.valid(), "FUTURE-INVALID", "future of task %d has no state", r.id);
    bool thrown = false;
    try {
        Getter<R>::get(f, r);
    } catch (const TaskError& e) {
        thrown = true;
        EXPECT(r.throws && e.id == r.id && (r.kind < 1 || r.kind > 4), "WRONG-EXCEPTION", "task %d delivered the exception of task %d", r.id, e.id);
    } catch (const std::future_error& e) {
        thrown = true;
        EXPECT(r.throws && r.kind == 3 && e.code() == std::future_errc::no_state, "TASK-LOST", "task %d was accepted but its promise was broken while the pool is alive", r.id);
    } catch (const std::bad_alloc&) {
        thrown = true;
        EXPECT(r.throws && r.kind == 1, "WRONG-OUTCOME", "task %d completed with bad_alloc although its body did not throw it", r.id);
    } catch (const StdTaskError& e) {
        thrown = true;
        EXPECT(r.throws && r.kind == 2 && e.id == r.id, "WRONG-EXCEPTION", "task %d delivered the exception of task %d", r.id, e.id);
    } catch (const std::exception&) {
        sim_fail("WRONG-EXCEPTION", "task %d delivered an exception of another kind", r.id);
    } catch (int v) {
        thrown = true;
        EXPECT(r.throws && r.kind == 4 && v == r.id, "WRONG-EXCEPTION", "task %d delivered %d", r.id, v);
    }
    EXPECT(thrown == r.throws, "WRONG-OUTCOME", "task %d: exception expected=%d delivered=%d", r.id, (int)r.throws, (int)thrown);
    EXPECT(r.runs == 1, "NOT-EXACTLY-ONCE", "task %d ran %d times", r.id, r.runs);
    EXPECT(r.out == r.in + 7, "EFFECT-LOST", "effects of task %d not visible after get()", r.id);
}

// ------------------------------------------------------------- C04: tasks
template <typename R>
void client_tasks(DedicatedThreadPool<R>& pool, Rec* recs, int n, int nsub, bool faults, bool gaps) {
    sim_client();
    std::unique_ptr<std::future<R>[]> fs(new std::future<R>[(size_t)n]);
    std::unique_ptr<std::future<R>[]> sf(new std::future<R>[(size_t)n]);
    int drop = 0;
    for (int i = 0; i < n; i++) {
        Rec& r = recs[i];
        r.in = r.id + 100;
        r.owner = sim_self();
        try {
            Arm a(F_ALLOC, faults), b(F_THROW, faults);
            fs[(size_t)i] = submit<R>(pool, &r, r.sub ? &sf[(size_t)i] : nullptr);
            r.accepted = true;
        } catch (const std::bad_alloc&) {
            EXPECT(sim_fired(F_ALLOC) > 0, "SPURIOUS-ERROR", "bad_alloc without an injected failure");
            sim_probe(1);
            continue;
        } catch (const MoveFailed&) {
            EXPECT(sim_fired(F_THROW) > 0, "SPURIOUS-ERROR", "callable reported as failed");
            sim_probe(9);
            continue;
        }
        if (gaps && i % 5 == 4) sim_idle((uint64_t)(1) * 1000);
    }
    (void)nsub;
    // redeem in a drawn order; some futures are dropped unredeemed
    int start = (int)sim_w((uint32_t)n);
    bool rev = sim_w(2);
    drop = (int)sim_w(3) == 0 ? (int)sim_w((uint32_t)n) : -1;
    if (drop >= 0 && recs[drop].accepted && !recs[drop].sub) {
        fs[(size_t)drop] = std::future<R>();
        sim_probe(2);
    } else {
        drop = -1;
    }
    for (int k = 0; k < n; k++) {
        int i = rev ? (start + n - k) % n : (start + k) % n;
        Rec& r = recs[i];
        if (!r.accepted) continue;
        if (i == drop) {
            int spins = 0;
            while (!r.done.load()) {
                std::this_thread::yield();
                if (++spins > 1000) sim_idle((uint64_t)(10) * 1000);
            }
            EXPECT(r.runs == 1, "NOT-EXACTLY-ONCE", "task %d (future dropped) ran %d times", r.id, r.runs);
            continue;
        }
        redeem<R>(fs[(size_t)i], r);
        if (r.sub && r.sub->accepted) {
            redeem<R>(sf[(size_t)i], *r.sub);
            sim_probe(3);
        }
    }
    for (int i = 0; i < n; i++)
        if (!recs[i].accepted)
            EXPECT(recs[i].runs == 0, "RAN-THOUGH-REJECTED", "task %d ran although queue_task threw", recs[i].id);
}

struct Quick {  // for long sequences of choices that would not fit into a trace
    uint64_t s;
    explicit Quick(uint32_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 99) {}
    uint32_t below(uint32_t n) {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        return (uint32_t)(z >> 33) % n;
    }
};
template <typename R>
void tasks_with(bool faults, bool gaps) {
    static const int sizes[] = {1, 3, 7, 16, 17, 34, 75, 150, 400};
    int nth = 1 + (int)sim_w(4);
    if (sim_w(150) == 0) nth = 5 + (int)sim_w(200);
    int nclient = 1 + (int)sim_w(3);
    // faults only in the pool's own threads need long queues to matter
    bool wfaults = faults && sim_w(2);
    int per = wfaults ? sizes[5 + sim_w(2)] : sizes[sim_w(nclient > 1 ? 4 : 7)];
    if (sim_w(24) == 0) per = sizes[7 + (nclient == 1 && sim_w(3) == 0)];
    if (!faults && sim_w(60) == 0) {  // many submitters
        nclient = 4 + (int)sim_w(12);
        per = sizes[sim_w(4)];
    }
    int nsub = (int)sim_w(3);
    int pthrow = (int)sim_w(4);
    const bool kinds = sim_w(3) == 0, two = sim_w(12) == 0;
    uint32_t huge = faults || gaps ? 0 : sim_w(8000);  // a queue longer than any small number
    if (huge >= 7960) nclient = 1, per = huge % 4 ? 1100 : 4200;
    const bool lots = nclient * per > 300;
    if (per > 1000) sim_probe(29);
    Quick q(lots ? sim_w(1u << 20) : 0);
    auto w = [&](uint32_t n) { return lots ? q.below(n) : sim_w(n); };
    auto& pool = DedicatedThreadPool<R>::get_instance((size_t)nth);
    EXPECT(pool.thread_num() == (size_t)nth, "WRONG-THREAD-COUNT", "asked for %d threads, pool reports %zu", nth, pool.thread_num());
    std::unique_ptr<Rec[]> recs(new Rec[(size_t)(nclient * per * 2)]);
    for (int i = 0; i < nclient * per; i++) {
        Rec& k = recs[(size_t)i];
        k.id = i + 1;
        k.work = (int)w(3) == 0 ? (int)w(4) : 0;
        k.throws = pthrow && w(4) < (uint32_t)pthrow;
        if (kinds) k.kind = (int)w(5);
        if (two && w(4) == 0) k.kind = 9;
        if (nsub && w(5) == 0) {
            Rec& s = recs[(size_t)(nclient * per + i)];
            s.id = 100000 + i;
            s.throws = w(3) == 0;
            k.sub = &s;
        }
    }
    if (faults) {
        if (sim_w(2)) sim_plan_prob(F_ALLOC, 4 + sim_w(30), 1 + sim_w(6));
        else sim_plan_at(F_ALLOC, sim_w(60), 1 + sim_w(3));
        if (sim_w(3) == 0) sim_plan_prob(F_THROW, 2 + sim_w(20), 1 + sim_w(4));
    }
    if (wfaults) {
        sim_plan_prob(F_ALLOC, 1 + sim_w(2), 1 + sim_w(8));
        sim_arm_workers(F_ALLOC, 1);
        faults = false;
    }
    std::unique_ptr<std::thread[]> ts(new std::thread[(size_t)nclient]);
    for (int c = 1; c < nclient; c++) {
        Rec* rp = &recs[(size_t)(c * per)];
        ts[(size_t)c] = std::thread([&pool, rp, per, nsub, faults, gaps] { client_tasks<R>(pool, rp, per, nsub, faults, gaps); });
    }
    client_tasks<R>(pool, &recs[0], per, nsub, faults, gaps);
    for (int c = 1; c < nclient; c++) ts[(size_t)c].join();
    if (wfaults) sim_arm_workers(F_ALLOC, 0);
    EXPECT(pool.is_main_queue_empty(), "QUEUE-NOT-EMPTY", "all accepted tasks completed but the main queue is not empty");
    for (int i = 0; i < nclient * per * 2; i++) {
        int want = recs[(size_t)i].accepted ? 1 : 0;
        EXPECT(recs[(size_t)i].runs == want, "NOT-EXACTLY-ONCE", "task %d ran %d times, expected %d", recs[(size_t)i].id, recs[(size_t)i].runs, want);
    }
    sim_leak_check(1);
}
void pool_tasks() {
    bool faults = sim_w(3) == 0, gaps = sim_w(3) == 0;
    switch (sim_w(5)) {
        case 0: tasks_with<int>(faults, gaps); break;
        case 1: tasks_with<void>(faults, gaps); break;
        case 2: tasks_with<std::string>(faults, gaps); break;
        case 3: tasks_with<int&>(faults, gaps); break;
        default: tasks_with<MoveOnly>(faults, gaps); break;
    }
}
SCENARIO("pool_tasks", pool_tasks, 40000000);

// ---------------------------------------------------------- C05: progress
// Rounds of submission separated by idle phases of random length: every round
// must finish, whoever is asleep, stalled or spuriously woken.
void progress_client(DedicatedThreadPool<int>& pool, int rounds, int burst, int idle, int tag) {
    sim_client();
    for (int r = 0; r < rounds; r++) {
        int n = burst > 1000 ? burst : 1 + (int)sim_w((uint32_t)burst);
        std::unique_ptr<std::future<int>[]> fs(new std::future<int>[(size_t)n]);
        std::unique_ptr<int[]> hit(new int[(size_t)n]);
        for (int i = 0; i < n; i++) {
            hit[(size_t)i] = 0;
            int* h = &hit[(size_t)i];
            int v = tag + r * 1000 + i;
            fs[(size_t)i] = pool.queue_task([h, v] {
                ++*h;
                return v;
            });
            if (idle == 2 && i % 3 == 1) sim_idle((uint64_t)(2) * 1000);
        }
        if (idle == 3) {  // poll with a timeout instead of blocking
            while (fs[(size_t)(n - 1)].wait_for(std::chrono::microseconds(50)) != std::future_status::ready) sim_probe(4);
        }
        for (int i = n - 1; i >= 0; i--) {
            int v = fs[(size_t)i].get();
            EXPECT(v == tag + r * 1000 + i && hit[(size_t)i] == 1, "WRONG-VALUE", "round %d task %d", r, i);
        }
        if (idle) sim_idle((uint64_t)(1 + r) * 1000);
    }
}
void pool_progress() {
    static const int nths[] = {1, 2, 3, 4, 8};
    int nth = nths[sim_w(5)];
    if (sim_w(40) == 0) nth = 12 + (int)sim_w(sim_w(4) ? 30 : 200);
    int nclient = 1 + (int)sim_w(3);
    int rounds = 1 + (int)sim_w(5);
    static const int bursts[] = {1, 2, 5, 18};
    int burst = bursts[sim_w(4)];
    if (sim_w(24) == 0) burst = 70;
    if (sim_w(24) == 0 && burst < 18) rounds = 20 + (int)sim_w(30);
    if (sim_w(400) == 0) nclient = 1, burst = 2, rounds = 280;
    if (sim_w(60) == 0) nclient = 5 + (int)sim_w(10), burst = 5, rounds = 2;
    int idle = (int)sim_w(4);
    if (sim_w(400) == 0) {
        nclient = 1, burst = 1030 + (int)sim_w(100), rounds = 2;
        if (idle == 2) idle = 1;
    }
    auto& pool = DedicatedThreadPool<int>::get_instance((size_t)nth);
    if (sim_w(2)) sim_idle((uint64_t)(5) * 1000);  // let all workers fall asleep
    std::unique_ptr<std::thread[]> ts(new std::thread[(size_t)nclient]);
    for (int c = 1; c < nclient; c++) ts[(size_t)c] = std::thread([&pool, rounds, burst, idle, c] { progress_client(pool, rounds, burst, idle, c * 1000000); });
    progress_client(pool, rounds, burst, idle, 0);
    for (int c = 1; c < nclient; c++) ts[(size_t)c].join();
    sim_leak_check(1);
}
SCENARIO("pool_progress", pool_progress, 6000000);

// ---------------------------------------------------------- C06: shutdown
struct Shut {
    int n = 0;
    std::unique_ptr<std::future<int>[]> f;
    std::unique_ptr<Rec[]> r;
    std::unique_ptr<std::future<int>[]> sf;
};
Shut* g_shut;
void shut_one(std::future<int>& f, Rec& r) {
    if (!r.accepted) {
        return;
    }
    EXPECT(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "FUTURE-PENDING", "future of task %d still pending after the pool is gone", r.id);
    try {
        int v = f.get();
        EXPECT(!r.throws && Val<int>::ok(v, r.in), "WRONG-VALUE", "task %d", r.id);
        EXPECT(r.runs == 1, "NOT-EXACTLY-ONCE", "task %d has a value but ran %d times", r.id, r.runs);
        sim_probe(5);
    } catch (const TaskError& e) {
        EXPECT(r.throws && e.id == r.id && r.runs == 1, "WRONG-EXCEPTION", "task %d", r.id);
    } catch (const std::future_error& e) {
        EXPECT(e.code() == std::future_errc::broken_promise, "WRONG-EXCEPTION", "task %d: unexpected future error", r.id);
        EXPECT(r.runs == 0, "OUTCOME-LOST", "task %d ran %d times but its promise is broken", r.id, r.runs);
        sim_probe(6);
    }
}
void shut_check() {
    if (!g_shut) return;
    Shut* s = g_shut;
    g_shut = nullptr;
    EXPECT(sim_threads_alive() == 1, "THREAD-LEFT", "%u threads alive after the pool was destroyed", sim_threads_alive() - 1);
    for (int i = 0; i < s->n; i++) {
        if (s->f[(size_t)i].valid()) shut_one(s->f[(size_t)i], s->r[(size_t)i]);
        Rec* sub = s->r[(size_t)i].sub;
        if (sub && sub->accepted) shut_one(s->sf[(size_t)i], *sub);
    }
    delete s;
}
// a task that queues its successor, for ever: only shutdown ends the chain
struct Tick {
    DedicatedThreadPool<int>* pool;
    std::unique_ptr<int> payload;
    int work;
    Tick(DedicatedThreadPool<int>* p, int w) : pool(p), payload(new int(4711)), work(w) {}
    Tick(Tick&& o) = default;
    int operator()() {
        EXPECT(payload && *payload == 4711, "TASK-CORRUPTED", "captured state of a task was lost");
        for (int i = 0; i < work; i++) sim_yield();
        pool->queue_task(Tick(pool, work));
        return 0;
    }
};
void pool_shutdown() {
    static const int nths[] = {1, 2, 3, 5, 8};
    int nth = nths[sim_w(5)];
    if (sim_w(80) == 0) nth = 9 + (int)sim_w(sim_w(4) ? 30 : 200);
    static const int sizes[] = {0, 1, 4, 17, 40};
    int n = sizes[sim_w(5)];
    g_shut = new Shut;
    g_shut->n = n;
    g_shut->f.reset(new std::future<int>[(size_t)n + 1]);
    g_shut->sf.reset(new std::future<int>[(size_t)n + 1]);
    g_shut->r.reset(new Rec[(size_t)(2 * n) + 1]);
    std::atexit(shut_check);  // registered before the pool: runs after it is gone
    bool subs = sim_w(3) == 0;
    for (int i = 0; i < n; i++) {
        Rec& r = g_shut->r[(size_t)i];
        r.id = i + 1;
        r.in = i + 100;
        r.work = (int)sim_w(3);
        r.throws = sim_w(6) == 0;
        if (subs && sim_w(3) == 0) {
            r.sub = &g_shut->r[(size_t)(n + i)];
            r.sub->id = 5000 + i;
        }
    }
    auto& pool = DedicatedThreadPool<int>::get_instance((size_t)nth);
    uint32_t early = sim_w(4);
    if (early == 1) sim_idle((uint64_t)(1) * 1000);
    int chains = sim_w(6) == 0 ? 1 + (int)sim_w(3) : 0;
    for (int i = 0; i < chains; i++) pool.queue_task(Tick(&pool, (int)sim_w(3)));
    if (chains) sim_probe(15);
    for (int i = 0; i < n; i++) {
        Rec& r = g_shut->r[(size_t)i];
        g_shut->f[(size_t)i] = submit<int>(pool, &r, r.sub ? &g_shut->sf[(size_t)i] : nullptr);
        r.accepted = true;
    }
    uint32_t how = sim_w(4);
    if (chains && how) how = 3;  // such a pool is never idle
    if (how == 1) sim_idle((uint64_t)(1) * 1000);  // everyone idle
    if (how == 2 && n) {
        int k = (int)sim_w((uint32_t)n);
        g_shut->f[(size_t)k].wait();
    }
    if (how == 3) {
        uint32_t k = sim_w(40);
        for (uint32_t i = 0; i < k; i++) sim_yield();
    }
    // a second pool of another type shares the process
    if (sim_w(4) == 0) {
        auto& p2 = DedicatedThreadPool<void>::get_instance(2);
        static int hits = 0;
        auto f = p2.queue_task([] { hits++; });
        if (sim_w(2)) f.get();
    }
    sim_leak_check(1);
}
SCENARIO("pool_shutdown", pool_shutdown, 600000);

// ---------------------------------------------------------- C07: start-up
struct Start {
    std::atomic<void*> inst{nullptr};
    std::atomic<int> ok{0};
};
size_t g_req[20];
int g_nreq, g_ndflt;  // 0: whatever the hardware is said to have
void startup_client(Start* st, size_t num, bool dflt, bool fth, bool fal, int alone) {
    sim_client();
    DedicatedThreadPool<int>* p = nullptr;
    uint32_t before = sim_threads_alive();
    for (int attempt = 0; !p; attempt++) {
        uint32_t ft = sim_fired(F_THREAD), fa = sim_fired(F_ALLOC);
        try {
            Arm a(F_THREAD, fth && attempt < 4), b(F_ALLOC, fal && attempt < 4);
            p = dflt ? &DedicatedThreadPool<int>::get_instance() : &DedicatedThreadPool<int>::get_instance(num);
        } catch (const std::system_error& e) {
            EXPECT(sim_fired(F_THREAD) > (alone ? ft : 0), "SPURIOUS-ERROR", "system_error although no thread creation failed");
            EXPECT(e.code() == std::errc::resource_unavailable_try_again, "WRONG-EXCEPTION", "start-up failure reported with another error code");
            sim_probe(7);
        } catch (const std::bad_alloc&) {
            EXPECT(sim_fired(F_ALLOC) > (alone ? fa : 0), "SPURIOUS-ERROR", "bad_alloc although no allocation failed");
            sim_probe(8);
        }
        if (!p && alone)
            EXPECT(sim_threads_alive() == before, "THREAD-LEFT", "failed start-up left %u threads running", sim_threads_alive() - before);
        EXPECT(attempt < 64, "NOT-RETRYABLE", "pool start-up keeps failing after faults stopped");
    }
    void* expect = nullptr;
    if (!st->inst.compare_exchange_strong(expect, p)) EXPECT(expect == p, "TWO-POOLS", "two callers were given different pools");
    st->ok.fetch_add(1);
    int n = 1 + (int)sim_w(3);
    std::unique_ptr<std::future<int>[]> f(new std::future<int>[(size_t)n]);
    for (int i = 0; i < n; i++) f[(size_t)i] = p->queue_task([i] { return i * 11; });
    for (int i = 0; i < n; i++) EXPECT(f[(size_t)i].get() == i * 11, "WRONG-VALUE", "task after start-up");
    bool known = false;
    for (int i = 0; i < g_nreq; i++) {
        size_t t = p->thread_num();
        if (!g_req[i]) known |= (sim_fired(F_HWC) > 0 && t == 8) || ((int)sim_fired(F_HWC) < g_ndflt && t == 3);
        else known |= g_req[i] == t;
    }
    EXPECT(known, "WRONG-THREAD-COUNT", "pool has %zu threads, which no caller asked for", p->thread_num());
}
void pool_startup() {
    Start st;
    int nclient = 1 + (int)sim_w(4);
    if (sim_w(60) == 0) nclient = 5 + (int)sim_w(12);
    bool fth = sim_w(3) == 0, fal = sim_w(4) == 0, hw0 = sim_w(4) == 0;
    static const size_t nums[] = {0, 1, 2, 3, 5, 9};
    if (hw0) sim_plan_prob(F_HWC, 1, 1000);
    if (fth) {
        if (sim_w(3)) sim_plan_at(F_THREAD, sim_w(10), 1 + sim_w(2));
        else sim_plan_prob(F_THREAD, 3, 3);
    }
    if (fal) {
        if (sim_w(3)) sim_plan_at(F_ALLOC, sim_w(24), 1 + sim_w(2));
        else sim_plan_prob(F_ALLOC, 8, 3);
    }
    size_t num[20];
    bool dflt[20];
    for (int c = 0; c < nclient; c++) {
        num[c] = nums[sim_w(6)];
        if (nclient < 5 && sim_w(60) == 0) num[c] = 10 + sim_w(sim_w(3) ? 42 : 220);
        dflt[c] = sim_w(4) == 0;
        g_ndflt += dflt[c];
        g_req[g_nreq++] = dflt[c] ? 0 : num[c] ? num[c] : 8;
    }
    std::unique_ptr<std::thread[]> ts(new std::thread[(size_t)nclient]);
    for (int c = 1; c < nclient; c++) {
        size_t k = num[c];
        bool d = dflt[c];
        Start* sp = &st;
        ts[(size_t)c] = std::thread([=] { startup_client(sp, k, d, fth, fal, 0); });
    }
    startup_client(&st, num[0], dflt[0], fth, fal, nclient == 1);
    for (int c = 1; c < nclient; c++) ts[(size_t)c].join();
    EXPECT(st.ok.load() == nclient, "WRONG-VALUE", "not every caller got a pool");
    EXPECT(sim_threads_alive() == 1 + DedicatedThreadPool<int>::get_instance(4).thread_num(), "THREAD-LEFT",
           "%u threads alive, pool reports %zu", sim_threads_alive() - 1, DedicatedThreadPool<int>::get_instance(4).thread_num());
    sim_leak_check(1);
}
SCENARIO("pool_startup", pool_startup, 2000000);

}  // namespace
