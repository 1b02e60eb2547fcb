// Deterministic simulation runtime: public interface used by scenarios and by
// the batch/replay driver.  See DESIGN.md ("The simulator").
#pragma once
#include <stddef.h>
#include <stdint.h>

extern "C" {

enum SimFault {
    F_ALLOC = 0,   // operator new / posix_memalign / aligned_alloc fails
    F_THREAD,      // pthread_create returns EAGAIN
    F_SPURIOUS,    // spurious wake-up of a condition/futex waiter
    F_THROW,       // user-supplied value operation / task throws
    F_ITER,        // user-supplied input iterator throws
    F_HWC,         // hardware concurrency reported as 0
    F_EINTR,       // futex wait interrupted
    F_NOTIFY,      // notify_one delivered to a waiter other than the first
    F_STALL,       // a runnable thread starved for a long window
    F_TIMER,       // the clock jumps: a timed wait or sleep ends while others could still run
    F_N
};

#define SIM_MAXW 4096
#define SIM_MAXS 262144
#define SIM_MAXF 2048
#define SIM_NPROBE 64

struct SimDev {   // schedule deviation: at step `step`, run thread `tid`
    uint64_t step;
    uint32_t tid;
    uint32_t pad;
};
struct SimFire {  // fault `kind` fired at its `idx`-th opportunity, argument `val`
    uint32_t kind, idx, val, pad;
};

struct SimTrace {
    uint32_t nw, ns, nf, overflow;
    uint64_t expect;        // replay only: digest another execution gave (0: none)
    uint32_t w[SIM_MAXW];   // value chosen
    uint32_t wn[SIM_MAXW];  // range (exclusive upper bound)
    SimDev s[SIM_MAXS];
    SimFire f[SIM_MAXF];
};

struct SimResult {
    int status;  // 0 running/none, 1 ok, 2 violation, 3 infrastructure problem
    char cls[64];
    char msg[3072];
    uint64_t steps, switches, clock_ns, hash_all, hash_sync, nsync;
    uint32_t nthreads, strategy;
    uint32_t fired[F_N], opp[F_N];
    uint32_t probe[SIM_NPROBE];
    uint64_t alloc_count, alloc_bytes, preempt_mem;
    char note[1024];
    uint64_t reused;           // blocks that got the address of a freed one
    uint64_t digest;          // of the results of the workload
    uint32_t nfree, freew[8]; // workload choices that must not influence the digest
    SimTrace tr;
};

enum SimMode { SIM_EXPLORE = 0, SIM_REPLAY = 1 };

// --- driver side -----------------------------------------------------------
void* sim_main_stack(size_t* sz);  // where the first simulated thread runs
void sim_setup_once();  // in the parent, before any fork
// In the child: activate the simulation.  `res` is shared memory.
void sim_start(SimMode mode, uint64_t seed, const SimTrace* replay,
               SimResult* res, uint64_t max_steps);

// --- scenario side ---------------------------------------------------------
uint32_t sim_w(uint32_t n);                 // workload choice in [0,n)
uint32_t sim_w_free(uint32_t n);            // ... that must not influence results
void sim_digest(uint64_t d);                // results, in program order
void sim_digest_done();                     // all results are in
uint32_t sim_range(uint32_t lo, uint32_t hi);  // inclusive
void sim_plan_prob(int kind, uint32_t den, uint32_t max);  // 1/den, at most max
void sim_plan_at(int kind, uint32_t first, uint32_t count);
// the same among the opportunities of: 0 everybody, 1 harness-owned threads, 2 threads of the library
void sim_plan_in(int kind, uint32_t where, uint32_t first, uint32_t count);
void sim_plan_none(int kind);
uint32_t sim_plan_seen(int kind, uint32_t where);  // opportunities since it was planned
void sim_arm(int kind, int on);             // arm for this thread (+ workers)
void sim_arm_workers(int kind, int on);     // arm for library-owned threads only
void sim_idle(uint64_t ns);                 // sleep until nobody else can run
void sim_nofault(int delta);                // suppress faults in this thread
void sim_client();                          // this thread is harness-owned
int sim_fault_point(int kind);              // buggify point
uint32_t sim_fired(int kind);
uint32_t sim_self();
uint32_t sim_threads_alive();
uint64_t sim_step();
void sim_yield();                           // explicit scheduling point
void sim_probe(int i);
void sim_note(const char* fmt, ...);        // kept in the report
void sim_native(int delta);                 // +1 enter / -1 leave native code
void sim_leak_check(int on);                // check for leaks at process end
void sim_at_end(void (*fn)());              // after static destructors
uint64_t sim_live_bytes();
int sim_heap_ok(const void* p, size_t n);   // p..p+n inside one live block?
[[noreturn]] void sim_fail(const char* cls, const char* fmt, ...);
[[noreturn]] void sim_infra(const char* fmt, ...);
int sim_is_active();
void sim_stack_retire();   // everything below the caller's frame is dead now
void sim_stack_garbage();  // leave garbage where the next calls put their variables
void sim_exit_phase();     // driver: static destructors start now
}

// RAII: everything in scope runs outside the simulation (oracle code).
struct SimNative {
    SimNative() { sim_native(1); }
    ~SimNative() { sim_native(-1); }
};
