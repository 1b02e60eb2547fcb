// Batch / replay / minimise driver.  Uninstrumented, plain C style (no library
// templates, so that nothing here can replace an instrumented instantiation).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <iostream>
#include "rt.h"
#include "scen.h"

#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static const int MAXSCEN = 64;
static SimScenario g_scen[MAXSCEN];
static int g_nscen;
extern "C" void sim_register(const char* name, void (*fn)(), uint64_t max_steps) {
    g_scen[g_nscen].name = name;
    g_scen[g_nscen].fn = fn;
    g_scen[g_nscen].max_steps = max_steps;
    g_nscen++;
}

static SimResult* SR;   // shared with the child
static SimTrace* TRIAL; // trace handed to the child in replay mode
static SimScenario* SC;
static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static SimMode ch_mode;
static uint64_t ch_seed;
static const SimTrace* ch_tr;
static void child_main() {
    sim_start(ch_mode, ch_seed, ch_tr, SR, SC->max_steps);
    SC->fn();
    sim_exit_phase();
    exit(0);
}
// one simulated execution in a forked child; result in SR
static void run_once(SimMode mode, uint64_t seed, const SimTrace* tr) {
    memset(SR, 0, offsetof(SimResult, tr));
    SR->tr.nw = SR->tr.ns = SR->tr.nf = SR->tr.overflow = 0;
    SR->tr.expect = tr ? tr->expect : 0;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(4); }
    if (p == 0) {
        alarm(240);
        // Newer kernels resize a private futex table as threads come and go and
        // free the dead process in the background, far too late for us: use the
        // global one (PR_FUTEX_HASH, PR_FUTEX_HASH_SET_SLOTS, 0 slots).
        prctl(78, 1, 0, 0, 0);
        ch_mode = mode;
        ch_seed = seed;
        ch_tr = tr;
        // run on a zeroed stack at a fixed address: garbage on the stack must
        // not differ between two executions of the same seed
        static ucontext_t uc;
        if (getcontext(&uc)) _exit(4);
        size_t sz;
        uc.uc_stack.ss_sp = sim_main_stack(&sz);
        uc.uc_stack.ss_size = sz;
        uc.uc_link = nullptr;
        makecontext(&uc, child_main, 0);
        setcontext(&uc);
        _exit(4);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (SR->status == 0) {
        SR->status = 3;
        snprintf(SR->cls, sizeof SR->cls, "INFRA");
        snprintf(SR->msg, sizeof SR->msg, "child ended without a verdict (wait status 0x%x)", st);
    }
}
static void copy_trace(SimTrace* d, const SimTrace* s) {
    d->nw = s->nw; d->ns = s->ns; d->nf = s->nf; d->overflow = s->overflow; d->expect = s->expect;
    memcpy(d->w, s->w, s->nw * sizeof s->w[0]);
    memcpy(d->wn, s->wn, s->nw * sizeof s->wn[0]);
    memcpy(d->s, s->s, s->ns * sizeof s->s[0]);
    memcpy(d->f, s->f, s->nf * sizeof s->f[0]);
}
static void write_trace(const char* path, const SimTrace* t, uint64_t seed, const SimResult* r) {
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); exit(4); }
    fprintf(f, "bspline-sim-replay 1\nscenario %s\nseed %lu\nclass %s\nhash %lx\nsteps %lu\nmessage %s\nnote %s\n", SC->name,
            (unsigned long)seed, r->cls, (unsigned long)r->hash_all, (unsigned long)r->steps, r->msg, r->note);
    if (t->expect) fprintf(f, "expect %lx\n", (unsigned long)t->expect);
    for (uint32_t i = 0; i < t->nw; i++) fprintf(f, "w %u %u\n", t->w[i], t->wn[i]);
    for (uint32_t i = 0; i < t->ns; i++) fprintf(f, "s %lu %u\n", (unsigned long)t->s[i].step, t->s[i].tid);
    for (uint32_t i = 0; i < t->nf; i++) fprintf(f, "f %u %u %u\n", t->f[i].kind, t->f[i].idx, t->f[i].val);
    fprintf(f, "end\n");
    fclose(f);
}
static char want_cls[64];
static uint64_t want_hash;
static uint64_t trace_seed;
static bool read_trace(const char* path, SimTrace* t, char* scen) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    static char line[8192];
    t->nw = t->ns = t->nf = t->overflow = 0;
    t->expect = 0;
    bool ok = false;
    while (fgets(line, sizeof line, f)) {
        unsigned a, b, c;
        unsigned long l;
        if (!strncmp(line, "scenario ", 9)) sscanf(line + 9, "%63s", scen);
        else if (!strncmp(line, "seed ", 5)) sscanf(line + 5, "%lu", &trace_seed);
        else if (!strncmp(line, "class ", 6)) sscanf(line + 6, "%63s", want_cls);
        else if (!strncmp(line, "expect ", 7)) { sscanf(line + 7, "%lx", &l); t->expect = l; }
        else if (!strncmp(line, "hash ", 5)) sscanf(line + 5, "%lx", &want_hash);
        else if (line[0] == 'w' && sscanf(line, "w %u %u", &a, &b) == 2) { if (t->nw < SIM_MAXW) { t->w[t->nw] = a; t->wn[t->nw++] = b; } }
        else if (line[0] == 's' && sscanf(line, "s %lu %u", &l, &a) == 2) { if (t->ns < SIM_MAXS) { t->s[t->ns].step = l; t->s[t->ns++].tid = a; } }
        else if (line[0] == 'f' && sscanf(line, "f %u %u %u", &a, &b, &c) == 3) { if (t->nf < SIM_MAXF) { t->f[t->nf].kind = a; t->f[t->nf].idx = b; t->f[t->nf++].val = c; } }
        else if (!strncmp(line, "end", 3)) ok = true;
    }
    fclose(f);
    return ok;
}

// ------------------------------------------------------------- minimisation
static int g_trials, g_trial_max;
static double g_min_deadline;
static char g_mcls[64];
static const char* g_classes;  // comma separated; null: all
static bool wanted(const char* c) {
    if (!g_classes) return true;
    size_t n = strlen(c);
    for (const char* p = g_classes; (p = strstr(p, c)); p += n)
        if ((p == g_classes || p[-1] == ',') && (p[n] == 0 || p[n] == ',')) return true;
    return false;
}
static SimTrace *BEST, *CAND;
static bool trial() {  // does CAND still show the same class?
    if (g_trials >= g_trial_max || now() > g_min_deadline) return false;
    g_trials++;
    copy_trace(TRIAL, CAND);
    run_once(SIM_REPLAY, 0, TRIAL);
    if (SR->status != 2 || strcmp(SR->cls, g_mcls)) return false;
    copy_trace(BEST, &SR->tr);  // what was really taken: canonical form
    return true;
}
static void minimise() {
    // 1. faults, one at a time from the end
    for (int i = (int)BEST->nf - 1; i >= 0; i--) {
        if (i >= (int)BEST->nf) continue;
        copy_trace(CAND, BEST);
        for (uint32_t k = (uint32_t)i; k + 1 < CAND->nf; k++) CAND->f[k] = CAND->f[k + 1];
        CAND->nf--;
        trial();
    }
    // 2. schedule: ddmin over deviations
    uint32_t chunk = BEST->ns;
    while (chunk >= 1 && BEST->ns && g_trials < g_trial_max) {
        bool any = false;
        for (uint32_t at = 0; at < BEST->ns && g_trials < g_trial_max;) {
            copy_trace(CAND, BEST);
            uint32_t e = at + chunk < CAND->ns ? at + chunk : CAND->ns;
            memmove(&CAND->s[at], &CAND->s[e], (CAND->ns - e) * sizeof CAND->s[0]);
            CAND->ns -= e - at;
            uint32_t before = BEST->ns;
            if (trial() && BEST->ns < before) any = true;
            else at += chunk;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > BEST->ns) chunk = chunk / 2;
    }
    // 3. workload: lower the choices
    // (not when the expected results of this very workload are part of the trace)
    for (uint32_t i = 0; i < BEST->nw && g_trials < g_trial_max && !BEST->expect; i++) {
        if (BEST->w[i] == 0) continue;
        copy_trace(CAND, BEST);
        CAND->w[i] = 0;
        if (trial()) continue;
        if (i < BEST->nw && BEST->w[i] > 1) {
            copy_trace(CAND, BEST);
            CAND->w[i] /= 2;
            trial();
        }
    }
    // 4. schedule again, one at a time
    for (uint32_t at = 0; at < BEST->ns && g_trials < g_trial_max;) {
        copy_trace(CAND, BEST);
        memmove(&CAND->s[at], &CAND->s[at + 1], (CAND->ns - at - 1) * sizeof CAND->s[0]);
        CAND->ns--;
        uint32_t before = BEST->ns;
        if (!(trial() && BEST->ns < before)) at++;
    }
}

static void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

// distinct-hash sets, written to disk for the parent to merge
static uint64_t *HS;
static size_t nHS;

int main(int argc, char** argv) {
    std::cout.setstate(std::ios::failbit);  // logging builds (INTP_DEBUG) write nothing
    SR = (SimResult*)mmap(nullptr, sizeof(SimResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    TRIAL = (SimTrace*)calloc(1, sizeof(SimTrace));
    BEST = (SimTrace*)calloc(1, sizeof(SimTrace));
    CAND = (SimTrace*)calloc(1, sizeof(SimTrace));
    const char* cmd = argc > 1 ? argv[1] : "list";
    const char *scen = nullptr, *out = nullptr, *hout = nullptr, *rfile = nullptr, *vdir = ".";
    uint64_t base = 1, from = 0, count = 100, seed = 0;
    int cpu = -1, trials = 500, maxviol = 1, pairs = 0;
    double budget = 0;
    bool have_seed = false;
    for (int i = 2; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--scen")) scen = argv[i + 1];
        else if (!strcmp(argv[i], "--base")) base = strtoull(argv[i + 1], nullptr, 10);
        else if (!strcmp(argv[i], "--from")) from = strtoull(argv[i + 1], nullptr, 10);
        else if (!strcmp(argv[i], "--count")) count = strtoull(argv[i + 1], nullptr, 10);
        else if (!strcmp(argv[i], "--seed")) { seed = strtoull(argv[i + 1], nullptr, 10); have_seed = true; }
        else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
        else if (!strcmp(argv[i], "--hashes")) hout = argv[i + 1];
        else if (!strcmp(argv[i], "--file")) rfile = argv[i + 1];
        else if (!strcmp(argv[i], "--vdir")) vdir = argv[i + 1];
        else if (!strcmp(argv[i], "--cpu")) cpu = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--trials")) trials = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--classes")) g_classes = argv[i + 1];
        else if (!strcmp(argv[i], "--pairs")) pairs = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--maxviol")) maxviol = atoi(argv[i + 1]);
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 4; }
    }
    if (!strcmp(cmd, "list")) {
        for (int i = 0; i < g_nscen; i++) printf("%s\n", g_scen[i].name);
        return 0;
    }
    if (cpu >= 0) {
        cpu_set_t allowed, set;
        CPU_ZERO(&allowed);
        if (sched_getaffinity(0, sizeof allowed, &allowed) == 0) {
            int n = CPU_COUNT(&allowed), k = n ? cpu % n : 0;
            for (int i = 0; i < CPU_SETSIZE; i++)
                if (CPU_ISSET(i, &allowed) && k-- == 0) { CPU_ZERO(&set); CPU_SET(i, &set); sched_setaffinity(0, sizeof set, &set); break; }
        }
    }
    {  // fixed addresses of libraries, where the sandbox lets us
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_REEXEC")) {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    sim_setup_once();
    static char rscen[64];
    if (!strcmp(cmd, "replay")) {
        if (!rfile || !read_trace(rfile, TRIAL, rscen)) { fprintf(stderr, "cannot read replay file\n"); return 4; }
        scen = rscen;
    }
    for (int i = 0; i < g_nscen; i++) if (scen && !strcmp(g_scen[i].name, scen)) SC = &g_scen[i];
    if (!SC) { fprintf(stderr, "no scenario %s\n", scen ? scen : "(none)"); return 4; }

    if (!strcmp(cmd, "replay")) {
        run_once(SIM_REPLAY, 0, TRIAL);
        printf("status %d\nclass %s\nhash %lx\nsteps %lu\nmessage %s\nnote %s\n", SR->status, SR->cls, (unsigned long)SR->hash_all, (unsigned long)SR->steps, SR->msg, SR->note);
        bool same = SR->status == 2 && !strcmp(SR->cls, want_cls) && SR->hash_all == want_hash;
        printf("reproduced %s\n", same ? "exactly" : SR->status == 2 ? "different" : "no");
        return same ? 1 : SR->status == 1 ? 0 : 3;
    }
    if (!strcmp(cmd, "one")) {
        run_once(SIM_EXPLORE, have_seed ? seed : mix(base, from), nullptr);
        printf("status %d class %s hash %lx sync %lx steps %lu switches %lu threads %u strat %u nw %u ns %u nf %u allocs %lu\n%s\nnote %s\n", SR->status, SR->cls,
               (unsigned long)SR->hash_all, (unsigned long)SR->hash_sync, (unsigned long)SR->steps, (unsigned long)SR->switches, SR->nthreads, SR->strategy, SR->tr.nw, SR->tr.ns, SR->tr.nf, (unsigned long)SR->alloc_count, SR->msg, SR->note);
        for (int i = 0; i < F_N; i++) printf("f%d %u/%u ", i, SR->fired[i], SR->opp[i]);
        printf("\n");
        return SR->status == 1 ? 0 : SR->status == 2 ? 1 : 3;
    }
    if (!strcmp(cmd, "determinism")) {
        // every seed twice from scratch, then once more from its recorded trace
        uint64_t bad = 0;
        for (uint64_t i = from; i < from + count; i++) {
            uint64_t s = mix(base, i);
            run_once(SIM_EXPLORE, s, nullptr);
            uint64_t h = SR->hash_all, st = SR->steps;
            int status = SR->status;
            copy_trace(TRIAL, &SR->tr);
            bool ovf = SR->tr.overflow;
            run_once(SIM_EXPLORE, s, nullptr);
            bool ok = SR->hash_all == h && SR->steps == st && SR->status == status;
            if (ok && !ovf) {
                run_once(SIM_REPLAY, 0, TRIAL);
                ok = SR->hash_all == h && SR->steps == st && SR->status == status;
                if (!ok) printf("REPLAY-MISMATCH seed %lu\n", (unsigned long)s);
            } else if (!ok) printf("MISMATCH seed %lu\n", (unsigned long)s);
            if (!ok) bad++;
            if (hout) { FILE* f = fopen(hout, "a"); fprintf(f, "%lu %lx %lu %d\n", (unsigned long)s, (unsigned long)h, (unsigned long)st, status); fclose(f); }
        }
        printf("determinism: %lu seeds, %lu mismatches\n", (unsigned long)count, (unsigned long)bad);
        return bad ? 3 : 0;
    }
    if (strcmp(cmd, "run")) { fprintf(stderr, "unknown command\n"); return 4; }

    HS = (uint64_t*)calloc(count + 1, 3 * sizeof(uint64_t));
    double t0 = now();
    uint64_t runs = 0, steps = 0, switches = 0, nsync = 0, allocs = 0, preempt = 0, clock_ns = 0, reused = 0, overflow = 0, unwanted = 0, npairs = 0;
    uint64_t fired[F_N] = {0}, opp[F_N] = {0}, probes[SIM_NPROBE] = {0}, strat[4] = {0}, fruns[F_N] = {0}, pruns[SIM_NPROBE] = {0};
    uint32_t maxthreads = 0;
    int nviol = 0, infra = 0;
    static char infra_msg[3072];
    FILE* fo = out ? fopen(out, "w") : stdout;
    fprintf(fo, "{\"scenario\":\"%s\",\"violations\":[", SC->name);
    for (uint64_t i = from; i < from + count; i++) {
        if (budget > 0 && now() - t0 > budget) break;
        uint64_t s = mix(base, i);
        run_once(SIM_EXPLORE, s, nullptr);
        if (SR->status == 3) {  // once more: an overloaded machine must not matter
            run_once(SIM_EXPLORE, s, nullptr);
        }
        runs++;
        steps += SR->steps; switches += SR->switches; nsync += SR->nsync; allocs += SR->alloc_count; preempt += SR->preempt_mem; clock_ns += SR->clock_ns > 1000000000ull ? SR->clock_ns - 1000000000ull : 0;
        overflow += SR->tr.overflow;
        reused += SR->reused;
        for (int k = 0; k < F_N; k++) { fired[k] += SR->fired[k]; opp[k] += SR->opp[k]; fruns[k] += SR->fired[k] != 0; }
        for (int k = 0; k < SIM_NPROBE; k++) { probes[k] += SR->probe[k]; pruns[k] += SR->probe[k] != 0; }
        strat[SR->strategy & 3]++;
        if (SR->nthreads > maxthreads) maxthreads = SR->nthreads;
        HS[nHS * 3] = SR->hash_sync;
        HS[nHS * 3 + 1] = SR->hash_all;
        uint64_t nf = 0;
        for (int k = 0; k < F_N; k++) nf += SR->fired[k];
        HS[nHS * 3 + 2] = (SR->switches & 0xffffffff) | nf << 32;
        nHS++;
        if (SR->status == 3) {
            infra++;
            snprintf(infra_msg, sizeof infra_msg, "seed %lu: %s", (unsigned long)s, SR->msg);
            if (infra > 3) break;
        }
        if (SR->status == 2 && !wanted(SR->cls)) unwanted++;
        bool digest_pair = false;
        if (pairs && SR->status == 1 && !SR->tr.overflow && SR->digest) {
            // the same program once more: no preemption, no fault, and every
            // choice that must not matter (size of the pool) made differently
            uint64_t dg = SR->digest;
            copy_trace(TRIAL, &SR->tr);
            copy_trace(BEST, &SR->tr);
            for (uint32_t k = 0; k < SR->nfree; k++) {
                uint32_t ix = SR->freew[k];
                if (ix < TRIAL->nw) TRIAL->w[ix] = (uint32_t)((TRIAL->w[ix] + 1 + mix(s, k) % (TRIAL->wn[ix] > 1 ? TRIAL->wn[ix] - 1 : 1)) % TRIAL->wn[ix]);
            }
            TRIAL->ns = TRIAL->nf = 0;
            run_once(SIM_REPLAY, 0, TRIAL);
            npairs++;
            // (a different number of choices would be another program)
            if (SR->status == 1 && SR->digest != dg && SR->tr.nw == BEST->nw) {
                uint64_t d2 = SR->digest;
                copy_trace(TRIAL, BEST);
                TRIAL->expect = d2;
                run_once(SIM_REPLAY, 0, TRIAL);
                digest_pair = SR->status == 2;
            }
        }
        if (SR->status == 2 && wanted(SR->cls)) {
            nviol++;
            uint64_t h = SR->hash_all;
            uint64_t st = SR->steps;
            bool ovf = SR->tr.overflow;
            char cls[64];
            memcpy(cls, SR->cls, sizeof cls);
            static char msg[3072], note[1024];
            memcpy(msg, SR->msg, sizeof msg);
            memcpy(note, SR->note, sizeof note);
            copy_trace(BEST, &SR->tr);
            uint32_t ow = BEST->nw, os = BEST->ns, of = BEST->nf;
            if (digest_pair) { copy_trace(TRIAL, BEST); run_once(SIM_REPLAY, 0, TRIAL); }
            else run_once(SIM_EXPLORE, s, nullptr);
            bool same_seed = SR->status == 2 && SR->hash_all == h && SR->steps == st && !strcmp(SR->cls, cls);
            bool replay_ok = false;
            if (!ovf) {
                copy_trace(TRIAL, BEST);
                run_once(SIM_REPLAY, 0, TRIAL);
                replay_ok = SR->status == 2 && SR->hash_all == h && !strcmp(SR->cls, cls);
            }
            char path[512];
            snprintf(path, sizeof path, "%s/%s-%lu.replay", vdir, SC->name, (unsigned long)s);
            if (same_seed && replay_ok) {
                g_trials = 0;
                g_trial_max = trials;
                g_min_deadline = now() + 60;
                memcpy(g_mcls, cls, sizeof cls);
                minimise();
                copy_trace(TRIAL, BEST);
                run_once(SIM_REPLAY, 0, TRIAL);
                copy_trace(BEST, &SR->tr);
                write_trace(path, BEST, s, SR);
            }
            fprintf(fo, "%s{\"seed\":%lu,\"index\":%lu,\"class\":\"%s\",\"message\":", nviol > 1 ? "," : "", (unsigned long)s, (unsigned long)i, cls);
            json_str(fo, msg);
            fprintf(fo, ",\"note\":");
            json_str(fo, note);
            fprintf(fo, ",\"min_message\":");
            json_str(fo, SR->msg);
            fprintf(fo, ",\"min_note\":");
            json_str(fo, SR->note);
            fprintf(fo, ",\"same_seed\":%s,\"replay_ok\":%s,\"overflow\":%s,\"orig\":[%u,%u,%u],\"min\":[%u,%u,%u],\"trials\":%d,\"replay\":", same_seed ? "true" : "false", replay_ok ? "true" : "false", ovf ? "true" : "false", ow, os, of, BEST->nw, BEST->ns, BEST->nf, g_trials);
            json_str(fo, path);
            fprintf(fo, "}");
            if (nviol >= maxviol) break;
        }
    }
    fprintf(fo, "],\"infra\":%d,\"infra_msg\":", infra);
    json_str(fo, infra_msg);
    fprintf(fo, ",\"runs\":%lu,\"steps\":%lu,\"switches\":%lu,\"sync_ops\":%lu,\"allocs\":%lu,\"mem_preempt\":%lu,\"clock_ns\":%lu,\"overflow\":%lu,\"max_threads\":%u,\"wall\":%.3f", (unsigned long)runs, (unsigned long)steps, (unsigned long)switches, (unsigned long)nsync, (unsigned long)allocs, (unsigned long)preempt, (unsigned long)clock_ns, (unsigned long)overflow, maxthreads, now() - t0);
    fprintf(fo, ",\"reused\":%lu", (unsigned long)reused);
    fprintf(fo, ",\"other_classes\":%lu,\"pairs\":%lu", (unsigned long)unwanted, (unsigned long)npairs);
    fprintf(fo, ",\"fired\":[");
    for (int k = 0; k < F_N; k++) fprintf(fo, "%s%lu", k ? "," : "", (unsigned long)fired[k]);
    fprintf(fo, "],\"fired_runs\":[");
    for (int k = 0; k < F_N; k++) fprintf(fo, "%s%lu", k ? "," : "", (unsigned long)fruns[k]);
    fprintf(fo, "],\"opportunities\":[");
    for (int k = 0; k < F_N; k++) fprintf(fo, "%s%lu", k ? "," : "", (unsigned long)opp[k]);
    fprintf(fo, "],\"probes\":[");
    for (int k = 0; k < SIM_NPROBE; k++) fprintf(fo, "%s%lu", k ? "," : "", (unsigned long)probes[k]);
    fprintf(fo, "],\"probe_runs\":[");
    for (int k = 0; k < SIM_NPROBE; k++) fprintf(fo, "%s%lu", k ? "," : "", (unsigned long)pruns[k]);
    fprintf(fo, "],\"strategies\":[%lu,%lu,%lu,%lu]}\n", (unsigned long)strat[0], (unsigned long)strat[1], (unsigned long)strat[2], (unsigned long)strat[3]);
    if (fo != stdout) fclose(fo);
    if (hout) {
        FILE* f = fopen(hout, "wb");
        fwrite(HS, 3 * sizeof(uint64_t), nHS, f);
        fclose(f);
    }
    return infra ? 3 : nviol ? 1 : 0;
}
