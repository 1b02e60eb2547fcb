#!/usr/bin/env python3
"""Deterministic-simulation checks of the BSplineInterpolation library.

  check.py C01 quick|thorough     decide one property (exit 0 / 1 + VIOLATION)
  check.py replay FILE            re-execute a replay file against /repo
  check.py selftest [N]           determinism over many seeds, processes, worker counts

Everything is rebuilt (content-hash cached) from /repo's working tree."""
import collections, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("SIM_REPO", "/repo")
INC = os.path.join(REPO, "src", "include")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
FAULTS = ["alloc_failure", "thread_creation_failure", "spurious_wakeup", "user_operation_throws", "user_iterator_throws",
          "hardware_concurrency_zero", "futex_interrupted", "notify_reaches_other_waiter", "runnable_thread_starved", "clock_jump"]
STRATS = ["random walk", "PCT priorities", "stalled threads", "mostly sequential"]
PROBES = {1: "submission failed by allocation", 2: "future dropped", 3: "task queued by a task delivered", 4: "polled with a timeout", 5: "outcome delivered at shutdown",
          6: "promise broken at shutdown", 7: "start-up failed: no thread", 8: "start-up failed: no memory", 9: "submission failed by the callable", 29: "more than a thousand tasks queued at once", 10: "concurrent call finished", 11: "template copied", 14: "template assigned", 15: "exit with self-perpetuating tasks",
          12: "mesh with many task blocks", 16: "enormous mesh", 18: "user of another value type, dimension or order", 19: "hundreds of calls in one process", 17: "fault aimed at a counted place of the call", 13: "spline from control points", 20: "call failed by a user operation", 21: "call failed by allocation", 22: "call failed by thread creation",
          23: "call survived a failing allocation", 24: "dozens of failing calls in one process", 30: "container operation failed by allocation", 31: "container operation failed by an element or iterator"}
NCPU = len(os.sched_getaffinity(0))

IFLAGS = ("-g1 -O1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -mmemcpy-strategy=libcall:-1:noalign "
          "-mmemset-strategy=libcall:-1:noalign -fno-pie -w").split()
NFLAGS = "-std=c++17 -O2 -g1 -fno-pie -w".split()
ALL = list(range(1, 13))
# name: (flags, slices of the interpolation scenarios in the quick tier)
MT = "-DINTP_MULTITHREAD"
CELL = "-DINTP_CELL_LAYOUT"
ND = "-DINTP_PERIODIC_NO_DUMMY_POINT"
VARIANTS = collections.OrderedDict([
    ("A", (["-std=c++20", MT, CELL, ND], ALL)),
    ("B", (["-std=c++11", MT], [1, 3, 8])),
    ("C", (["-std=c++14", MT, CELL], [2, 4, 8])),
    ("D", (["-std=c++17", MT, ND, "-DINTP_DEBUG"], [1, 4, 9])),
    ("N", (["-std=c++17", CELL], [2, 3, 6, 9])),
    # thorough only
    ("E", (["-std=c++17", MT, CELL, "-DSTACK_ALLOCATOR", "-DINTP_STACK_ALLOCATOR"], [])),
    ("F", (["-std=c++11", MT, CELL, ND, "-DINTP_ENABLE_ASSERTION"], [])),
    ("M", (["-std=c++11", ND], [])),
    ("G", (["-std=c++20", MT, "-DINTP_TRACE", "-DINTP_DEBUG"], [])),
])
HEAPC = ["USE-AFTER-FREE", "DOUBLE-FREE", "INVALID-FREE", "HEAP-OUT-OF-BOUNDS", "CRASH"]
LIVE = ["DEADLOCK", "NO-PROGRESS", "HANG"]
# property: list of (scenario, objects, share of the runs, classes that count (None: all))
P, I, M = "pool", "interp", "mesh"
PROPS = {
    "C01": [("construct", I, 1.0, None)],
    "C02": [("concurrent", I, 1.0, None)],
    "C03": [("readers", I, 1.0, None)],
    "C04": [("pool_tasks", P, 1.0, None)],
    "C05": [("pool_progress", P, .7, None), ("pool_tasks", P, .3, LIVE)],
    "C06": [("pool_shutdown", P, 1.0, None)],
    "C07": [("pool_startup", P, 1.0, None)],
    "C08": [("outlive", I, .8, None), ("faults", I, .2, HEAPC + ["DATA-RACE", "DEAD-VALUE"])],
    "C09": [("faults", I, 1.0, None)],
    "C10": [("leaks", I, .7, None), ("pool_tasks", P, .1, ["LEAK"]), ("pool_startup", P, .1, ["LEAK"]), ("containers", M, .1, ["LEAK"])],
    "C11": [("containers", M, 1.0, None)],
    "C12": [("values", I, 1.0, None)],
    "C13": [("reproducible", I, 1.0, None)],
    "C14": [("inputs", I, 1.0, None)],
}
# nominal runs per second and core, to size the tiers
RATE = {"containers": 700, "pool_tasks": 150, "pool_progress": 180, "pool_shutdown": 220, "pool_startup": 220, "concurrent": 130,
        "values": 150, "reproducible": 110, "faults": 150}
TITLES = {}
SHARE = {"A": .36, "B": .16, "C": .16, "D": .16, "N": .16}
TSHARE = {"A": .30, "B": .10, "C": .10, "D": .10, "N": .08, "E": .10, "F": .08, "M": .06, "G": .08}
REAL = ["the whole library under /repo/src/include, unmodified: DedicatedThreadPool, InterpolationFunctionTemplate, InterpolationFunction, BSpline, BandLU, BandMatrix, Mesh, AlignedAllocator, util",
        "libstdc++ std::thread, mutex, condition_variable, future, packaged_task, call_once and local-static initialisation, down to the pthread/futex/guard calls"]
STUB = ["thread scheduler (one thread at a time, chosen by the seeded scheduler at every synchronisation operation and at sampled memory accesses)",
        "pthread mutex/condvar/rwlock/once, futex and __cxa_guard primitives", "clock and sleeping (discrete-event time)",
        "heap (allocator with redzones and garbage-filled blocks; a quarter of the runs reuse freed addresses at once, the others never)", "hardware_concurrency()", "user value types and iterators that can throw"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(d):
    return sha(*[x for p in sorted(glob.glob(d + "/**", recursive=True)) if os.path.isfile(p) for x in (os.path.relpath(p, d), rd(p))])


class Builder:
    """Objects are keyed by the content of everything that goes into them."""

    def __init__(self):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        self.hsim = sha(*[rd(p) for p in sorted(glob.glob(SIM + "/*.h") + glob.glob(SIM + "/*.hpp"))])
        self.hrepo = tree_hash(INC)
        self.notes = []

    def obj(self, src, flags, instrumented):
        path = os.path.join(SIM, src)
        key = sha(rd(path), self.hsim, " ".join(flags), self.hrepo if instrumented else "")
        out = f"{BUILD}/obj/{os.path.splitext(src)[0]}-{key}.o"
        if os.path.exists(out):
            os.utime(out)
            return out, None
        tmp = f"{out}.{os.getpid()}.{threading.get_ident()}.tmp.o"
        r = subprocess.run(["g++"] + flags + ["-c", path, "-o", tmp], capture_output=True, text=True)
        if r.returncode == 0 and instrumented:
            r = subprocess.run(["objcopy"] + [f"--redefine-sym={x}=sim_{x}" for x in ("memcpy", "memmove", "memset", "memcmp")] + [tmp], capture_output=True, text=True)
        if r.returncode:
            if os.path.exists(tmp):
                os.unlink(tmp)
            return None, r.stderr[-1500:]
        os.rename(tmp, out)
        return out, None

    def variants(self, specs, jobs=NCPU):
        """specs: {name: (flags, kinds, slices)} -> {name: binary}"""
        base = [("rt.cpp", NFLAGS), ("main.cpp", NFLAGS)]
        with cf.ThreadPoolExecutor(jobs) as ex:
            fb = [ex.submit(self.obj, s, f, False) for s, f in base]
            fref = ex.submit(self.obj, "ref.cpp", NFLAGS, False)
            todo = {}
            for v, (flags, kinds, slices) in specs.items():
                fl = flags + IFLAGS + [f"-I{INC}", f"-I{SIM}"]
                l = []
                if P in kinds:
                    l.append(("pool", ex.submit(self.obj, "scen_pool.cpp", fl, True)))
                if M in kinds:
                    l.append(("mesh", ex.submit(self.obj, "scen_mesh.cpp", fl, True)))
                if I in kinds:
                    l.append(("table", ex.submit(self.obj, "scen_table.cpp", fl, True)))
                    for s in slices:
                        l.append((f"slice{s}", ex.submit(self.obj, "scen_interp.cpp", fl + [f"-DSIM_SLICE={s}"], True)))
                todo[v] = l
            rts = [f.result() for f in fb] + [fref.result()]
            for o, e in rts:
                if not o:
                    print("cannot build the simulator:\n" + e, file=sys.stderr)
                    sys.exit(2)
            bins = {}
            for v, l in todo.items():
                objs, failed = [], []
                for name, f in l:
                    o, e = f.result()
                    (objs.append(o) if o else failed.append((name, e)))
                ok = {n for n, _ in l} - {n for n, _ in failed}
                kinds = specs[v][1]
                usable = all([(P not in kinds or "pool" in ok), (M not in kinds or "mesh" in ok),
                              (I not in kinds or ("table" in ok and any(n.startswith("slice") for n in ok)))])
                for n, e in failed:
                    self.notes.append(f"variant {v} ({' '.join(specs[v][0])}): {n} does not compile: {e.strip().splitlines()[0] if e.strip() else ''}")
                    print(f"note: variant {v}, {n} does not compile, left out\n{e[:600]}", file=sys.stderr)
                if not usable:
                    bins[v] = None
                    continue
                bins[v] = ex.submit(self.link, v, objs, [r[0] for r in rts])
            return {v: (b.result() if b else None) for v, b in bins.items()}

    def link(self, v, objs, rts):
        key = sha("link2", rd(SIM + "/odr_stub.py"), *objs, *rts)
        out = f"{BUILD}/sim-{v}-{key}"
        if os.path.exists(out):
            os.utime(out)
            return out
        st = f"{out}.{os.getpid()}"
        with open(st + ".s", "w") as f:
            subprocess.run([sys.executable, SIM + "/odr_stub.py"] + objs, stdout=f, check=True)
        subprocess.run(["as", st + ".s", "-o", st + ".o"], check=True)
        r = subprocess.run(["g++", "-no-pie", *objs, *rts, st + ".o", "-o", st + ".bin", "-ldl", "-pthread"], capture_output=True, text=True)
        for x in (".s", ".o"):
            os.unlink(st + x)
        if r.returncode:
            self.notes.append(f"variant {v} does not link: {r.stderr[-300:]}")
            print(r.stderr[-1500:], file=sys.stderr)
            return None
        os.rename(st + ".bin", out)
        return out


def prune():
    """Drop what has not been used for a while; only this script's own cache."""
    for pat, keep in (("/obj/*.o", 400), ("/sim-*", 60)):
        l = sorted(glob.glob(BUILD + pat), key=os.path.getmtime, reverse=True)
        for p in l[keep:]:
            os.unlink(p)
    l = sorted(glob.glob(REPLAYS + "/*.replay"), key=os.path.getmtime, reverse=True)
    for p in l[200:]:
        os.unlink(p)


def specs_for(kinds, tier):
    names = SHARE if tier == "quick" else TSHARE
    out = collections.OrderedDict()
    for v in names:
        flags, sl = VARIANTS[v]
        k = set(kinds)
        if MT not in flags:
            k -= {P}
        if not k:
            continue
        out[v] = (flags, sorted(k), (sl if tier == "quick" else ALL) if I in k else [])
    return out


def symbolise(binary, text):
    pcs = sorted(set(re.findall(r"pc=0x([0-9a-f]+)", text)))
    out = []
    for pc in pcs:
        r = subprocess.run(["addr2line", "-Cfpi", "-e", binary, "0x" + pc], capture_output=True, text=True)
        loc = [x.strip() for x in r.stdout.splitlines()]
        # the innermost frames and the first frame inside the library
        pick = loc[:1] + [x for x in loc[1:] if "/src/include/" in x][:2]
        out.append(f"pc=0x{pc}: " + " | ".join(re.sub(r"^\(inlined by\) ", "", x)[-200:] for x in pick))
    return out


def load_findings(prop):
    fs = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding:\s+property=(\S+)\s+class=(\S+)\s+match=/(.*)/\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                fs.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return fs


def run_chunk(job, slot, tmp):
    v, binary, scen, base, frm, cnt, classes, pairs, n = job
    out, hs = f"{tmp}/{n}.json", f"{tmp}/{n}.h"
    cmd = [binary, "run", "--scen", scen, "--base", str(base), "--from", str(frm), "--count", str(cnt), "--out", out, "--hashes", hs,
           "--vdir", tmp, "--maxviol", "3", "--cpu", str(slot), "--trials", "400", "--budget", "240"]
    if classes:
        cmd += ["--classes", ",".join(classes)]
    if pairs:
        cmd += ["--pairs", "1"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    try:
        o = json.load(open(out))
    except Exception as e:
        return {"failed": f"{scen}/{v}: driver ended with {r.returncode}: {r.stderr[-300:]} {e}"}
    o["hashes"] = [x for x in struct.iter_unpack("QQQ", rd(hs))] if os.path.exists(hs) else []
    for p in (out, hs):
        if os.path.exists(p):
            os.unlink(p)
    return o


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    scens = PROPS[prop]
    kinds = {k for _, k, _, _ in scens}
    specs = specs_for(kinds, tier)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        b = Builder()
        bins = b.variants(specs)
        prune()
    if not bins.get("A"):
        print("the primary variant does not build", file=sys.stderr)
        return 2
    bins = {v: x for v, x in bins.items() if x}
    t_build = time.time() - t0
    # nominal core seconds to spend on runs
    core_s = float(os.environ.get("SIM_CORE_SECONDS", "500" if tier == "quick" else "9000"))
    share = SHARE if tier == "quick" else TSHARE
    deadline = time.time() + (420 if tier == "quick" else 720)
    jobs, queues = [], []
    for si, (scen, kind, sh, classes) in enumerate(scens):
        vs = [v for v in bins if kind in specs[v][1]]
        tot = sum(share[v] for v in vs)
        for v in vs:
            n = int(core_s * sh * share[v] / tot * RATE.get(scen, 170))
            pairs = prop == "C13"
            if pairs:
                n //= 2
            q, frm = [], 0
            base = seed * 1000003 + list(VARIANTS).index(v) * 101 + si * 7 + int(prop[1:]) * 10007
            step = max(20, min(RATE.get(scen, 170) * 2, n // 4 + 1))
            while frm < n:
                c = min(step, n - frm)
                q.append((v, bins[v], scen, base, frm, c, classes, pairs))
                frm += c
            queues.append(q)
    while any(queues):  # interleave variants and scenarios
        for q in queues:
            if q:
                jobs.append(q.pop(0))
    jobs = [j + (i,) for i, j in enumerate(jobs)]
    tmp = f"{BUILD}/run-{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    found, irrep, failed, agg, per = [], [], [], collections.Counter(), {}
    hs_all, hs_sync = set(), set()
    arr = {k: [0] * 64 for k in ("fired", "fired_runs", "opportunities", "probes", "probe_runs", "strategies")}
    known = load_findings(prop)
    known_hit = {}
    stop = threading.Event()
    slots = list(range(NCPU))
    lock = threading.Lock()

    def one(job):
        for _ in range(90):  # let the kernel catch up with releasing dead processes
            m = re.search(r"MemAvailable:\s+(\d+)", open("/proc/meminfo").read())
            if not m or int(m.group(1)) > 4000000 or stop.is_set():
                break
            time.sleep(1)
        if stop.is_set() or time.time() > deadline:
            return job, None
        with lock:
            s = slots.pop()
        try:
            return job, run_chunk(job, s, tmp)
        finally:
            with lock:
                slots.append(s)

    maxthreads, skipped = 0, 0
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for fut in cf.as_completed([ex.submit(one, j) for j in jobs]):
                job, o = fut.result()
                if o is None:
                    skipped += job[5]
                    continue
                if "failed" in o:
                    failed.append(o["failed"])
                    continue
                v, binary, scen = job[0], job[1], job[2]
                for k in ("runs", "steps", "switches", "sync_ops", "allocs", "mem_preempt", "clock_ns", "overflow", "other_classes", "pairs", "infra", "reused"):
                    agg[k] += o[k]
                agg["cpu"] += o["wall"]
                maxthreads = max(maxthreads, o["max_threads"])
                if o["infra"]:
                    failed.append(f"{scen}/{v}: {o['infra_msg']}")
                for k, a in arr.items():
                    for i, x in enumerate(o[k]):
                        a[i] += x
                p = per.setdefault((v, scen), [0, 0])
                p[0] += o["runs"]
                p[1] += o["steps"]
                for hsy, hal, sw in o["hashes"]:
                    if sw:
                        hs_all.add((v, scen, hal))
                        hs_sync.add((v, scen, hsy))
                for x in o["violations"]:
                    x.update(variant=v, binary=binary, scenario=scen)
                    good = x["same_seed"] and x["replay_ok"]
                    if good:  # fresh processes must reproduce it, exactly
                        for _ in range(2):
                            r = subprocess.run([binary, "replay", "--file", x["replay"]], capture_output=True, text=True)
                            good = good and r.returncode == 1
                    if not good:
                        irrep.append(x)
                        continue
                    x["where"] = symbolise(binary, x["min_message"])
                    text = x["class"] + " " + x["min_message"] + " " + " ".join(x["where"])
                    for c, rx, what in known:
                        if c == x["class"] and rx.search(text):
                            known_hit[what] = x
                            break
                    else:
                        found.append(x)
                        stop.set()
        # determinism: a sample of seeds twice from scratch, then from the recorded trace
        det = []
        if not found:
            dj = [(v, scen) for v in bins for scen, kind, _, _ in scens if kind in specs[v][1]]
            nd = 12 if tier == "quick" else 150

            def dt(a):
                v, scen = a
                r = subprocess.run([bins[v], "determinism", "--scen", scen, "--base", str(seed * 31 + 7), "--count", str(nd)], capture_output=True, text=True)
                return v, scen, r.returncode, r.stdout[-300:]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                det = list(ex.map(dt, dj))
        samples = []
        for k in range(3):
            scen = scens[0][0]
            r = subprocess.run([bins["A"], "one", "--scen", scen, "--base", str(seed * 1000003 + int(prop[1:]) * 10007), "--from", str(k)], capture_output=True, text=True)
            samples.append({"variant": "A", "scenario": scen, "index": k, "run": r.stdout.strip().splitlines()[:4]})
        reported = []
        for x in sorted(found, key=lambda x: sum(x["min"]))[:1]:
            dst = f"{REPLAYS}/{prop}-{x['variant']}-{x['scenario']}-{x['seed']}.replay"
            body = rd(x["replay"]).decode().splitlines()
            head = [body[0], f"# property {prop}: {x['class']}", f"# variant {x['variant']} tier {tier} property {prop} flags {' '.join(VARIANTS[x['variant']][0])}",
                    f"# original trace: {x['orig'][0]} workload choices, {x['orig'][1]} schedule deviations, {x['orig'][2]} faults; minimised: {x['min'][0]}, {x['min'][1]}, {x['min'][2]} ({x['trials']} trials)",
                    "# w value range = workload choice; s step thread = at that step run that thread instead of the default; f kind index value = fault"] + ["# " + w for w in x["where"]]
            with open(dst, "w") as f:
                f.write("\n".join(head + body[1:]) + "\n")
            reported.append((x, dst))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    bad_det = [d for d in det if d[2]]
    nf = len(FAULTS)
    runs = agg["runs"]
    search = max(wall - t_build, 1e-3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hs_all),
            "rule": "one evaluation = one simulated execution of a drawn workload under a drawn schedule and fault plan (one 64-bit seed each); "
                    "non-trivial = at least one switch between threads or one injected fault; distinct = distinct hash of the complete event sequence "
                    "(thread, kind and object of every synchronisation operation, and the step of every switch), per build variant and scenario",
            "samples": samples,
            "distinct_synchronisation_orders": len(hs_sync),
            "runs_per_hour": int((runs + agg["pairs"]) / search * 3600), "seeds_per_hour": int(runs / search * 3600),
            "simulated_steps": agg["steps"], "simulated_seconds": agg["clock_ns"] / 1e9 if agg["clock_ns"] else 0,
            "simulated_time_note": "the library has no timers of its own; simulated time advances only while clients sleep or poll, so steps are the better measure",
            "context_switches": agg["switches"], "synchronisation_operations": agg["sync_ops"], "preemptions_at_memory_accesses": agg["mem_preempt"],
            "allocations": agg["allocs"], "allocations_reusing_a_freed_address": agg["reused"], "max_threads_in_one_run": maxthreads,
            "faults_injected": {FAULTS[i]: arr["fired"][i] for i in range(nf)},
            "runs_with_fault": {FAULTS[i]: arr["fired_runs"][i] for i in range(nf)},
            "fault_opportunities": {FAULTS[i]: arr["opportunities"][i] for i in range(nf)},
            "strategies": {STRATS[i]: arr["strategies"][i] for i in range(4)},
            "probes_hit": {PROBES.get(i, str(i)): x for i, x in enumerate(arr["probes"]) if x},
            "runs_per_variant_and_scenario": {f"{v}/{s}": n[0] for (v, s), n in sorted(per.items())},
            "variants": {v: " ".join(VARIANTS[v][0]) + (f" slices {specs[v][2]}" if specs[v][2] else "") for v in bins},
            "variants_left_out": b.notes,
            "paired_executions": agg["pairs"],
            "traces_too_long_to_replay": agg["overflow"],
            "runs_not_started_before_deadline": skipped,
            "violations_of_other_properties_ignored": agg["other_classes"],
            "determinism_selfcheck": {"batches": len(det), "seeds_each": (12 if tier == "quick" else 150) if det else 0, "mismatching_batches": len(bad_det)},
            "real_components": REAL, "stub_components": STUB,
        },
        "assumptions": ["sequentially consistent memory: races are detected by happens-before, but effects of weaker orderings are not simulated",
                        "g++ 13 / libstdc++ builds at -O1 of the variants listed; other compilers and macros are not run",
                        "sampling: schedules, faults and inputs outside the drawn ones are not covered"],
        "wall_s": round(wall, 2), "build_s": round(t_build, 2), "violations": len(found),
        "irreproducible": len(irrep), "known_findings_seen": sorted(known_hit),
    }
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for what in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop} {tier}: {runs} simulated runs, {agg['steps']} steps, {len(hs_all)} distinct executions, build {t_build:.0f} s, total {wall:.0f} s")
    if reported:
        for x, dst in reported:
            print(f"{x['class']}: {x['min_message']}")
            for w in x["where"]:
                print("   " + w)
            print(f"seed {x['seed']} variant {x['variant']} scenario {x['scenario']} {x['note']}")
            print(f"VIOLATION property={prop} replay={dst}")
        return 1
    if irrep:
        print("violations that do not replay exactly: " + "; ".join(f"{x['class']} {x['message'][:200]} seed {x['seed']} variant {x['variant']}" for x in irrep[:3]), file=sys.stderr)
        return 3
    if failed or bad_det:
        print("simulator problem: " + "; ".join([str(x) for x in failed + bad_det][:3]), file=sys.stderr)
        return 3
    if runs == 0:
        print("nothing was run", file=sys.stderr)
        return 3
    return 0


def replay(path):
    m = re.search(r"^# variant (\S+) tier (\S+) property (\S+)", rd(path).decode(), re.M)
    if not m:
        print("not a replay file of this framework", file=sys.stderr)
        return 2
    v, tier, prop = m.groups()
    specs = specs_for({k for _, k, _, _ in PROPS[prop]}, tier)
    b = Builder()
    binary = b.variants({v: specs[v]})[v]
    if not binary:
        return 2
    r = subprocess.run([binary, "replay", "--file", path], capture_output=True, text=True)
    print(r.stdout, end="")
    for w in symbolise(binary, r.stdout):
        print("   " + w)
    if r.returncode == 1:
        print(f"VIOLATION property={prop} replay={path}")
    return r.returncode


def selftest(n):
    """Every scenario and variant: many seeds, at two worker counts, event hashes compared."""
    specs = specs_for({P, I, M}, "quick")
    bins = Builder().variants(specs)
    bad = 0
    for v, binary in bins.items():
        res = []
        scens = subprocess.run([binary, "list"], capture_output=True, text=True).stdout.split()
        for workers in (NCPU, 3):
            def dt(a):
                s, k = a
                f = f"{BUILD}/det-{v}-{s}-{k}-{workers}"
                if os.path.exists(f):
                    os.unlink(f)
                r = subprocess.run([binary, "determinism", "--scen", s, "--base", "99", "--from", str(k * n // 4), "--count", str(n // 4), "--hashes", f], capture_output=True, text=True)
                t = rd(f).decode()
                os.unlink(f)
                return s, k, r.returncode, t
            with cf.ThreadPoolExecutor(workers) as ex:
                res.append(list(ex.map(dt, [(s, k) for s in scens for k in range(4)])))
        diff = sum(a != c for a, c in zip(*res)) + sum(a[2] != 0 for a in res[0])
        bad += diff
        print(f"variant {v}: {len(scens)} scenarios x {n} seeds, {diff} differences")
    return 3 if bad else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if len(a) >= 1 and a[0] in PROPS:
        sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
    if len(a) == 2 and a[0] == "replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "setup":  # nothing to prepare: every check builds what it needs
        sys.exit(subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode)
    if a and a[0] == "selftest":
        sys.exit(selftest(int(a[1]) if len(a) > 1 else 100))
    print(__doc__)
    sys.exit(2)
