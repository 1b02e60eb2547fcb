import json
P="src/include/DedicatedThreadPool.hpp"; T="src/include/InterpolationTemplate.hpp"; F="src/include/Interpolation.hpp"; B="src/include/BSpline.hpp"; M="src/include/Mesh.hpp"; L="src/include/BandLU.hpp"; BM="src/include/BandMatrix.hpp"; A="src/include/aligned-allocator.hpp"; U="src/include/util.hpp"
def p(id,title,st,over,qt,why,files,mech,observe):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
R=[
p("C01","Parallel construction yields the interpolant of the data under every schedule",
 "An interpolation function built with the thread pool (INTP_MULTITHREAD) is the same function as the sequentially built one: at every point its value, its at() value and its derivatives equal those of the B-spline interpolant of the given data, whatever the interleaving of workers and caller, the number of workers, the construction path (template interpolate by value, in place or on an rvalue, direct constructor, 1D iterator range), the storage layout (INTP_CELL_LAYOUT on or off) and the mesh shape. at() and derivative_at() accept exactly the points of the range.",
 ["schedules","inputs","configurations"],"every schedule of pool workers and caller, every pool size, all dimensions/orders/periodicity/uniformity/mesh shapes including meshes with more task blocks than the pool moves in one batch, all build macros",
 "tests run one or two pool sizes on whatever schedule the machine happens to produce, mostly on small meshes, and only in one macro configuration",
 [T,B,F,P],[("InterpolationFunctionTemplate::solve_for_control_points_",T),("BSpline::generate_cell_layout_ / load_ctrlPts",B),("BSpline::operator() and derivative_at",B)],["InterpolationFunction::operator()","at","derivative","derivative_at","eval_proxy"]),
p("C02","Concurrent interpolations from shared templates do not interfere",
 "Any number of caller threads may use the same const InterpolationFunctionTemplate (and the same input mesh) at once: every call returns the interpolant of its own data, exactly as if it had run alone, and no call races with another one or blocks forever.",
 ["schedules","histories"],"every interleaving of 2..4 caller threads, each running several interpolate/direct-construction calls, with the shared pool's workers, including the very first use of the pool",
 "no test calls interpolate from more than one thread",
 [T,P,B],[("interpolate() const&",T),("solve_for_control_points_ and its local task list",T),("DedicatedThreadPool::get_instance",P)],["results of interpolate()","happens-before races on library data"]),
p("C03","Concurrent reads of a function are race-free, in bounds and correct",
 "Const member functions of InterpolationFunction (operator(), at, derivative, derivative_at, range, periodicity, uniform), evaluation proxies and copy construction may run concurrently on the same object: they never write shared state, never touch memory outside the object, and each returns what a single-threaded caller would get - for points inside, on the border of, and (extrapolated, or wrapped when periodic) outside the range.",
 ["schedules","inputs"],"every interleaving of 2..5 readers (optionally next to a thread building other functions from the same template), every kind of point",
 "tests evaluate from one thread only, and an evaluation cache or an out-of-bounds read by one element need not change a tested value",
 [F,B,M,U],[("BSpline::operator() / derivative_at / base_spline_value",B),("BSpline::get_knot_iter",B),("InterpolationFunction::at, call_op_helper, eval_proxy",F)],["returned values","races","heap bounds"]),
p("C04","The pool runs each accepted task exactly once and delivers its outcome",
 "If queue_task returns, the task is run exactly once while the pool is alive, and its future delivers that task's own return value or exception, with everything the task did (and everything the caller did before queueing) visible across the hand-over. If queue_task throws, the task is never run. This holds for any number of submitting threads (including tasks that queue tasks), any queue length, dropped futures, throwing and move-only tasks and results, and when memory allocation fails in the submitter or in a worker.",
 ["schedules","fault_sequences","inputs"],"every interleaving of submitters, workers and thieves, every queue length (below, at, above the batch size), every subset of failing allocations",
 "tests check a handful of tasks on a live schedule; a lost, duplicated or mis-delivered task needs a specific race between pop, steal and batch transfer or a failing allocation",
 [P],[("queue_task",P),("try_pop_from_main (batch transfer)",P),("shared_working_queue push/try_pop/try_steal",P),("thread_loop",P)],["futures","task run counters"]),
p("C05","The pool makes progress: accepted tasks finish, whoever sleeps or stalls",
 "As long as tasks themselves return, every accepted task completes within a bounded number of steps once scheduling is fair: no wake-up is lost between a submission and a worker about to sleep, spurious or redirected wake-ups do no harm, and repeated idle/busy phases, bursts longer than a batch and any pool size from 1 upwards never leave a task stranded in a queue.",
 ["schedules","fault_sequences"],"every interleaving of 1..4 submitting threads in rounds with idle phases against 1..8 workers, with spurious wake-ups, notifications reaching any waiter, stalled threads",
 "a lost wake-up hangs one run in many thousands on a real machine; tests neither provoke nor bound it",
 [P],[("thread_loop wait predicate",P),("queue_task notify",P),("try_steal_from_others",P)],["future.get() returns within the step bound"]),
p("C06","Shutdown of the pool terminates, joins every worker and settles every future",
 "Destroying the pool (at process exit) at any moment - idle, busy, with queued tasks, right after start-up, with tasks that queue tasks - terminates, leaves no thread behind and touches nothing already destroyed. Every future is then ready: either the task ran once and its outcome is delivered, or it never ran and the future reports broken_promise.",
 ["schedules","crash_points"],"every instant at which process exit can begin relative to every worker's position, every queue content",
 "tests exit with an idle pool and cannot choose the instant; a missed termination flag or wrong member order only shows in one interleaving",
 [P],[("~DedicatedThreadPool / terminate_workers",P),("JoinThreads and member order",P),("thread_loop",P)],["process exit","futures after exit"]),
p("C07","Start-up of the pool: one instance, the requested size, clean retryable failure",
 "However many threads call get_instance at the same time, all get the same pool, with exactly the number of workers one of the callers asked for (8 if that number is 0 or the hardware concurrency is unknown), and it runs tasks at once. If creating a worker thread or allocating memory fails, the call reports that error (system_error or bad_alloc), leaves no thread or memory behind and does not terminate the process, and a later call succeeds.",
 ["schedules","fault_sequences","configurations"],"every interleaving of first users with starting workers, every position of failing thread creations and allocations, every requested size",
 "thread creation and allocation never fail in the tests, and the singleton is created once per process",
 [P],[("DedicatedThreadPool constructor and its catch block",P),("get_instance",P),("thread_loop start",P)],["get_instance result","thread_num()","threads alive"]),
p("C08","No background work outlives the call that started it",
 "When a constructor or interpolate call returns or throws, none of its work is still queued or running in the pool: the caller may immediately destroy or overwrite the mesh, the coordinates, the template and the result without any task touching them (or the call's dead stack frame) later.",
 ["schedules","fault_sequences","histories"],"every schedule of the remaining tasks after the call's end, in particular after an exception at any task, allocation or iterator operation",
 "tests never let a call fail half-way, and after success a late task usually finishes before anything is destroyed",
 [T,B,P],[("task list and wait in solve_for_control_points_",T),("task list and wait in the cell layout",B),("WaitForTasks",P)],["accesses to freed or dead memory","operations on values after the call"]),
p("C09","A failed construction reports its cause and damages nothing else",
 "If memory allocation, thread creation, an operation of the user's value type or a user iterator fails during construction, interpolation, template creation, copying or evaluation, the call throws that very error to its caller - in whichever thread it happened, never swallowed, never turned into termination or a wrong result. The template, the input and every other function are unaffected, the object being assigned stays usable (it can be interpolated into or assigned again and destroyed), and the same call succeeds once the fault is gone.",
 ["fault_sequences","schedules","inputs"],"every position of one or several failures in the operation sequence of every worker and the caller, under every schedule",
 "no test makes anything fail",
 [T,B,F,L,BM,M,P],[("solve_for_control_points_ exception path",T),("future.get() of all tasks",T),("BSpline::load_ctrlPts",B),("BandLU::compute",L)],["exceptions thrown to the caller","results afterwards"]),
p("C10","Nothing leaks, whatever fails",
 "After any history of constructions, interpolations, evaluations, copies, moves and destructions - with or without failing allocations, thread creations, user operations or iterators - all memory has been released exactly once and all threads joined when the process ends.",
 ["fault_sequences","histories","schedules"],"every history and every position of failures in it",
 "tests do not inject failures and look at leaks only of the paths they take",
 [T,B,F,M,A,L,BM,P],[("AlignedAllocator allocate/deallocate",A),("EitherSolver lifetime (C++11/14)",T),("pool construction",P)],["live heap blocks at exit"]),
p("C11","Meshes and band solvers stay consistent when operations fail",
 "Mesh, BandMatrix, ExtendedBandMatrix and BandLU keep shape and storage in agreement in every history of construction, resize, assignment, copy, move, swap, iteration, multiplication and solving, for ordinary and aligned allocators: size() is the product of dim_size(), every in-range element is readable and holds what was stored, and copies are independent. An operation that fails (failing allocation, element copy or iterator) throws that error and leaves its sources unchanged and its target in a valid state that can be used, assigned and destroyed. (An object that was moved from may only be assigned to or destroyed.)",
 ["fault_sequences","histories","inputs"],"every history of container operations and every position of a failing allocation/element operation in it",
 "tests never fail an allocation and cover a few fixed shapes",
 [M,BM,L,A,U],[("Mesh::resize and constructors",M),("MeshDimension::resize",M),("BandLU::compute / solve",L),("AlignedAllocator",A)],["size/dim_size/elements","solutions of band systems"]),
p("C12","Functions and templates are values: copies are independent, moves transfer",
 "Copying, moving, assigning (including self-assignment and over a function of a different shape) and swapping interpolation functions, and copying or moving templates, follow value semantics in every history: each object keeps evaluating the interpolant it was given, independently of what happens to its sources, to its template, or of other threads copying and reading it meanwhile. An evaluation proxy stays valid after the template that made it is gone.",
 ["histories","schedules","configurations"],"every sequence of copies, moves, assignments, swaps, re-population and destruction over a set of functions and templates, with concurrent copiers",
 "tests copy or move at most once, in one macro configuration; aliasing shows only when the source is later changed or destroyed",
 [F,T,B,M],[("InterpolationFunction special members",F),("EitherSolver copy (C++11/14)",T),("eval_proxy capture",F),("Mesh special members",M)],["values after each step of the history"]),
p("C13","Results are bit-for-bit reproducible across schedules and pool sizes",
 "Interpolating the same data on the same coordinates and evaluating at the same points gives bitwise identical results every time: independent of the interleaving, the number of pool workers, what was computed before or is computed beside it, and the previous content of memory.",
 ["schedules","histories","configurations"],"pairs of executions of the same program that differ in schedule, pool size, history and heap content",
 "tests compare with a tolerance and see one schedule; a dependence on order, address or uninitialised memory stays inside the tolerance or needs an unusual schedule",
 [T,B,L,P],[("task division in solve_for_control_points_",T),("BandLU::solve",L),("default_init_allocator (uninitialised storage)",U)],["bit patterns of values"]),
p("C14","Inputs are only read, and only during the call",
 "Data meshes, value ranges and coordinate ranges handed to constructors and interpolate are never modified, are only read (so other threads may read them meanwhile), and are not referred to after the call has returned: they may be overwritten or destroyed without any effect on the functions and templates made from them.",
 ["schedules","histories","inputs"],"every schedule of concurrent readers of the inputs and of their destruction after the call",
 "tests keep inputs alive and unchanged until the end",
 [T,F,M],[("interpolate(MeshOrIterPair&&)",T),("InterpolationFunction constructors, create_knots_",F),("input_coords_",T)],["input contents","values after inputs are gone"]),
]
NA=[
p("N01","Accuracy of the sequential interpolation algorithm",
 "For any valid data the interpolant passes through the data points and has the promised order, smoothness and boundary behaviour to floating-point accuracy.",
 ["inputs"],"all data sets, orders, dimensions","tests sample a few functions",[T,F,B],[("build_solver_",T)],["values"]),
p("N02","Mesh index arithmetic is a bijection",
 "For every mesh shape, indices and storage positions map one to one, and iteration along any dimension visits exactly the elements of that line.",
 ["inputs"],"all shapes and indices","tests sample a few shapes",[M],[("MeshDimension::indexing / dimwise_indices",M)],["indices"]),
p("N03","Band LU solves every regular banded system",
 "BandLU::solve returns the solution of any regular banded or extended-banded system within rounding.",
 ["inputs"],"all regular band matrices","tests sample a few matrices",[L,BM],[("BandLU::compute / solve",L)],["solution vector"]),
p("N04","Installed package is usable from another CMake project",
 "After cmake --install, find_package(BSplineInterpolation) followed by linking gives a program the documented include path.",
 ["configurations"],"all install prefixes","no test installs",["CMakeLists.txt","cmake"],[("install rules","CMakeLists.txt")],["consumer build"]),
p("N05","Matlab wrapper passes arguments through unchanged",
 "The MEX wrapper hands data, periodicity and ranges to the library unchanged and returns its values.",
 ["inputs"],"all MEX calls","no test",["matlab"],[("mexFunction","matlab")],["MEX outputs"]),
]
with open("/verif/properties.jsonl","w") as f:
    for r in R+NA: f.write(json.dumps(r)+"\n")
tech="deterministic simulation with fault injection: seeded schedule/fault search over real library code, "
note="Sampled, not exhaustive: holds on every simulated execution explored; sequentially consistent interleavings with happens-before race detection, real library and libstdc++ code over simulated scheduler, locks, futexes, clock and allocator; trusts the simulator runtime and the reference model."
d={"C01":"oracle: long-double reference interpolant","C02":"oracle: long-double reference interpolant per call + race detection","C03":"oracle: reference interpolant + race and bounds detection","C04":"oracle: task ledger (exactly once, own outcome, happens-before)","C05":"oracle: bounded progress under fair suffix, deadlock detection","C06":"oracle: exit at arbitrary points, joined threads, settled futures","C07":"oracle: single instance, thread census, retry after injected start-up failures","C08":"oracle: use-after-free/dead-stack/race detection and value-operation census after the call","C09":"oracle: injected cause vs. reported error, collateral and retry checks against the reference","C10":"oracle: live-block and thread census at process end under injected failures","C11":"oracle: container models under failing allocations and element operations","C12":"oracle: model of a value-semantics history with concurrent copiers","C13":"oracle: bitwise comparison within a run and between paired runs (other schedule and pool size)","C14":"oracle: concurrent readers of inputs, destruction after the call, use-after-free detection"}
man=dict(version=1,setup_cmd="python3 check.py setup",
 checks=[dict(property=r["id"],quick_cmd=f"python3 check.py {r['id']} quick",thorough_cmd=f"python3 check.py {r['id']} thorough",technique=tech+d[r["id"]],level="exploration",level_note=note) for r in R],
 not_applicable=[dict(property="N01",reason="a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide (its interaction with them is C01/C13)"),
  dict(property="N02",reason="a pure function of its input; container behaviour under failing operations is C11"),
  dict(property="N03",reason="a pure function of its input; solver behaviour under failing operations is C11"),
  dict(property="N04",reason="build-system property without schedules or faults"),
  dict(property="N05",reason="needs Matlab, which is not here; a pure pass-through")],
 notes="No hooks in /repo: the simulator interposes pthread/futex/allocator/guard calls and compiler memory-access instrumentation from outside. 'fix:' commits in /repo are listed in known_findings.txt. Replay: python3 check.py replay FILE.")
json.dump(man,open("/verif/MANIFEST.json","w"),indent=1)
