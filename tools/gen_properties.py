#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

TH = "cppcore/include/detail/thread.hpp"
prop("C01", "Parallel job pipeline: every job produced, computed, retired exactly once",
 "For any number of jobs, one or more threads and any queue size, the parallel loop produces the jobs one at a time in ascending order, computes each exactly once after it was produced, and retires each exactly once, one at a time, with its own id and its own computed value, after its computation finished. "
 "The call returns only when every job is retired, it always terminates (also when there are no jobs, fewer jobs than threads, spurious wake-ups or stalled threads), and everything a later stage reads was ordered after the stage that wrote it (no data race). "
 "Computations of different jobs may overlap: no stage waits for an unrelated job to finish.",
 ["schedules","inputs","fault_sequences"],
 "every thread schedule, wake-up order, spurious wake-up and stall, for every (jobs, threads, queue size), every per-job duration",
 "No existing test touches the parallel code at all; even a test which did would sample a handful of OS schedules it does not control.",
 [TH, "cppmodule/src/parallel.cpp"],
 "parallel_for: one producer thread, bounded work queue, N workers, unbounded retirement queue, one report thread; queues close when their last producer leaves",
 [("work_queue","produced, not yet taken jobs"),("retirement_queue","computed, not yet retired jobs"),("num_producers / is_closed","who may still push; closed means consumers drain and stop")])

prop("C02", "Parallel loop memory bound: at most queue size + threads jobs at a time",
 "At every moment of a parallel loop, the number of jobs that have been produced (or are being produced) and are not retired yet never exceeds the queue size plus the number of threads, where a queue size of zero means the number of threads. "
 "The bound holds no matter how slow computing or retiring is compared to producing, and the queue still fills: with stalled workers the producer runs ahead until the bound instead of waiting for each job.",
 ["schedules","inputs"],
 "every schedule, including arbitrarily slow workers or an arbitrarily slow retire stage, for every (jobs, threads, queue size)",
 "The bound is only approached under particular relative speeds of producer, workers and reporter; no test runs the parallel loop.",
 [TH, "pybinding/parallel.py", "cppmodule/src/parallel.cpp"],
 "work queue capacity max_size blocks the producer; documented in pybinding/parallel.py (queue_size)",
 [("max_size","capacity of the work queue")])

prop("C03", "Thread pool: every task runs exactly once; join and destruction drain it",
 "Every task added to a thread pool with at least one worker runs exactly once, to completion, on a worker; join (or destruction) returns only after all added tasks finished, always returns, may be called repeatedly, and everything the tasks wrote is visible afterwards. "
 "Workers take tasks in the order they were added (with one worker tasks run in that order), all workers work in parallel, and never more tasks run at once than there are workers.",
 ["schedules","inputs","histories"],
 "every schedule, wake-up order and stall; every number of workers and tasks; every add/join/destroy order that respects add-before-join",
 "No test creates a thread pool; OS scheduling of a sample run cannot show the absence of a lost wake-up or a lost last task.",
 [TH, "cppcore/src/kpm/default/Compute.cpp"],
 "ThreadPool over Queue<std::function>: the pool is the queue's only producer, join closes the queue and joins the workers",
 [("queue","tasks added, not yet taken"),("is_joined","join already done")])

prop("C04", "Work queue is a linearizable bounded FIFO with producer-counted closing",
 "Under any number of concurrent producers and consumers the work queue behaves like one atomic first-in first-out queue: nothing is lost, duplicated, reordered or altered, and it never holds more than its capacity. "
 "A pop returns empty-handed only if the queue is empty and every registered producer has left; it returns an item whenever one is available, and re-registering a producer reopens the queue. "
 "No consumer stays blocked once an item is available or the queue is closed, and no producer stays blocked once there is room.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of push, pop, add_producer and remove_producer by several threads, every choice of woken waiter, spurious wake-ups, every capacity >= 1",
 "Linearizability and the absence of lost wake-ups quantify over interleavings; no test uses the queue.",
 [TH],
 "Queue: one mutex, two condition variables (room, items), producer count, closed flag",
 [("q","items in order"),("num_producers","registered producers"),("is_closed","no producer left")])

prop("C05", "KPM density of states: same answer for every schedule and thread count",
 "Local and stochastic density-of-states calculations return, for every thread schedule and every number of compute threads, the same result as computing the vectors one after another: column i of a batched local result belongs to the i-th requested index, and the stochastic result is the average over exactly the requested number of random vectors, drawn in a fixed order. "
 "This holds for every scalar type, matrix format, reordering/interleaving option and batch size, and without data races between the compute threads.",
 ["schedules","configurations","inputs"],
 "every schedule of the compute threads; thread counts 1..N; every number of vectors modulo the batch size; all scalar types, matrix formats and algorithm options",
 "The KPM tests run a handful of fixed configurations with whatever schedule the OS gives; with wrong index attribution or a lost contribution most schedules still pass.",
 ["cppcore/src/kpm/default/Compute.cpp","cppcore/src/kpm/Moments.cpp","cppcore/src/kpm/Starter.cpp","cppcore/include/kpm/Moments.hpp","cppcore/include/kpm/Starter.hpp","cppcore/include/kpm/calc_moments.hpp","cppcore/src/kpm/Core.cpp", TH],
 "thread pool tasks draw (index, start vector) atomically from a locked starter, compute moments, and add them to a locked accumulator/concatenator",
 [("starter.count","next vector to hand out"),("BatchConcatenator/BatchAccumulator","per-batch results being merged")])

prop("C06", "KPM progress reports: one start, exact increments, one finish, in every schedule",
 "Every local or stochastic density-of-states calculation reports its progress as one start event before any work is reported, then increments, then one finish event after all of them, in every schedule and for every thread count; the finish comes after the last increment and no report comes after the calculation returned. "
 "No finished vector goes unreported: every computed vector is covered by exactly one increment, so the increments add up to the number of vectors computed (at least the announced total, and beyond it only by the padding of the last batch). "
 "A calculation which fails after its start was reported reports its end too (an increment of 0), after all other reports. "
 "Registering a progress callback does not change the numerical result.",
 ["schedules","configurations"],
 "every schedule of the compute threads, every number of vectors modulo the batch size, every thread count; local and stochastic densities of states (Green's functions and conductivities report no progress)",
 "Progress callbacks are called concurrently from worker threads; no test registers one.",
 ["cppcore/src/kpm/default/Compute.cpp","cppcore/include/kpm/default/Compute.hpp"],
 "progress_start / progress_update / progress_finish around the thread pool",
 [("delta","-1: start; n: n vectors done; total: finish")])

prop("C07", "KPM object reuse: results depend only on the current model, never on the past",
 "A KPM object gives, for every sequence of calculations, model replacements and failed calculations, the same results as a freshly created KPM object for the current model with the same configuration. "
 "No calculation is affected by which sites or targets were asked for before, by a rejected request, or by an earlier calculation or model replacement that failed part way.",
 ["histories","fault_sequences","configurations"],
 "every sequence of density, Green's function, LDOS and conductivity requests, set_model calls and injected failures (failed allocations, throwing user callbacks), for every algorithm configuration",
 "Tests make one or two requests on a fresh object and inject no failures; the cached, reordered Hamiltonian is state that only histories exercise.",
 ["cppcore/src/KPM.cpp","cppcore/include/KPM.hpp","cppcore/src/kpm/Core.cpp","cppcore/src/kpm/OptimizedHamiltonian.cpp","cppcore/include/kpm/OptimizedHamiltonian.hpp","cppcore/src/kpm/Bounds.cpp"],
 "OptimizedHamiltonian caches one reordered, scaled matrix keyed by the requested indices; Bounds caches the energy bounds; BaseKPM holds the model and the core",
 [("original_idx","indices the cached matrix was built for"),("reorder_map","permutation of the cached matrix"),("bounds","cached spectrum limits")])

prop("C08", "Model reflects exactly its current ingredients, whatever the evaluation history",
 "After any sequence of adding, clearing, configuring, copying and evaluating, a model's system, Hamiltonian and leads equal those of a new model given the model's current ingredients in the same order, and equal the sites and matrix elements those ingredients define. "
 "Evaluating early, evaluating twice, copying a model, or changing a copy never changes what another evaluation returns, and results that were already handed out never change. "
 "A request that is rejected with an error leaves the model as it was.",
 ["histories","inputs","programs"],
 "every sequence of add (primitive, shape, symmetry, site/position/onsite/hopping modifiers, generators, leads), clear, wave vector, copy and evaluate operations, including rejected ones",
 "Tests build each model once and evaluate it at the end; stale-cache and partial-mutation mistakes appear only in longer histories.",
 ["cppcore/src/Model.cpp","cppcore/include/Model.hpp","cppcore/src/leads/Leads.cpp","cppcore/include/leads/Leads.hpp","cppcore/src/system/System.cpp","cppcore/src/system/Foundation.cpp","cppcore/src/system/StructureModifiers.cpp","cppcore/include/hamiltonian/HamiltonianModifiers.hpp","cppcore/include/hamiltonian/Hamiltonian.hpp","cppcore/src/system/Registry.cpp"],
 "lazily built and cached system, Hamiltonian and lead structures, invalidated by the operations which change the ingredients",
 [("_system/_hamiltonian/_leads","caches"),("complex_override","scalar type promotion discovered during evaluation")])

prop("C09", "Solver results always belong to the current model; solving is lazy",
 "A solver's eigenvalues, eigenvectors and derived quantities always belong to the model it currently holds: after a model replacement or a clear, the next access recomputes them, and otherwise repeated access returns the same values and the eigensolver runs once. "
 "Eigenpairs satisfy H v = E v for the current Hamiltonian, and derived densities follow from exactly those eigenpairs. "
 "A solve or model replacement that fails part way leaves the solver usable: a later access either fails again or gives the correct result, never stale or half-computed data.",
 ["histories","fault_sequences"],
 "every sequence of solve, clear, set_model and derived-quantity requests with failing allocations or throwing callbacks at any point",
 "Solver has no C++ tests beyond the happy path of a single solve; staleness needs a history and a failure.",
 ["cppcore/src/solver/Solver.cpp","cppcore/include/solver/Solver.hpp"],
 "BaseSolver caches a strategy per scalar type and an is_solved flag; set_model and clear reset it",
 [("is_solved","cached eigenpairs valid"),("strategy","scalar-typed solver bound to one Hamiltonian")])

prop("C10", "Failed evaluation leaves no trace: retrying equals never having failed",
 "If evaluating a model (its system, Hamiltonian or leads) or a computation on it fails part way, because a user callback throws or an allocation fails, at any point, the error is reported to the caller and the objects stay usable. "
 "Repeating the request after the fault is gone gives exactly the result of an undisturbed run, and no memory is lost, freed twice or used after free.",
 ["fault_sequences","crash_points","histories"],
 "every allocation and every user-callback invocation as the failing point, in every evaluation path (system, Hamiltonian, leads, solver, KPM)",
 "Tests inject no failures; the failing point has to be swept over every allocation and callback of an evaluation.",
 ["cppcore/src/Model.cpp","cppcore/src/leads/Leads.cpp","cppcore/src/system/System.cpp","cppcore/src/system/Foundation.cpp","cppcore/src/kpm/OptimizedHamiltonian.cpp","cppcore/src/KPM.cpp","cppcore/src/solver/Solver.cpp"],
 "caches are assigned only after the value was completely built; exceptions propagate",
 [("Leads::structures/hamiltonians","vectors filled lead by lead")])

prop("C11", "Deferred results: computed once, never touching Python without its lock",
 "A deferred computation is evaluated at most once however often and in whatever order it is computed and read, and its result is what the computation returned. "
 "In a parallel sweep, and in calculations which report their progress to Python or run Python modifiers, no Python object is created, copied, called or destroyed by a thread that does not hold the interpreter lock; "
 "the lock is released while computing, so that computations overlap, progress can be reported and nothing deadlocks. After the sweep or calculation, also a failed one, every reference taken to a Python object has been returned exactly once.",
 ["schedules","histories","fault_sequences"],
 "every schedule of producer, workers, reporter and other interpreter threads contending for the interpreter lock",
 "The Python module is not built or tested here, and reference-count races show only in rare interleavings.",
 ["cppmodule/include/thread.hpp","cppmodule/src/parallel.cpp","cppmodule/src/kpm.cpp","cppmodule/src/modifiers.cpp", TH],
 "gil_scoped_release/acquire around parallel_for callbacks; Deferred memoises its result",
 [("is_computed","result is memoised"),("interpreter lock","who may touch Python objects")])

prop("C12", "Parallel sweep data: every result in its place for every completion order",
 "A sweep returns, for every completion order of the parallel jobs, exactly the data of computing the points one after another: each result sits at its own position (and grid coordinates), none is missing, duplicated or overwritten. "
 "Hooks see each job exactly once with its own result, and a periodically saved file is always a valid sweep whose filled-in points hold their correct values, with the complete sweep saved at the end.",
 ["schedules","inputs","fault_sequences"],
 "every completion order, number of threads and queue size, sweep and grid shapes, save intervals, label and hook configurations",
 "No Python tests run here; completion order is decided by the OS, and a test sees one of n! orders.",
 ["pybinding/parallel.py","pybinding/results.py","pybinding/support/pickle.py"],
 "ParallelFor / sweep / ndsweep factories: retire callbacks receive (deferred, id) in completion order and place the result by id",
 [("result","array filled in by id"),("save_every","periodic save threshold")])

prop("C13", "Progress display: output streams restored, no output lost, whatever happens",
 "While a progress bar is shown, everything the program prints, from any thread, still appears, complete and for each stream in order, and after the bar finishes or its block is left by an error, standard output and error are exactly the streams they were before. "
 "The displayed percentage is the (rounded) finished part of the work and never above 100, times and estimates stay well formed and true to the time which really passed for any clock behaviour (stopped, jumping or going backwards), a KPM calculation which fails gives the streams back too, and a failing or closed output stream never loses the computation's result or its error.",
 ["fault_sequences","histories","schedules"],
 "every sequence of start, update, print, finish, exception and clock step, with any terminal width and write failures at any point",
 "No test drives the progress bar; clock jumps and write errors do not occur in tests.",
 ["pybinding/utils/progressbar.py","pybinding/chebyshev.py","cppcore/src/kpm/default/Compute.cpp"],
 "ProgressBar replaces sys.stdout/stderr with capturing streams and restores them on finish; KPM calculations drive one through _ComputeProgressReporter",
 [("captured streams","saved sys.stdout/sys.stderr")])

prop("C14", "Saved results survive crashes: load returns what was saved or fails",
 "Loading a file returns exactly an object that was saved to that path, or fails with an error: never a different or partly filled object, whatever crash, full disk, short or torn write or flipped byte happened. "
 "A save that was interrupted by a crash or failed with an error leaves the previously saved version loadable, and a save that returned successfully is the version loaded afterwards. "
 "Saving and loading round-trips every supported object, including lattices, systems and their parts which are defined in the extension module, in the format of this and of older versions; what was saved is independent of the original, which may change or be deleted meanwhile, and a save or load which runs out of memory changes nothing.",
 ["crash_points","fault_sequences","histories"],
 "a crash, write error, short write or full disk at every I/O operation of every save in a sequence of saves and loads; every lattice and system, history of changes of the original, and failing allocation while it is saved or loaded",
 "No test saves anything; crash points inside a save cannot be reached by a unit test.",
 ["pybinding/support/pickle.py","pybinding/parallel.py","cppmodule/src/system.cpp","cppmodule/src/lattice.cpp","cppcore/src/system/HoppingBlocks.cpp","cppcore/src/system/CompressedSublattices.cpp"],
 "save writes a gzip-compressed pickle to a path; load reads it back; the extension module gives the state of its objects to pickle and makes objects from such states",
 [("file contents","durable state")])

prop("C15", "Whole calculations in parallel equal the same calculations one at a time",
 "Building and solving different models on several threads at once, even when the models share lattices, modifiers, symmetries, copied systems or deferred solvers that were created together, gives for every schedule exactly the results of running them one after another. "
 "Library code keeps no hidden shared mutable state: no data race exists between calculations on different model, solver or KPM objects.",
 ["schedules","inputs","programs"],
 "every interleaving (down to single memory accesses) of model evaluation, eigensolving and KPM calculations on different threads",
 "The tests are single threaded; hidden shared state is only visible under concurrent use.",
 ["cppcore/src/Model.cpp","cppcore/src/solver/Solver.cpp","cppcore/src/KPM.cpp","cppcore/src/Lattice.cpp","cppcore/src/system/System.cpp","cppcore/include/detail/thread.hpp"],
 "models share immutable ingredients through shared pointers; evaluation writes only to the object's own caches",
 [("shared ingredients","lattice, shared System, type-erased modifiers")])

prop("C16", "Reported timings are sane whatever the wall clock does",
 "Durations reported by calculations (solver and KPM reports, timers) are never negative and never exceed the time that really passed, even when the system's wall clock is set forwards or backwards while the calculation runs. "
 "Every duration from microseconds to days is printed as a well-formed, readable value which stands for that duration to the precision shown, and accumulated timers equal the sum of their intervals.",
 ["fault_sequences","inputs","histories"],
 "every sequence of timer operations with arbitrary wall-clock jumps between them and any elapsed time",
 "Tests cannot set the clock and do not check timings.",
 ["cppcore/include/utils/Chrono.hpp","cppcore/src/utils/Chrono.cpp","cppcore/src/kpm/Stats.cpp","cppcore/src/solver/Solver.cpp"],
 "Chrono: tic / toc / toc_accumulate over a std::chrono clock; str() formats the elapsed time",
 [("tic_time","start of the interval"),("elapsed","measured duration")])

prop("C17", "Errors in parallel work reach the caller: no crash, hang, loss or leak",
 "An exception thrown by any stage of a parallel loop, or by a thread pool task, never terminates the process and never hangs: all threads finish and one of the thrown exceptions is rethrown to the caller of the loop (or of the pool's join). "
 "The same holds when memory runs out or a thread cannot be started: the caller is told, or all jobs are done nevertheless. "
 "No stage runs twice for a job, no job is retired whose computation did not finish, nothing runs after the call ended, and every job value is destroyed. "
 "Without an exception nothing is reported and no job is dropped.",
 ["fault_sequences","schedules"],
 "every stage of every job, thread start and allocation as the failing one, several failures at once, every schedule",
 "No test throws from a parallel job; the interesting failures are those with the producer blocked, the queue full or another failure in flight.",
 [TH, "cppmodule/src/parallel.cpp", "cppcore/src/kpm/default/Compute.cpp"],
 "SharedError keeps the first exception; after it the stages are skipped while the queues drain",
 [("has_error","skip the remaining jobs")])

# ---- pure functions: listed, not claimed (see MANIFEST not_applicable)
prop("C18", "What was handed out keeps its contents: matrices, systems, leads are snapshots",
 "A Hamiltonian, system, lead or array obtained from a model, and the eigenvalues and eigenvectors obtained from a solver, keep their contents for as long as the caller holds them, whatever happens to the model or the solver afterwards: more shapes, modifiers or leads, another wave vector or another model for the solver, cleared modifiers, an evaluation which fails part way, a copy of the model which is changed, or the deletion of the model or the solver. "
 "It is never modified in place and its memory is not freed while it can be reached from Python.",
 ["histories","fault_sequences"],
 "every sequence of changes of a model, with results of earlier evaluations still held",
 "Tests look at each result right after it was made; a result which later goes stale, is modified or refers to freed memory needs a history.",
 ["cppcore/src/Model.cpp","cppcore/include/hamiltonian/Hamiltonian.hpp","cppmodule/src/model.cpp","cppmodule/src/leads.cpp","cppmodule/src/system.cpp","cppmodule/include/cast.hpp","cppmodule/src/solver.cpp","cppcore/src/solver/Solver.cpp"],
 "results are immutable and shared by reference counting; a change of the model replaces them",
 [("Model::_system, _hamiltonian","cached results, shared with their users"),("keep-alive references","what keeps the memory of an array alive")])

prop("C19", "Text exports are complete or the error is reported",
 "When the text export of a sweep or of a spatial map returns normally, the file holds exactly the header and one line per point, in the documented order and with the documented labels, readable again as the same numbers to the printed precision. "
 "A disk error, a full disk, a short write or an interruption at any point is reported to the caller, never silently leaves a truncated file behind a normal return, and never changes the results in memory, so that the export can be repeated.",
 ["fault_sequences","inputs"],
 "every shape and content of a sweep, and every failing or partial file operation during the export",
 "No test writes a text export at all, and none makes the disk fail.",
 ["pybinding/results.py"],
 "Sweep.save_txt and SpatialMap.save_txt write a header and the joined columns to a file")

prop("C25", "What a with block changed for the process is restored, however it ends",
 "The library's context managers which change something of the whole process - the working directory (utils.cd), the current axes (pltutils.axes), the plotting backend and the state used by running the installed tests - give exactly the previous state back when the block ends, whether it returns, raises any exception, is interrupted or is nested in itself, and also when the change itself or a statement within fails part way. "
 "The exception of the block reaches the caller unchanged.",
 ["fault_sequences","histories"],
 "every nesting of blocks, with an exception, an interruption or a failing system call at any point",
 "Tests use the blocks only when nothing goes wrong.",
 ["pybinding/utils/misc.py","pybinding/pltutils.py","pybinding/__init__.py"],
 "context managers which save, change and restore process-wide state")

prop("C26", "A lattice is exactly its accepted definitions; rejected ones leave no trace",
 "A lattice is the sum of the definitions (sublattices, aliases, hopping families, hoppings, offset, minimum neighbours) which were accepted, in whatever order they were made that names things before their use, including aliases between sublattices and aliases of aliases. "
 "A definition which is rejected as invalid, or which fails because memory ran out, changes nothing: the lattice and all models built from it are the same as if it had never been attempted, and it can be attempted again. "
 "Copies of a lattice and models made earlier do not change when the lattice does.",
 ["histories","fault_sequences"],
 "every sequence of valid and invalid definitions with an allocation failure at any point",
 "Tests define lattices once, in one order and check only that invalid definitions raise an error, not what they leave behind.",
 ["cppcore/src/Lattice.cpp","cppcore/include/Lattice.hpp","cppcore/src/system/Registry.cpp","cppcore/src/Model.cpp"],
 "Lattice::add_sublattice / add_alias / register_hopping_energy / add_hopping check and then change the lattice",
 [("Lattice::sublattices, hoppings","the accepted definitions"),("site_registry / hopping_registry","tables made from them for a model")])

prop("C27", "Modifiers, shapes and generators in Python give the same model as in C++",
 "A model which is built from Python, with a lattice, shapes, site and hopping generators, and state, position, onsite and hopping modifiers given as Python functions, is the same model as the one built with the same functions in C++, whichever thread evaluates it, with or without the interpreter lock, and however many threads share the function objects. "
 "The functions see the right energies, positions and names; their results count whether arguments were changed in place, new arrays of any memory layout were made, or an argument was returned in the place of another; complex results make the model complex. "
 "An exception in a function reaches the caller unchanged, a result of the wrong size is reported as an error, and after either the evaluation can be repeated with the right result. No Python object is leaked or used without the lock.",
 ["schedules","histories","fault_sequences"],
 "every combination of ingredients, result forms and threads with an exception or a wrong result at any call of any function",
 "Tests of the Python interface need the extension module, use contiguous new arrays in one thread, and never fail part way; the C++ tests have no Python at all.",
 ["cppmodule/src/modifiers.cpp","cppmodule/src/shape.cpp","cppmodule/src/model.cpp","cppmodule/src/lattice.cpp","cppmodule/include/cast.hpp","cppcore/src/Model.cpp"],
 "ExtractModifierResult copies the results of Python functions; gil_scoped_acquire in each callback; casters of arrays and vectors",
 [("arrays which Python sees","views of the memory of the model under construction"),("functions kept by modifiers","references to Python objects, copied with the model")])

prop("C20", "Finite systems contain exactly the lattice sites and bonds their shape selects",
 "For every lattice and shape, the built system contains exactly the sites inside the shape that keep the minimum number of neighbours, each once, and exactly the lattice bonds between them.",
 ["inputs"], "every lattice, shape and minimum-neighbour setting",
 "Tests check a few shapes.", ["cppcore/src/system/Foundation.cpp","cppcore/src/system/Shape.cpp","cppcore/src/Lattice.cpp"], "Foundation fills the bounding box; Shape::contains filters")
prop("C21", "Hamiltonian matrices are Hermitian and contain each onsite and hopping term once",
 "For every system and wave vector the Hamiltonian matrix is Hermitian and every entry equals the sum of exactly the onsite, hopping and Bloch-phase terms of the model.",
 ["inputs"], "every lattice, symmetry, modifier and wave vector", "Tests check a few matrices.",
 ["cppcore/include/hamiltonian/Hamiltonian.hpp","cppcore/src/hamiltonian/Hamiltonian.cpp","cppcore/include/hamiltonian/HamiltonianModifiers.hpp"], "matrix assembly from the system and modifiers")
prop("C22", "KPM spectra are accurate approximations of the exact spectral functions",
 "With sufficiently many moments KPM densities and Green's functions converge to the exact spectral functions, kernels damp as defined, and the Lanczos bounds enclose the spectrum to the requested precision.",
 ["inputs"], "every Hamiltonian, kernel, broadening and energy grid", "Tests compare a few cases.",
 ["cppcore/src/kpm/Bounds.cpp","cppcore/src/kpm/Kernel.cpp","cppcore/include/kpm/reconstruct.hpp"], "Chebyshev expansion and kernel reconstruction")
prop("C23", "Lead structures continue the system periodically in the lead direction",
 "Every attached lead connects to a complete cross-section of the system and its unit cell and hopping matrices repeat the lattice in the lead direction.",
 ["inputs"], "every system shape and lead direction", "Tests check a few leads.",
 ["cppcore/src/leads/Spec.cpp","cppcore/src/leads/Structure.cpp","cppcore/src/leads/HamiltonianPair.cpp"], "lead Spec and Structure built from the foundation")
prop("C24", "Compressed containers round-trip (sublattices, hoppings, sparse formats)",
 "Converting between compressed and expanded forms of sublattices, hoppings, CSR and ELLPACK matrices preserves every element, and slicing and filtering keep exactly the selected ones.",
 ["inputs"], "every content", "Tests check a few contents.",
 ["cppcore/src/system/CompressedSublattices.cpp","cppcore/src/system/HoppingBlocks.cpp","cppcore/include/numeric/ellmatrix.hpp","cppcore/include/numeric/sparse.hpp"], "run-length and block encodings")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
