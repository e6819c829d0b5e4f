"""C12: parallel sweeps -- every completion order, hooks, periodically saved files, failures and crashes"""
import errno
import itertools
import numpy as np
import pybinding as pb
from pybinding import parallel, results
import simrt
from objects import same
from . import scenario

cpp = parallel._cpp


class Lost(Exception):
    """the program's own error"""


class Solver:
    def __init__(self, text):
        self.text = text

    def report(self, shortform=False):
        return self.text


class Deferred:
    """what `deferred_ldos` returns"""
    def __init__(self, sim, key, value, spec):
        self.sim, self.key, self.value, self.spec = sim, key, value, spec
        self.solver = Solver(f"report {key}")
        self.computed = 0
        spec.alive += 1
        if spec.alive > spec.max_alive:
            spec.max_alive = spec.alive

    def compute(self):
        if self.computed:
            return
        for _ in range(self.spec.duration()):
            self.sim.sched.point()
        if self.spec.fails("compute", self.key):
            raise Lost(f"compute {self.key}")
        self.computed += 1

    @property
    def result(self):
        self.compute()
        return self.value.copy() if self.spec.fresh_result else self.value


def parallel_for(sequence, produce, retire, num_threads, queue_size):
    """the extension module's function: contract of cppcore/include/detail/thread.hpp (checked by C01, C02, C17)"""
    sim = simrt.current
    sched = sim.sched
    size = len(sequence)
    work, done = [], []
    state = dict(alive=0, error=None, produced=False, workers=num_threads)
    limit = (queue_size or num_threads)

    def guard(f):
        if state["error"] is not None:
            return
        try:
            f()
        except (simrt.SimAbort, simrt.SimCrash):
            raise
        except BaseException as e:
            if state["error"] is None:
                state["error"] = e

    def producer():
        for i in range(size):
            def one():
                sched.block(lambda: len(work) < limit and state["alive"] < limit + num_threads)
                state["alive"] += 1
                work.append((i, produce(sequence[i])))
            guard(one)
        state["produced"] = True

    def worker():
        while True:
            sched.block(lambda: work or state["produced"])
            if not work:
                break
            i, job = work.pop(0)
            guard(job.compute)
            done.append((i, job))
            sched.point()
        state["workers"] -= 1

    def reporter():
        while True:
            sched.block(lambda: done or not state["workers"])
            if not done:
                break
            i, job = done.pop(0)
            guard(lambda: retire(job, i))
            state["alive"] -= 1
    ts = [sched.spawn("produce", producer)] + [sched.spawn(f"compute{n}", worker) for n in range(num_threads)] + [sched.spawn("retire", reporter)]
    sched.block(lambda: all(t.done for t in ts))
    for t in ts:
        if t.error is not None:
            raise t.error
    if state["error"] is not None:
        raise state["error"]


class Spec:
    """one sweep and what it must give"""
    def __init__(self, sim, name, nd=None):
        self.sim, self.name = sim, name
        self.kind = sim.pick(["sweep", "ndsweep", "list"]) if nd is None else nd
        rng = np.random.default_rng(sim.draw(1 << 30))
        ndim = 1 if self.kind == "sweep" else 1 + sim.draw(3)
        self.axes = [np.sort(rng.random(sim.pick([1, 2, 3] if ndim > 1 else [1, 2, 3, 4, 5, 6, 8, 20 if sim.thorough else 12]))) for _ in range(ndim)]
        if sim.flip(1, 4):      # in any order, with repeated values
            self.axes = [rng.permutation(np.concatenate([a, a[:sim.draw(2)]])) for a in self.axes]
        large = sim.flip(1, 40)
        if large:
            sim.probe("large sweep")
            sim.sched.limit *= 10
            self.axes[-1] = rng.random(40 + sim.draw(100))
        if sim.flip(1, 4):
            self.axes[0] = list(self.axes[0])
        self.energy = rng.random(sim.pick([1, 2, 5]))
        self.dtype = sim.pick([np.float64, np.float32])
        self.shape = sim.pick([(-1,), (-1, 1), (1, -1)])
        self.threads = sim.pick([1, 2, 2, 3, 4])
        self.queue = sim.pick([1, 2, 4, 0])
        if large:
            self.threads, self.queue = sim.pick([1, 5, 9]), sim.pick([1, 7, 30])
        self.save_every = sim.pick([10.0, 10.0, 33.0, 1.0, 25, 100.0, 250.0, 0.7])
        self.file = sim.flip(3, 4)
        self.silent = sim.flip()
        self.plots = sim.draw(3)
        self.fresh_result = sim.flip()
        self.labels = sim.pick([None, {"title": "t"}, {"x": "µ", "data": "LDOS"}]) if self.kind != "ndsweep" else sim.pick([None, {"title": "t"}, {"axes": ["a", "b"]}])
        self.tags = sim.pick([None, {"k": 1}])
        self.slow = sim.pick([1, 2, 6, 20])
        self.alive = self.max_alive = 0
        self.fail = {}
        self.log = []
        self.points = [()]
        for a in self.axes:
            self.points = [p + (i,) for p in self.points for i in range(len(a))]
        n = len(self.energy)
        self.expected = {}
        for k, p in enumerate(self.points):
            x = [a[i] for a, i in zip(self.axes, p)]
            self.expected[p] = (sum((d + 1.7) * v for d, v in enumerate(x)) + np.arange(n) + 10 * (k + 1)).astype(self.dtype)
        self.first, self.status, self.plotted, self.produced = [], [], [], []
        self.saved = -1

    def fails(self, what, key):
        if self.fail.get(what) == key:
            self.sim.fault(what + "_fails")
            return True
        return False

    def duration(self):
        return self.sim.draw(self.slow)

    def key(self, *x):
        """grid position of a parameter value, -1: not on the grid"""
        places = [[i for i, w in enumerate(a) if w == v] for a, v in zip(self.axes, x)]
        if len(x) != len(self.axes) or not all(places):
            self.sim.violation("wrong-parameter", f"produce was called with {x}")
        found = list(itertools.product(*places))
        return next((p for p in found if p not in self.produced), found[0])     # equal points are produced in order

    def text(self):
        return f"{self.kind} of {'x'.join(str(len(a)) for a in self.axes)} points with {len(self.energy)} energies, {self.threads} threads, queue {self.queue}, " + \
               (f"saved every {self.save_every} %" if self.file else "not saved") + (", silent" if self.silent else "")

    def factory(self):
        sim, spec = self.sim, self

        def job(*x, energy):
            p = spec.key(*x)
            if p in spec.produced:
                sim.violation("produced-twice", f"point {p} is produced twice; {spec.text()}")
            spec.produced.append(p)
            if not same(energy, spec.energy):
                sim.violation("wrong-parameter", f"the energy of point {p} is {energy}; {spec.text()}")
            for _ in range(sim.draw(2)):
                sim.sched.point()
            if spec.fails("produce", p):
                raise Lost(f"produce {p}")
            if sim.flip(1, 6):
                print(f"<producing {p}>")
            return Deferred(sim, p, spec.expected[p].reshape(spec.shape).copy(), spec)

        energies = self.energy
        kw = dict(zip("abc", self.axes))
        opts = dict(num_threads=self.threads, queue_size=self.queue)
        if len(self.axes) == 1:
            def make(tag="x"):
                @parallel.parallelize(**opts, **kw)
                def produce(a, energy=energies):
                    return job(a, energy=energy)
                return produce
        elif len(self.axes) == 2:
            def make(tag="x"):
                @parallel.parallelize(**opts, **kw)
                def produce(a, b, energy=energies):
                    return job(a, b, energy=energy)
                return produce
        else:
            def make(tag="x"):
                @parallel.parallelize(**opts, **kw)
                def produce(a, b, c, energy=energies):
                    return job(a, b, c, energy=energy)
                return produce
        f = make(self.name)
        f.config.save_every = self.save_every
        f.config.pbar_fd = sim.terminal if sim.flip(3, 4) else None
        if not self.file:
            f.config.filename = ""
        self.filename = f.config.filename

        def first(deferred):
            spec.first.append(deferred.key)
        f.hooks.first.append(first)
        self.hook_status = sim.flip()
        if self.hook_status and not self.silent or self.kind == "list":
            self.hook_status = True
            f.hooks.status.append(self.on_status)
        else:
            self.hook_status = False
        if self.kind == "list" and self.silent:
            del f.hooks.status[0]
        return f

    def on_status(self, deferred, idx, count):
        sim = self.sim
        p = self.points[idx]
        if deferred.key != p:
            sim.violation("wrong-result", f"the status hook got the job of {deferred.key} as that of {p}; {self.text()}")
        if any(idx == i for i, _ in self.status):
            sim.violation("hook-repeated", f"the status hook got the job of {p} twice; {self.text()}")
        if count != len(self.status) + 1:
            sim.violation("hook-count", f"the status hook got count {count} for job number {len(self.status) + 1}; {self.text()}")
        if not np.array_equal(deferred.result.ravel(), self.expected[p]):
            sim.violation("wrong-result", f"the status hook got the wrong result of {p}; {self.text()}")
        self.status.append((idx, count))
        if self.fails("hook", p):
            raise Lost(f"hook {p}")

    def filled(self, r, what):
        """points of a possibly partial result: checks that they are right; the number filled in"""
        sim = self.sim
        n = 0
        if self.kind == "list":
            if type(r) is not list or len(r) != len(self.points):
                sim.violation("wrong-result", f"{what} is not a list of {len(self.points)} results: {r}; {self.text()}")
            rows = r
        else:
            cls = results.Sweep if self.kind == "sweep" else results.NDSweep
            if type(r) is not cls:
                sim.violation("wrong-result", f"{what} is a {type(r).__name__}; {self.text()}")
            shape = tuple(len(a) for a in self.axes) + (len(self.energy),)
            if r.data.shape != shape:
                sim.violation("wrong-result", f"{what} has data of shape {r.data.shape} instead of {shape}; {self.text()}")
            rows = r.data.reshape(len(self.points), len(self.energy))
            if self.kind == "sweep":
                wanted = results.Sweep(self.axes[0], self.energy, r.data, self.labels, self.tags)
            else:
                wanted = results.NDSweep(tuple(self.axes) + (self.energy,), r.data, self.labels, self.tags)
            if not same(wanted, r):
                sim.violation("wrong-result", f"{what} has other coordinates, labels or tags than the sweep: {r.__dict__}; {self.text()}")
        for p, row in zip(self.points, rows):
            if row is None or self.kind != "list" and not row.any():
                continue
            n += 1
            if not np.array_equal(np.ravel(row), self.expected[p]):
                sim.violation("wrong-result", f"{what} has {np.ravel(row)} at {p} instead of {self.expected[p]}; {self.text()}")
        return n

    def on_plot(self, k):
        def plot(r):
            n = self.filled(r, "the result given to a plot hook")
            self.plotted.append((k, n))
            if self.sim.flip(1, 8):
                self.sim.fault("plot_fails")
                raise RuntimeError("injected: plot")
            if self.kind != "list" and k == 0 and self.sim.flip(1, 4):
                r.data = r.data * 0 - 1            # a plot hook may change what it got
                r.labels = {}
        return plot

    def run(self, f):
        if self.kind == "list":
            f.hooks.plot += [self.on_plot(k) for k in range(self.plots)]
            if self.fail.get("make_result") is not None:
                at = [self.fail["make_result"]]

                def make_result(data):
                    at[0] -= 1
                    if at[0] < 0:
                        self.sim.fault("make_result_fails")
                        raise Lost("make_result")
                    return list(data)
                return parallel.parallel_for(f, make_result)
            return parallel.parallel_for(f) if self.sim.flip() else parallel.parallel_for(f, lambda data: list(data))
        plot = self.on_plot(0) if self.plots else None
        g = parallel.sweep if self.kind == "sweep" else parallel.ndsweep
        for k in range(1, self.plots):
            f.hooks.plot.append(self.on_plot(k))
        return g(f, plot=plot, labels=self.labels, tags=self.tags, silent=self.silent)

    def save_points(self):
        n = len(self.points)
        s = {int(n * p) for p in np.arange(0, 1, self.save_every / 100)} - {0}
        return len(s | {n})

    def check_done(self, r):
        sim = self.sim
        n = self.filled(r, "the result")
        if n != len(self.points):
            sim.violation("missing", f"{n} of {len(self.points)} points are in the result; {self.text()}")
        if sorted(self.produced) != sorted(self.points):
            sim.violation("missing", f"produced {self.produced}; {self.text()}")
        if len(self.first) != 1 or self.first[0] != self.points[0]:
            sim.violation("hook-first", f"the first hook was called for {self.first}; {self.text()}")
        if self.hook_status and len(self.status) != len(self.points):
            sim.violation("hook-missing", f"the status hook was called {len(self.status)} times for {len(self.points)} jobs; {self.text()}")
        if self.file:
            first = 1 if self.kind != "list" and self.plots > 1 else 0      # an error in a plot hook skips the ones after it
            for k in range(self.plots):
                c = [n for j, n in self.plotted if j == k]
                if k == first and not c:
                    sim.violation("hook-missing", f"no plot hook was called; {self.text()}")
                if c != sorted(c) or k == first and c[-1] != len(self.points):
                    sim.violation("hook-order", f"a plot hook got results with {c} of {len(self.points)} points; {self.text()}")

    def check_file(self, what, complete, least=0):
        sim = self.sim
        if not self.file:
            return
        path = self.filename + ".pbz"
        try:
            r = pb.load(self.filename)
        except FileNotFoundError as e:
            if complete or least:
                sim.violation("file-missing", f"{path} is missing {what}: {e}; {self.text()}")
            return
        except Exception as e:
            sim.violation("file-invalid", f"{path} can't be loaded {what}: {type(e).__name__}: {e}; {self.text()}")
        n = self.filled(r, f"{path} {what}")
        if n < least or complete and n != len(self.points):
            sim.violation("file-incomplete", f"{path} has {n} points {what}, expected {len(self.points) if complete else least}; {self.text()}")


def setup(sim):
    sim.terminal = simrt.Terminal(sim)
    sim.stdout = sim.stderr = sim.terminal
    sim.fs = simrt.FS(sim)
    sim.sched.rate = sim.pick([3, 6, 20, 60])
    cpp.parallel_for = parallel_for
    import sys
    for m in sys.modules.values():
        if getattr(m, "calls", None) is not None and getattr(m, "__name__", "") == "matplotlib.pyplot":
            m.__class__.fail_in = None
            m.__class__.calls.clear()


def in_thread(sim, *fs):
    """run as threads of the simulated process; their results or errors"""
    out = [[None, None] for _ in fs]

    def body(k):
        def g():
            try:
                out[k][0] = fs[k]()
            except (simrt.SimAbort, simrt.SimCrash, simrt.Violation):
                raise
            except BaseException as e:
                out[k][1] = e
        return g
    ts = [sim.sched.spawn(f"caller{k}", body(k)) for k in range(len(fs))]
    sim.sched.join(*ts)
    for t in ts:
        if t.error is not None:
            raise t.error
    for r, e in out:
        if isinstance(e, simrt.Violation):
            raise e
    return out


@scenario("C12", 6)
def orders(sim):
    """no faults: one sweep, or the same factory swept again"""
    setup(sim)
    spec = Spec(sim, "s")
    sim.log(spec.text())
    f = spec.factory()
    for again in range(1 + (sim.flip(1, 4) if spec.kind == "list" else 0)):
        if again:
            spec.produced, spec.first, spec.status, spec.plotted = [], [], [], []
            f.hooks.plot.clear()
        (r, e), = in_thread(sim, lambda: spec.run(f))
        if e is not None:
            sim.violation("sweep-fails", f"{type(e).__name__}: {e}; {spec.text()}")
        spec.check_done(r)
        spec.check_file("after the sweep", True)
    if spec.threads > 1 and len(spec.points) > 1:
        sim.nontrivial()


@scenario("C12", 2)
def several(sim):
    """sweeps in several threads of one program"""
    setup(sim)
    specs = [Spec(sim, f"s{k}") for k in range(2)]
    sim.log(" and ".join(s.text() for s in specs))
    fs = [s.factory() for s in specs]
    out = in_thread(sim, *[lambda s=s, f=f: s.run(f) for s, f in zip(specs, fs)])
    for s, (r, e) in zip(specs, out):
        if e is not None:
            sim.violation("sweep-fails", f"{type(e).__name__}: {e}; {s.text()}")
        s.check_done(r)
        s.check_file("after the sweep", True)
    sim.nontrivial()


@scenario("C12", 5)
def failing(sim):
    """a callback, the disk or the terminal fails"""
    setup(sim)
    spec = Spec(sim, "s")
    what = sim.pick(["produce", "compute", "hook", "make_result", "disk", "full", "terminal", "plt"])
    p = sim.pick(spec.points)
    fs, t = sim.fs, sim.terminal
    f = spec.factory()
    if what == "hook" and not spec.hook_status:
        what = "compute"
    if what == "make_result":
        if spec.kind == "list":
            spec.fail[what] = sim.draw(3)
        else:
            what = "produce"
    if what in ("produce", "compute", "hook"):
        spec.fail[what] = p
    elif what == "disk":
        fs.fail_errno, fs.fail_in, fs.fail_count = sim.pick([errno.EIO, errno.ENOSPC]), sim.draw(60), sim.pick([1, 1, 3, 10**6])
    elif what == "full":
        fs.space = sim.pick([0, 100, 500, 2000])
    elif what == "terminal" and (spec.file or f.config.pbar_fd):      # otherwise the program's own output fails
        t.error, t.fail_in, t.fail_count = (lambda: OSError(errno.EIO, "injected")), sim.draw(60), sim.pick([1, 3, 10**6])
    sim.log(f"{spec.text()}, {what} fails")
    (r, e), = in_thread(sim, lambda: spec.run(f))
    t.fail_in = None
    calm = fs.fired == 0 and not sim.faults["disk_full"]
    fs.calm()
    if e is None:
        spec.check_done(r)
        spec.check_file("after the sweep", calm)
        lost = {k: v for k, v in spec.fail.items() if sim.faults[k + "_fails"]}
        if lost:
            sim.violation("error-lost", f"the error of {lost} did not reach the caller; {spec.text()}")
    else:
        if isinstance(e, Lost):
            if not spec.fail:
                raise e
        elif not (isinstance(e, OSError) and not calm) :
            sim.violation("sweep-fails", f"{type(e).__name__}: {e} when {what} fails; {spec.text()}")
        spec.check_file(f"after the sweep failed ({what})", False)
    import sys
    if sys.stdout is not simrt.stdout or sys.stderr is not simrt.stderr:
        sim.violation("stream-not-restored", f"after the sweep; {spec.text()}")
    sim.nontrivial()


@scenario("C12", 4)
def crashing(sim):
    """the process or the machine goes down at any point; the saved file is what counts"""
    setup(sim)
    spec = Spec(sim, "s")
    spec.file = True
    f = spec.factory()
    power = sim.flip()
    sim.fs.crash_in = sim.draw(sim.pick([10, 60, 300]))
    sim.log(f"{spec.text()}, " + ("power fails" if power else "crash"))
    progress = []
    from pybinding.support import pickle
    real = pickle.save

    def save(obj, file):
        n = spec.filled(obj, "the saved result")
        real(obj, file)
        progress.append(n)
    pickle.save = save
    crashed = False
    try:
        (r, e), = in_thread(sim, lambda: spec.run(f))
    except simrt.SimCrash:
        crashed = True
    finally:
        pickle.save = real
    crashed = crashed or sim.fs.crashed
    if crashed:
        sim.fs.crashed = True
        sim.sched.finish()      # the threads of the dead process can't do anything any more
        sim.fs.restart(power)
        spec.check_file("after the " + ("power failure" if power else "crash"), False, least=progress[-1] if progress else 0)
        sim.nontrivial()
    else:
        if e is not None:
            raise e
        sim.fs.calm()
        spec.check_done(r)
        spec.check_file("after the sweep", True)
