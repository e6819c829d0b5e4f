"""C19: text exports of results under disk errors, full disks, short writes, crashes and interrupts"""
import copy, errno, math, re
import numpy as np
import pybinding as pb
from pybinding import results
import simrt
import objects
from objects import same
from . import scenario

NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")
SPECIAL = [0.0, -0.0, 1.0, -1.0, 9.999995, 1e-300, -2.5e300, 123456789.0, math.inf, -math.inf, math.nan, 0.1]


def values(sim, rng, shape):
    """an array of the given shape, in one of the forms in which results get their data"""
    a = numbers(sim, rng, shape)
    layout = sim.draw(6)
    if layout == 0:         # Fortran order
        return np.asfortranarray(a)
    if layout == 1:         # every second element of a larger array, or backwards
        big = np.repeat(a, 2, axis=-1)
        return big[..., ::2]
    if layout == 2:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return a


def numbers(sim, rng, shape):
    a = rng.normal(size=shape) * 10.0 ** rng.integers(-6, 7, shape)
    kind = sim.draw(4)
    if kind == 0:
        return rng.integers(-1000, 1000, shape)
    if kind == 1:
        return a.astype(np.float32)
    if kind == 2:
        flat = a.reshape(-1)
        for i in range(min(len(flat), 1 + sim.draw(5))):
            flat[sim.draw(len(flat))] = sim.pick(SPECIAL)
    return a


LABELS = [None, {"x": "$\\mu$", "y": "B (T)"}, {"data": "LDOS", "title": "t"}, {"x": "a much longer label than the column", "data": "$E_0$"}]


class Export:
    """one object and the file it goes to"""
    def __init__(self, sim, n):
        rng = np.random.default_rng(sim.draw(1 << 30))
        self.map = sim.flip(1, 3)
        big = sim.flip(1, 6)
        if self.map:
            k = 1 + sim.draw(12) if not big else 700
            s = objects.sites(sim, rng, k)
            data = values(sim, rng, k)
            self.obj = results.SpatialMap(data, s)
            self.rows = [(float(s.x[i]), float(s.y[i]), float(data[i])) for i in range(k)]
            self.labels = ["x(nm)", "y(nm)", "data"]
            self.name = sim.pick(["map", "out/map", "map.v2", "/simfs/map"])
            self.file = self.name + ".dat"
        else:
            nx, ny = 1 + sim.draw(5), 1 + sim.draw(4)
            if big:
                nx, ny = 30, 25
            x, y = values(sim, rng, nx), values(sim, rng, ny)
            data = values(sim, rng, (nx, ny))
            labels = sim.pick(LABELS)
            self.obj = results.Sweep(x, y, data, labels, {"n": n})
            if sim.flip(1, 4):          # a part of the result, whose arrays are views
                a, b = sim.draw(nx), sim.draw(ny)
                self.obj = self.obj[a:, b:]
                x, y, data = x[a:], y[b:], data[a:, b:]
            self.rows = [(float(x[i]), float(y[j]), float(data[i, j])) for i in range(len(x)) for j in range(len(y))]
            full = dict({"x": "x", "y": "y", "data": "data"}, **(labels or {}))
            self.labels = [full[k].replace("$", "").replace("\\", "") for k in ("x", "y", "data")]
            self.name = self.file = sim.pick(["sweep.txt", "out/sweep.dat", "sweep", "map.dat"])
        self.before = copy.deepcopy(self.obj)

    def save(self):
        return self.obj.save_txt(self.name)

    def check(self, sim, raw):
        """None or what is wrong with the contents of the file"""
        try:
            lines = raw.decode().split("\n")
        except UnicodeDecodeError:
            return "it can't be decoded"
        if lines.pop() != "":
            return "its last line has no end"
        if not lines or not lines[0].startswith("#"):
            return "it has no header"
        if any(l not in lines[0] for l in self.labels):
            return f"its header is {lines[0]!r}, the labels are {self.labels}"
        got = []
        for l in lines[1:]:
            if NUMBER.sub("", l).strip():
                return f"the line {l!r} isn't numbers"
            got.append(tuple(map(float, NUMBER.findall(l))))
        if len(got) != len(self.rows):
            return f"it has {len(got)} lines of {len(self.rows)}"
        def close(a, b):
            return a != a and b != b or a == b or abs(a - b) <= 5.1e-6 * abs(b)
        if all(len(g) == 3 and all(map(close, g, r)) for g, r in zip(got, self.rows)):
            return None
        rest = list(got)         # the order of the lines is free
        for r in self.rows:
            m = next((g for g in rest if len(g) == 3 and all(map(close, g, r))), None)
            if m is None:
                return f"there is no line for {r}"
            rest.remove(m)
        return None


def others(fs, file):
    return {p: bytes(i.data) for p, i in fs.names.items() if not i.is_dir and p != fs.path(file)}


def contents(fs, file):
    i = fs.names.get(fs.path(file))
    return None if i is None else bytes(i.data)


@scenario("C19", 5)
def exports(sim):
    fs = sim.fs = simrt.FS(sim)
    fs.mkdir("/simfs/out")
    fs.sync_names()
    current = {}         # file -> export which is there in full
    todo = [Export(sim, n) for n in range(1 + sim.draw(4))]
    for n in range(2 + sim.draw(8 if sim.thorough else 5)):
        e = sim.pick(todo)
        mode = sim.pick(["", "", "error", "error", "full", "short", "crash", "interrupt", "memory", "no directory", "directory"])
        if len(e.rows) > 100 and mode in ("interrupt", "memory"):
            mode = "error"
        file = e.name
        before = others(fs, e.file)
        interrupt = None
        fs.fired = 0
        if mode == "error":
            fs.fail_errno = sim.pick([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.EMFILE])
            fs.fail_in, fs.fail_count = sim.draw(4 if len(e.rows) > 100 else 3), sim.pick([1, 99])
        elif mode == "full":
            fs.space = sim.pick([0, 1, 10, 40, 41, 80, 200, 8192, 20000])
        elif mode == "short":
            fs.short = True
        elif mode == "crash":
            fs.crash_in = sim.draw(4)
        elif mode in ("interrupt", "memory"):
            interrupt = simrt.interrupted(sim, sim.draw(20 + 6 * len(e.rows)), calls=sim.flip(), error=KeyboardInterrupt if mode == "interrupt" else MemoryError)
        elif mode == "no directory":
            e.name = "missing/" + e.name.lstrip("/")
        elif mode == "directory":
            e.name, e.file, saved = "d", ("d.dat" if e.map else "d"), (e.name, e.file)
            if fs.path(e.file) not in fs.names:
                fs.mkdir("/simfs/" + e.file)
                fs.sync_names()
        error, crashed = None, False
        try:
            if interrupt:
                with interrupt:
                    e.save()
            else:
                e.save()
        except simrt.SimCrash:
            crashed = True
        except (Exception, KeyboardInterrupt) as err:
            error = err
            err.__traceback__ = None
        crashed = crashed or fs.crashed
        failed = (fs.fired > 0 if mode == "error" else fs.space <= 0 if mode == "full" else interrupt.fired if interrupt else mode in ("no directory", "directory"))
        e.name = file
        if mode == "directory":
            e.file = saved[1]
        sim.log(f"export of {len(e.rows)} rows to {e.file}" + (f" ({mode})" if mode else "") + (" crashed" if crashed else "") + (f" -> {type(error).__name__}" if error else ""))
        if crashed:
            fs.restart(False)
            current.pop(fs.path(e.file), None)
        else:
            fs.calm()
            if fs.fds:
                sim.violation("left-open", f"after an export the file {[f[3] for f in fs.fds.values()]} is still open")
            if error is not None:
                if not failed:
                    sim.violation("export-fails", f"the export of {type(e.obj).__name__} with {len(e.rows)} rows fails although nothing fails: {type(error).__name__}: {error}")
                if mode not in ("no directory", "directory"):
                    current.pop(fs.path(e.file), None)
            else:
                if failed and not (mode == "full" and e.check(sim, contents(fs, e.file) or b"") is None):
                    sim.violation("error-lost", f"an export to {e.file} during which something failed ({mode}) returned without an error")
                current[fs.path(e.file)] = e
        if mode:
            sim.nontrivial()
        if not same(e.obj, e.before):
            sim.violation("object-changed", "the export has changed the exported object")
        if mode not in ("no directory", "directory") and others(fs, e.file) != before:
            sim.violation("other-files", f"the export to {e.file} has changed other files: {sorted(set(others(fs, e.file)) ^ set(before))}")
        if crashed:
            continue
        verify(sim, fs, current)
        if error is not None and sim.flip():        # once more, without a fault
            e.save()
            sim.log("again")
            current[fs.path(e.file)] = e
            verify(sim, fs, current)
    if sim.flip():
        fs.restart(False)       # the program ends: what was exported is still there
        verify(sim, fs, current)


def verify(sim, fs, current):
    for file, e in current.items():
        raw = contents(fs, file)
        if raw is None:
            sim.violation("file-missing", f"{file} isn't there after its export")
        wrong = e.check(sim, raw)
        if wrong:
            sim.violation("wrong-contents", f"{file} after its export: {wrong}")


@scenario("C19", 2)
def threads(sim):
    """two threads of a program export results at the same time"""
    fs = sim.fs = simrt.FS(sim)
    fs.mkdir("/simfs/out")
    fs.sync_names()
    jobs = []
    for n in range(2 + sim.draw(2)):
        e = Export(sim, n)
        e.name = "t%d" % n
        e.file = e.name + (".dat" if e.map else "")
        jobs.append(e)
    if sim.flip(1, 3):           # the same object to two files
        jobs[1] = copy.copy(jobs[0])
        jobs[1].name, jobs[1].file = "t1", "t1" + (".dat" if jobs[0].map else "")
    fs.short = sim.flip()
    fail = sim.flip()
    if fail:
        fs.fail_errno, fs.fail_in, fs.fail_count = errno.EIO, sim.draw(6), 1
    fs.fired = 0
    errors = [None] * len(jobs)

    def run(k):
        try:
            jobs[k].save()
        except OSError as err:
            errors[k] = type(err).__name__
    sim.sched.start_tracing()
    ts = [sim.sched.spawn(f"export{k}", lambda k=k: run(k)) for k in range(len(jobs))]
    sim.sched.join(*ts)
    sim.sched.stop_tracing()
    for t in ts:
        if t.error is not None:
            raise t.error
    fs.calm()
    bad = [e for e in errors if e]
    sim.log(f"{len(jobs)} exports at once -> {errors}")
    if len(bad) != fs.fired:
        sim.violation("error-lost" if len(bad) < fs.fired else "export-fails", f"{fs.fired} failures while exporting, errors {errors}")
    for e, err in zip(jobs, errors):
        if err is None:
            verify(sim, fs, {fs.path(e.file): e})
        if not same(e.obj, e.before):
            sim.violation("object-changed", "the export has changed the exported object")
    if fs.fds:
        sim.violation("left-open", f"after the exports the file {[f[3] for f in fs.fds.values()]} is still open")
    sim.nontrivial()
