"""C09 and C16: solvers (lapack, arpack and those of the extension module) through any history of models,
wave vectors, failures and interrupts"""
import math
import numpy as np
import scipy.linalg, scipy.sparse, scipy.sparse.linalg
import pybinding as pb
import pybinding.solver
import simrt
from . import scenario

real_eigh, real_eigsh = scipy.linalg.eigh, scipy.sparse.linalg.eigsh


class Injected(Exception):
    pass


class Sublattices:
    def __init__(self, counts, orbitals):
        self.site_counts, self.orbital_counts = counts, orbitals

    def decompressed(self):
        return np.repeat(np.arange(len(self.site_counts)), self.site_counts).astype(np.int8)


class SystemImpl:
    """the extension module's System"""
    def __init__(self, model):
        rng = np.random.default_rng(model.seed)
        n = sum(model.counts)
        self.positions = pb.support.structure.Positions(*rng.random((3, n)).astype(np.float32))
        self.compressed_sublattices = Sublattices(model.counts, model.orbitals)
        self.site_registry = type("Registry", (), {"name_map": {"s%d" % i: i for i in range(len(model.counts))}})
        self.hopping_blocks, self.boundaries = None, []
        self.hamiltonian_size = sum(c * o for c, o in zip(model.counts, model.orbitals))
        starts = np.concatenate([[0], np.cumsum(np.repeat(model.orbitals, model.counts))])
        self.indices = [np.arange(a, b) for a, b in zip(starts[:-1], starts[1:])]

    def find_nearest(self, position, sublattice=""):
        p = np.zeros(3)
        p[:np.size(position)] = position
        d = np.linalg.norm(np.array(self.positions).T - p, axis=1)
        if sublattice:
            d = np.where(self.compressed_sublattices.decompressed() == self.site_registry.name_map[sublattice], d, np.inf)
        return int(np.argmin(d))

    def to_hamiltonian_indices(self, i):
        return self.indices[i]


class Model:
    """the extension module's Model: a Hamiltonian which depends on the wave vector"""
    lattice = None

    def __init__(self, sim, degenerate):
        self.sim = sim
        self.seed = sim.draw(1 << 30)
        nsub = 1 + sim.draw(2)
        self.counts = [1 + sim.draw(4 if not degenerate else 3) for _ in range(nsub)]
        if sum(self.counts) < 3:
            self.counts[0] += 2
        self.orbitals = [sim.pick([1, 1, 2, 3]) for _ in range(nsub)]
        self.dtype = sim.pick([np.float64, np.complex128, np.complex64, np.float32])
        self.dim = 1 + sim.draw(2)
        self.degenerate = degenerate
        self.k = np.zeros(self.dim)
        self.fails = None
        self.system_impl = SystemImpl(self)

    def matrix(self, k):
        rng = np.random.default_rng(self.seed)
        n = self.system_impl.hamiltonian_size
        if self.degenerate:
            n = (n + 1) // 2
        a = rng.random((n, n)) - 0.5
        if self.dtype in (np.complex128, np.complex64):
            a = a + 1j * rng.random((n, n))
        h = a + a.conj().T
        for d in range(self.dim):
            t = rng.random((n, n)) * 0.5
            if self.dtype in (np.complex128, np.complex64):
                t = t * np.exp(1j * k[d])
            else:
                t = t * math.cos(k[d])
            h = h + t + t.conj().T
        if self.degenerate:      # every state twice
            h = np.kron(h, np.eye(2))[:self.system_impl.hamiltonian_size, :self.system_impl.hamiltonian_size]
        return h.astype(self.dtype)

    @property
    def hamiltonian(self):
        self.fault("hamiltonian")
        return scipy.sparse.csr_matrix(self.matrix(self.k))

    def fault(self, what):
        if self.fails == what:
            self.fails = None
            self.sim.fault(what + "_fails")
            raise Injected(what)

    @property
    def system(self):
        self.fault("system")
        return pb.system.System(self.system_impl, None)

    def set_wave_vector(self, k):
        self.fault("wave_vector")
        k = np.atleast_1d(k).astype(float)
        if k.size != self.dim:
            raise RuntimeError("wave vector of the wrong size")
        self.k = k

    def text(self):
        return f"{'x'.join(f'{c}*{o}' for c, o in zip(self.counts, self.orbitals))} {np.dtype(self.dtype).name}{' degenerate' if self.degenerate else ''} k={self.k}"


class ModuleSolver:
    """a solver of the extension module (FEAST): its arrays are views of memory which it uses again"""
    def __init__(self, engine, model):
        self.engine, self._model = engine, model
        self.buffer = np.zeros(64)
        self.done = False
        self.n = 0

    model = property(lambda self: self._model)

    @model.setter
    def model(self, m):
        self.clear()
        self._model = m

    @property
    def system(self):
        return self._model.system.impl

    def clear(self):
        self.done = False
        self.buffer[:] = -77

    def solve(self):
        if not self.done:
            v, w = self.engine.solve(real_eigh, self._model.hamiltonian.toarray())
            i = v.argsort()
            self.n = len(v)
            self.buffer[:self.n] = v[i]
            self.vectors = w[:, i]
            self.done = True

    @property
    def eigenvalues(self):
        self.solve()
        return self.buffer[:self.n]

    @property
    def eigenvectors(self):
        self.solve()
        return self.vectors

    def report(self, shortform=False):
        return "done in 1.00s"

    def calc_dos(self, energies, broadening):
        return gaussian(self.eigenvalues, np.ones(len(self.eigenvalues)), energies, broadening)

    def calc_spatial_ldos(self, energy, broadening):
        return np.array([gaussian(self.eigenvalues, w, [energy], broadening)[0] for w in np.abs(self.eigenvectors)**2])


def gaussian(values, weights, energies, width):
    values, energies = np.asarray(values, float), np.asarray(energies, float)
    return np.array([sum(w * math.exp(-0.5 * ((v - e) / width)**2) for v, w in zip(values, weights)) for e in energies]) / (width * math.sqrt(2 * math.pi))


class Engine:
    """the eigensolver behind: real scipy, which may fail, take time and give its results in any order"""
    def __init__(self, sim):
        self.sim, self.calls, self.fail, self.time = sim, 0, None, 0.0
        self.rng = np.random.default_rng(sim.draw(1 << 30))

    def solve(self, real, *args, **kwargs):
        sim = self.sim
        self.calls += 1
        fail, self.fail = self.fail, None
        t = int(sim.pick([0, 1, 1000, 10**6, 10**9, 10**11, 10**14]) * (1 + sim.draw(99)) / 100)
        sim.advance(t)
        self.time = t / 1e9
        if fail == "before":
            sim.fault("eigensolver_fails")
            raise sim.pick([np.linalg.LinAlgError, MemoryError, Injected])("injected")
        v, w = real(*args, **kwargs)
        if fail == "after":
            sim.fault("eigensolver_fails")
            raise sim.pick([np.linalg.LinAlgError, MemoryError, KeyboardInterrupt])("injected")
        if sim.flip():
            p = self.rng.permutation(len(v))
            v, w = v[p], w[:, p]
        if sim.flip(1, 3):
            sim.jump(sim.pick([-10**9, -10**15, 10**9, 10**15, -t]))
        return v, w


class Trial:
    def __init__(self, sim):
        self.sim = sim
        self.engine = Engine(sim)
        self.kind = sim.pick(["lapack", "lapack", "arpack", "module", "range"])
        self.degenerate = self.kind != "arpack" and sim.flip(1, 3)
        scipy.linalg.eigh = lambda *a, **k: self.engine.solve(real_eigh, *a, **k)
        scipy.sparse.linalg.eigsh = lambda *a, **k: self.engine.solve(real_eigsh, *a, **k)
        self.model = Model(sim, self.degenerate)
        if self.kind == "lapack":
            self.solver = pb.solver.lapack(self.model)
        elif self.kind == "range":          # part of the spectrum, possibly nothing
            self.range = sim.pick([(-0.5, 0.5), (0, 1.0), (-100, 100), (100, 101)])
            self.solver = pb.solver.lapack(self.model, subset_by_value=self.range)
        elif self.kind == "arpack":
            self.nvals, self.sigma = 1 + sim.draw(min(2, self.model.system_impl.hamiltonian_size - 2)), sim.pick([0, 0, 0.3])
            self.solver = pb.solver.arpack(self.model, k=self.nvals, sigma=self.sigma, v0=np.ones(self.model.system_impl.hamiltonian_size))
        else:
            self.solver = pb.solver.Solver(ModuleSolver(self.engine, self.model))
        self.models = [self.model]
        self.calls = self.engine.calls
        self.fresh = True               # the next access has to run the eigensolver
        self.kept = []                  # results which were handed out
        sim.log(f"{self.kind} {self.model.text()}")

    def violation(self, kind, text):
        self.sim.violation(kind, text + f" ({self.kind} of {self.model.text()})")

    def tol(self):
        return 2e-3 if self.model.dtype in (np.complex64, np.float32) else 1e-7

    def reference(self):
        m = self.model
        v, w = real_eigh(m.matrix(m.k).astype(np.complex128))
        if self.kind == "range":
            keep = (v > self.range[0]) & (v <= self.range[1])
            v = v[keep]
        elif self.kind == "arpack":
            v = np.sort(v[np.argsort(np.abs(v - self.sigma))[:self.nvals]])
        return v

    def pairs(self):
        """checked eigenvalues and eigenvectors of the present model"""
        vals = np.array(self.solver.eigenvalues)
        vecs = np.array(self.solver.eigenvectors)
        n = self.model.system_impl.hamiltonian_size
        ref = self.reference()
        if self.kind == "range" and np.any(np.min(np.abs(real_eigh(self.model.matrix(self.model.k).astype(np.complex128))[0][:, None] - np.array(self.range)), axis=0) < 1e-4):
            ref = vals      # an eigenvalue at the edge of the range
        if vals.shape != ref.shape or np.max(np.abs(vals - ref), initial=0) > self.tol():
            self.violation("wrong-eigenvalues", f"the eigenvalues are {vals} instead of {ref}")
        if vecs.shape != (n, len(vals)):
            self.violation("wrong-eigenvectors", f"the eigenvectors have the shape {vecs.shape} for {len(vals)} eigenvalues of a matrix of size {n}")
        h = self.model.matrix(self.model.k).astype(np.complex128)
        if np.max(np.abs(h @ vecs - vecs * vals), initial=0) > self.tol() * 10:
            self.violation("wrong-eigenvectors", f"H v = E v does not hold for the eigenvalues {vals}")
        if np.max(np.abs(vecs.conj().T @ vecs - np.eye(len(vals))), initial=0) > self.tol() * 10:
            self.violation("wrong-eigenvectors", "the eigenvectors are not orthonormal")
        return vals, vecs

    def compare(self, what, got, expected):
        got = np.asarray(got)
        expected = np.asarray(expected)
        if got.shape != expected.shape or not np.allclose(got, expected, rtol=5e-3 if self.tol() > 1e-4 else 1e-5, atol=5e-3 if self.tol() > 1e-4 else 1e-7):
            self.violation("wrong-" + what, f"{what} is {got} instead of {expected}")

    def request(self, what):
        """calls the program makes; returns a function which checks the answer"""
        sim, s, m = self.sim, self.solver, self.model
        if what == "values":
            r = s.eigenvalues
            return lambda vals, vecs: self.compare(what, r, vals)
        if what == "vectors":
            r = s.eigenvectors
            return lambda vals, vecs: self.compare(what, r, vecs)
        if what == "solve":
            s.solve()
            return lambda vals, vecs: None
        width = sim.pick([0.3, 1.0])
        energies = np.linspace(-2, 2, sim.pick([2, 3, 7]))
        if sim.flip(1, 4):
            energies = list(energies)
        pos = [sim.draw(5) / 4 for _ in range(1 + sim.draw(3))]
        position = sim.pick([pos, tuple(pos), np.array(pos)])
        site = m.system_impl.find_nearest(pos)
        if what == "dos":
            r = s.calc_dos(energies, width)
            return lambda vals, vecs: self.compare(what, r.data, gaussian(vals, np.ones(len(vals)), energies, width))
        if what == "ldos":
            sub = sim.pick(["", "s0"])
            site = m.system_impl.find_nearest(pos, sub)
            reduce = sim.flip(2, 3)
            if self.kind == "module":
                reduce = True
            r = s.calc_ldos(energies, width, position, sub, reduce)

            def check_ldos(vals, vecs):
                cols = np.array([gaussian(vals, np.abs(vecs[i])**2, energies, width) for i in m.system_impl.indices[site]]).T
                self.compare(what, r.data, (cols.sum(axis=1) if reduce else cols).squeeze())
            return check_ldos
        if what == "spatial":
            r = s.calc_spatial_ldos(0.2, width)
            return lambda vals, vecs: self.compare(what, r.data, [sum(gaussian(vals, np.abs(vecs[i])**2, [0.2], width)[0] for i in ix) for ix in m.system_impl.indices])
        if what == "probability":
            if not len(s.eigenvalues):
                return lambda vals, vecs: None
            n = sim.draw(len(s.eigenvalues))
            r = s.calc_probability(n)

            def check_probability(vals, vecs):
                same = [j for j in range(len(vals)) if abs(vals[j] - vals[n]) < 1e-5]
                if self.tol() > 1e-4 and self.degenerate:      # whether states are degenerate is not clear in single precision
                    return
                self.compare(what, r.data, [sum((np.abs(vecs[i][:, same])**2).sum() for i in [ix]) for ix in m.system_impl.indices])
            return check_probability
        if what == "map":
            r = s.calc_eigenvalues(map_probability_at=position)

            def check_map(vals, vecs):
                self.compare("map of eigenvalues", r.values, vals)
                if self.tol() > 1e-4 and self.degenerate:
                    return
                p = (np.abs(vecs[m.system_impl.indices[site]])**2).sum(axis=0)
                groups, g = [], 0
                for j in range(len(vals)):
                    if j and vals[j] - vals[j - 1] >= 1e-5:
                        g += 1
                    groups.append(g)
                groups = np.array(groups)
                self.compare(what, r.probability, [p[groups == x].mean() for x in groups])
            return check_map
        if what == "plain":
            r = s.calc_eigenvalues()
            return lambda vals, vecs: self.compare(what, r.values, vals)
        raise AssertionError(what)

    def keep(self, a):
        if self.kind != "module":
            self.kept.append((a, np.array(a)))


REQUESTS = ["values", "vectors", "solve", "dos", "ldos", "spatial", "probability", "map", "plain"]


def calc_bands(t, with_fault):
    sim, m = t.sim, t.model
    ks = [[sim.draw(7) * 0.5 for _ in range(m.dim)] for _ in range(2 + sim.draw(2))]
    args = [k[0] if m.dim == 1 and sim.flip() else k for k in ks]
    r = t.solver.calc_bands(*args, step=sim.pick([0.3, 1.0]))
    t.fresh = True          # where it stands now is the last point
    path = np.asarray(r.k_path)
    if not np.allclose(m.k, path[-1]):
        t.violation("wrong-model", f"the wave vector after calc_bands is {m.k} instead of {path[-1]}")
    for k, row in zip(path, r.energy):
        ref = np.sort(real_eigh(m.matrix(k).astype(np.complex128))[0])
        if t.kind == "arpack":
            ref = np.sort(ref[np.argsort(np.abs(ref - t.sigma))[:t.nvals]])
        t.compare("bands", row, ref)
    t.calls = t.engine.calls - 1
    t.fresh = True


@scenario("C09", 1)
def history(sim):
    t = Trial(sim)
    try:
        run(t)
    finally:
        scipy.linalg.eigh, scipy.sparse.linalg.eigsh = real_eigh, real_eigsh


def run(t):
    sim = t.sim
    s = t.solver
    for _ in range(2 + sim.draw(12 if sim.thorough else 8)):
        what = sim.draw(12)
        if what < 8:
            req = sim.pick(REQUESTS)
            fault = sim.pick(["", "", "before", "after", "interrupt", "interrupt", "memory", "hamiltonian", "system"])
            t.engine.fail = fault if fault in ("before", "after") else None
            t.model.fails = fault if fault in ("hamiltonian", "system") else None
            nf = sum(sim.faults.values())
            error, check = None, None
            try:
                if fault in ("interrupt", "memory"):
                    with simrt.interrupted(sim, sim.draw(40), calls=sim.flip(), error=KeyboardInterrupt if fault == "interrupt" else MemoryError):
                        check = t.request(req)
                else:
                    check = t.request(req)
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, simrt.Violation):
                    raise
                error = e
            hit = sum(v for k, v in sim.faults.items() if k != "clock_jump") 
            sim.log(f"{req}" + (f" ({fault})" if fault else "") + (f" -> {type(error).__name__}" if error else ""))
            if error is not None and not fault:
                raise error
            if error is not None and fault and t.engine.fail is None and t.model.fails is None:
                sim.nontrivial()
                if fault in ("before", "after", "hamiltonian"):
                    t.calls = t.engine.calls
                    t.fresh = True
            if error is not None and fault in ("before", "after", "hamiltonian", "system") and (t.engine.fail or t.model.fails):
                raise error
            t.engine.fail = t.model.fails = None
            if fault and error is not None and fault in ("interrupt", "memory", "system"):
                # the eigensolver may have run or not; at most one more run is needed
                before = t.engine.calls
                pairs = t.pairs()
                if t.engine.calls > before + 1:
                    t.violation("solved-again", f"{t.engine.calls - before} runs of the eigensolver for one access after a failure")
                t.calls, t.fresh = t.engine.calls, False
            else:
                pairs = t.pairs()
                runs = t.engine.calls - t.calls
                if runs > (1 if t.fresh else 0):
                    t.violation("solved-again", f"the eigensolver ran {runs} times where {1 if t.fresh else 0} are needed")
                if runs == 0 and t.fresh:
                    t.violation("stale", "the eigensolver did not run although the model or wave vector is new")
                t.calls, t.fresh = t.engine.calls, False
            if check is not None and error is None:
                check(*pairs)
                if req == "values":
                    t.keep(t.solver.eigenvalues)
                elif req == "vectors":
                    t.keep(t.solver.eigenvectors)
        elif what == 8:
            s.clear()
            t.fresh = True
            sim.log("clear")
        elif what == 9:
            how = sim.draw(4)
            if how == 0:                # the same object, which was changed in the meantime
                m = t.model
                m.seed = sim.draw(1 << 30)
                if sim.flip(1, 3):
                    m.k = np.array([sim.draw(7) * 0.5 for _ in range(m.dim)])
            elif how == 1:              # one of the models before, as it is now
                m = sim.pick(t.models)
            else:
                m = Model(sim, t.degenerate)
                if t.kind == "arpack":      # the start vector fits this size only
                    m.counts, m.orbitals, m.system_impl = t.model.counts, t.model.orbitals, t.model.system_impl
                t.models.append(m)
            s.model = m
            t.model, t.fresh = m, True
            sim.log(f"model {m.text()}")
        elif what == 10:
            k = [sim.draw(7) * 0.5 for _ in range(t.model.dim)]
            fault = sim.pick(["", "", "wave_vector", "size"])
            t.model.fails = fault if fault == "wave_vector" else None
            old = t.model.k
            try:
                s.set_wave_vector(k + [1.0] if fault == "size" else k)
                if fault:
                    t.violation("error-lost", "a wave vector which is rejected")
            except (Injected, RuntimeError) as e:
                if not fault:
                    raise
                sim.nontrivial()
                if not np.array_equal(t.model.k, old):
                    t.violation("wrong-model", "a rejected wave vector changed the model")
                if t.fresh is False:
                    t.fresh = None      # it may solve again
            if not fault:
                t.fresh = True
            sim.log(f"k = {k}" + (f" ({fault})" if fault else ""))
            if t.fresh is None:
                t.pairs()
                t.calls, t.fresh = t.engine.calls, False
        elif t.kind != "range":
            fault = sim.pick(["", "", "before", "interrupt"])
            t.engine.fail = fault if fault == "before" else None
            sim.log("bands" + (f" ({fault})" if fault else ""))
            try:
                if fault == "interrupt":
                    with simrt.interrupted(sim, sim.draw(100), error=sim.pick([KeyboardInterrupt, MemoryError])):
                        calc_bands(t, fault)
                else:
                    calc_bands(t, fault)
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, simrt.Violation) or not fault:
                    raise
                sim.nontrivial()
            t.engine.fail = None
            t.pairs()
            t.calls, t.fresh = t.engine.calls, False
    for a, copy in t.kept:
        if not np.array_equal(a, copy):
            t.violation("result-changed", f"an array of eigenvalues or eigenvectors which was handed out changed from {copy} to {a}")
    sim.nontrivial()


def shown(sim, text, what):
    """the seconds which a printed duration stands for, and the size of its last digit"""
    import re
    m = re.fullmatch(r"(\d+)(\.\d+)?(ms|s)", text)
    if m:
        unit = 1e-3 if m[3] == "ms" else 1
        return float(m[1] + (m[2] or "")) * unit, unit * 10.0 ** -max(len(m[2] or "") - 1, 0)
    m = re.fullmatch(r"(?:(\d+):)?(\d+):(\d\d)", text)
    if m and int(m[3]) < 60 and (m[1] is None or len(m[2]) == 2 and int(m[2]) < 60):
        if m[1] is None and int(m[2]) >= 60:
            sim.violation("bad-duration", f"{what} is printed as '{text}'")
        return (int(m[1] or 0) * 60 + int(m[2])) * 60 + int(m[3]), 1
    sim.violation("bad-duration", f"{what} is printed as '{text}'")


def check_duration(sim, text, true, what, slack=1e-9):
    """`text` stands for `true` seconds to the precision shown"""
    value, digit = shown(sim, text, f"{what} of {true} s")
    if abs(value - true) > digit * 1.000001 + slack + true * 1e-12:
        sim.violation("wrong-duration", f"{what} of {true} s is printed as '{text}'")
    if true > 2e-3 and digit > 0.11 * true:
        sim.violation("bad-duration", f"{what} of {true} s is printed as '{text}', which is not precise enough")


def pass_time(sim):
    """some time passes, and the wall clock may be set"""
    scale = sim.pick([0, 1, 10**3, 10**5, 10**6, 10**7, 10**8, 10**9, 10**10, 6 * 10**10, 36 * 10**11, 10**14])
    t = scale * (1 + sim.draw(999)) // 500
    if sim.flip(1, 4):
        t = sim.pick([60 * 10**9, 3600 * 10**9, 10**9, 10**7, 10**6, 10**10, 2 * 10**10, 10**8, 7200 * 10**9, 86400 * 10**9]) + sim.draw(3) - 1
    if sim.flip(1, 3):
        sim.jump(sim.pick([-1, 1]) * sim.pick([t, 1, 10**6, 10**9, 3600 * 10**9, 10**15]))
        sim.nontrivial()
    sim.advance(t)
    return t / 1e9


@scenario("C16", 3)
def timers(sim):
    """tic, toc and timed, nested in any way"""
    from pybinding.utils import time as timing
    sim.stdout = simrt.Terminal(sim)
    clock, open_ = 0.0, []
    timing._tic_times.clear()
    lines = 0
    names = ["", "a", "the sum", "ünï"]

    def output():
        nonlocal lines
        new = sim.stdout.screen()[lines:-1]
        lines += len(new)
        return new

    def check_line(message, true, what):
        new = output()
        if len(new) != 1:
            sim.violation("output", f"{what} printed {new}")
        line = new[0]
        if message:
            if not line.startswith(message + " "):
                sim.violation("output", f"{what} printed '{line}'")
            line = line[len(message) + 1:]
        check_duration(sim, line, true, what)

    def block(depth):
        nonlocal clock
        for _ in range(1 + sim.draw(4)):
            what = sim.draw(6)
            clock += pass_time(sim)
            if what < 2:
                timing.tic()
                open_.append(clock)
                sim.log("tic")
            elif what < 4 and open_:
                message = sim.pick(names)
                timing.toc(message)
                check_line(message, clock - open_.pop(), "toc")
                sim.log("toc")
            elif what == 4 and depth < 3:
                message, start = sim.pick(names), clock
                error = sim.flip(1, 4)
                depth_open = len(open_)
                try:
                    with timing.timed(message) as t:
                        block(depth + 1)
                        if error:
                            sim.fault("block_fails")
                            raise Injected("block")
                    if error:
                        sim.violation("error-lost", "an error in a timed block")
                except Injected:
                    pass
                if message:
                    check_line(message, clock - start, "timed")
                elif output():
                    sim.violation("output", "a timed block without a message printed something")
                if not -1e-9 <= t.elapsed - (clock - start) <= 1e-6:
                    sim.violation("wrong-duration", f"a timed block of {clock - start} s has elapsed = {t.elapsed}")
                check_duration(sim, str(t), clock - start, "timed")
                sim.log("timed")
                sim.nontrivial()
    block(0)
    while open_:
        clock += pass_time(sim)
        timing.toc()
        check_line("", clock - open_.pop(), "toc")
    try:
        timing.toc()
        sim.violation("error-lost", "toc without a tic")
    except RuntimeError:
        pass


@scenario("C16", 2)
def solver_report(sim):
    """the time in the report of a solver is the one the eigensolver took"""
    t = Trial(sim)
    try:
        if t.kind == "module":
            return
        last = 0.0
        for _ in range(1 + sim.draw(6)):
            what = sim.draw(5)
            pass_time(sim)
            if what == 0:
                t.solver.clear()
                t.fresh, last = True, 0.0
            elif what == 1:
                t.engine.fail = sim.pick(["before", "after"])
                begin = sim.mono
                try:
                    t.solver.solve()
                    if t.engine.fail is None:
                        sim.violation("error-lost", "a failing eigensolver")
                except (Exception, KeyboardInterrupt) as e:
                    if isinstance(e, simrt.Violation) or t.engine.fail:
                        raise
                    last = None
                t.engine.fail = None
                text = t.solver.report()
                value, _ = shown(sim, text.split()[-1], "the report of a failed solve")
                if value > (sim.mono - sim.start_mono) / 1e9 + 1:
                    sim.violation("wrong-duration", f"the report after a failed solve is '{text}' after {(sim.mono - sim.start_mono) / 1e9} s")
            else:
                n = t.engine.calls
                t.solver.solve()
                if t.engine.calls > n:
                    last = t.engine.time
                text = t.solver.report(sim.flip())
                if not text.startswith("Converged in "):
                    sim.violation("output", f"the report is '{text}'")
                if last is not None:
                    check_duration(sim, text.split()[-1], last, "solving")
            sim.log(f"{what}")
        sim.nontrivial()
    finally:
        scipy.linalg.eigh, scipy.sparse.linalg.eigsh = real_eigh, real_eigsh


@scenario("C16", 1)
def durations(sim):
    """every duration, from microseconds to days"""
    from pybinding.utils.time import pretty_duration
    for _ in range(10):
        t = sim.pick([1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1, 10, 20, 60, 600, 3600, 36000, 86400, 8.64e6])
        t *= sim.pick([1 - 1e-3, 1 - 1e-9, 1, 1 + 1e-9, 1.001, 1 + sim.draw(1000) / 1000, (1 + sim.draw(1000)) / 1000, 0.995, 0.999])
        if sim.flip(1, 4):
            t = sim.draw(200000) - sim.pick([0, 1e-9, 0.4, 0.5, 0.6])
        check_duration(sim, pretty_duration(max(t, 0)), max(t, 0), "a duration")
    sim.nontrivial()
