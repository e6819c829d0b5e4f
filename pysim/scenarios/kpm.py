"""C05 and C07: the Python side of KPM calculations -- which site and which model a result belongs to"""
import warnings
import numpy as np
import scipy.sparse
import pybinding as pb
from pybinding import chebyshev
from pybinding.support.structure import Hoppings, Positions
import simrt
from . import scenario
from .solver import SystemImpl as PlainSystem


class Injected(Exception):
    pass


class SystemImpl(PlainSystem):
    def __init__(self, model):
        super().__init__(model)
        n = len(self.positions.x)
        self.hopping_blocks = Hoppings(scipy.sparse.csr_matrix(np.eye(n, k=1, dtype=np.int8)))


class Model:
    """the extension module's Model, as far as a KPM object shows it"""
    def __init__(self, sim, tag):
        self.seed, self.tag = sim.draw(1 << 30), tag
        nsub = 1 + sim.draw(3)
        self.counts = [1 + sim.draw(6) for _ in range(nsub)]
        self.orbitals = [sim.pick([1, 2, 3]) for _ in range(nsub)] if sim.flip(1, 3) else [1] * nsub
        self.lattice = "lattice %d" % tag
        self.system_impl = SystemImpl(self)


class Shape:
    """box in space"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def contains(self, x, y, z):
        p = np.stack([x, y, z])
        return np.all((p >= self.lo[:, None]) & (p <= self.hi[:, None]), axis=0)


def curve(model, i, energy, broadening):
    """the density of orbital i: different for all models, orbitals, energies"""
    return np.asarray(energy, float) * broadening + 1000 * i + 1e5 * model.tag


class Impl:
    """the extension module's KPM: contract of cppcore/src/KPM.cpp (checked by C05 and C07 on the real code)"""
    def __init__(self, sim, model, **options):
        self.sim, self._model, self.options = sim, model, options
        self.fail = False

    model = property(lambda self: self._model)

    @model.setter
    def model(self, m):
        self.check()
        self._model = m

    @property
    def system(self):
        return self._model.system_impl

    @property
    def scaling_factors(self):
        return (1.5, float(self._model.tag))

    @property
    def kernel(self):
        return ("kernel", self._model.tag)

    def report(self, short):
        return f"report {self._model.tag} {short}"

    def check(self):
        if self.fail:
            self.fail = False
            self.sim.fault("calculation_fails")
            raise Injected("injected")

    def moments(self, n, alpha, beta, op):
        self.check()
        beta = alpha if len(beta) == 0 else beta
        op = scipy.sparse.identity(len(alpha)) if op.shape == (1, 0) or op.nnz == 0 and op.shape != (len(alpha),) * 2 else op
        return np.array([(k + 1) * np.dot(np.conj(beta), op @ alpha) for k in range(n)]) + self._model.tag

    def calc_greens(self, i, j, energy, broadening):
        self.check()
        return curve(self._model, i, energy, broadening) + 1j * curve(self._model, j, energy, broadening)

    def calc_ldos(self, energy, broadening, position, sublattice, reduce):
        self.check()
        s = self.system
        i = s.find_nearest(position, sublattice)
        cols = np.stack([curve(self._model, k, energy, broadening) for k in s.indices[i]], axis=1)
        return cols.sum(axis=1, keepdims=True) if reduce else cols

    def calc_spatial_ldos(self, energy, broadening, shape, sublattice):
        self.check()
        s = self.system
        if any(o > 1 for o in self._model.orbitals):
            raise RuntimeError("This function doesn't currently support multi-orbital models")
        inside = shape.contains(*s.positions)
        ids = s.compressed_sublattices.decompressed()
        if sublattice:
            inside = inside & (ids == s.site_registry.name_map[sublattice])
        return np.stack([curve(self._model, i, energy, broadening) for i in np.flatnonzero(inside)], axis=1) if inside.any() else np.zeros((len(energy), 0))

    def calc_dos(self, energy, broadening, num_random):
        self.check()
        return curve(self._model, num_random, energy, broadening)

    def deferred_ldos(self, energy, broadening, position, sublattice):
        return ("deferred", self._model.tag, tuple(energy), broadening, tuple(np.ravel(position)), sublattice)

    def calc_conductivity(self, mu, broadening, temperature, direction, num_random, num_points):
        self.check()
        return curve(self._model, num_random, mu, broadening) * temperature + num_points + len(direction) + ord(direction[0])


def equal(sim, what, got, expected, text):
    got, expected = np.squeeze(got), np.squeeze(expected)
    if got.shape != expected.shape or not np.allclose(got, expected, rtol=1e-12, atol=0):
        sim.violation("wrong-" + what, f"{what} is {got} instead of {expected}; {text}")


def make(sim, model):
    cpp = chebyshev._cpp
    made = []

    def kpm(model, energy_range, **options):
        made.append((energy_range, options))
        return Impl(sim, model, **options)
    cpp.kpm = kpm
    energy_range = sim.pick([None, (-3, 3)])
    silent = sim.flip()
    kw = {}
    if sim.flip():
        kw["num_threads"] = 3
    if sim.flip():
        kw["kernel"] = "a kernel"
    own = sim.flip()
    if own:
        kw["progress_callback"] = "own"
    k = chebyshev.kpm(model, energy_range, silent=silent, **kw)
    (used, options), = made
    callback = options.pop("progress_callback", None)
    kw.pop("progress_callback", None)
    if used != (energy_range or (0, 0)) or options != kw:
        sim.violation("options", f"the options {energy_range} {kw} arrive as {used} {options}")
    if silent and callback is not None or not silent and (callback != "own" if own else not callable(callback)):
        sim.violation("options", f"the progress callback is {callback!r} for silent={silent}" + (" with a callback of the user" if own else ""))
    return k


REQUESTS = ["dos", "ldos", "spatial", "spatial", "spatial", "greens", "deferred", "conductivity", "moments", "properties"]


def request(sim, k, what, kept):
    m = k.impl._model
    s = m.system_impl
    text = f"model {m.tag} with {m.counts} sites of {m.orbitals} orbitals"
    energy = np.linspace(-1, 1, sim.pick([1, 2, 5]))
    width = sim.pick([0.1, 0.25])
    pos = [sim.draw(9) / 8 for _ in range(1 + sim.draw(3))]
    sub = "s%d" % sim.draw(len(m.counts)) if sim.flip() else ""
    if what == "dos":
        n = 1 + sim.draw(4)
        r = k.calc_dos(energy, width, n) if n > 1 else k.calc_dos(energy, width)
        equal(sim, what, r.data, curve(m, n, energy, width), text)
        equal(sim, "energy", r.variable, energy, text)
    elif what == "ldos":
        reduce = sim.flip()
        r = k.calc_ldos(energy, width, pos, sub, reduce)
        i = s.find_nearest(pos, sub)
        cols = np.stack([curve(m, x, energy, width) for x in s.indices[i]], axis=1)
        equal(sim, what, r.data, (cols.sum(axis=1) if reduce else cols).squeeze(), text)
        equal(sim, "energy", r.variable, energy, text)
    elif what == "spatial":
        if any(o > 1 for o in m.orbitals):
            return
        lo, hi = np.array([0, 0, 0.0]), np.ones(3)
        for d in range(3):
            if sim.flip(1, 3):
                hi[d] = 0.4 + sim.draw(5) / 10
        shape = Shape(lo, hi)
        inside = shape.contains(*s.positions)
        ids = s.compressed_sublattices.decompressed()
        if sub:
            inside = inside & (ids == s.site_registry.name_map[sub])
        idx = np.flatnonzero(inside)
        r = k.calc_spatial_ldos(energy, width, shape, sub)
        xyz = np.stack(s.positions, axis=1)[idx]
        if not np.array_equal(np.stack(r.structure.positions, axis=1), xyz):
            sim.violation("wrong-sites", f"the spatial density belongs to the sites {np.stack(r.structure.positions, axis=1)} instead of {xyz}; {text}")
        if not np.array_equal(np.asarray(r.structure.sub), ids[idx]):
            sim.violation("wrong-sites", f"the sublattices of the spatial density are {r.structure.sub} instead of {ids[idx]}; {text}")
        if not len(idx):
            return
        e = energy[sim.draw(len(energy))]
        sm = r.structure_map(e + sim.pick([0, 0.01, -0.01]))
        equal(sim, "structure map", sm.data, [curve(m, i, [e], width)[0] for i in idx], text)
        if not np.array_equal(np.stack(sm.positions, axis=1), xyz):
            sim.violation("wrong-sites", f"the map of the spatial density belongs to the sites {sm.positions}; {text}")
        one = sim.pick(list(range(len(m.counts)))) if not sub and sim.flip() else None
        among = [i for i in idx if one is None or ids[i] == one]
        if among:
            near = r.ldos(pos, "" if one is None else "s%d" % one)
            d = [np.linalg.norm(np.array([p[i] for p in s.positions])[:len(pos)] - pos) for i in among]
            if len(pos) == 3 or min(np.diff(np.sort(d)), default=1) > 1e-6:
                equal(sim, "density at a site", near.data, curve(m, among[int(np.argmin(d))], energy, width), text)
        a = sm.data
        kept.append((a, np.array(a)))
    elif what == "greens":
        i, j = sim.draw(5), sim.draw(5)
        r = k.calc_greens(i, j, energy, width) if sim.flip(2, 3) else k(i, j, energy, width)
        equal(sim, what, r, curve(m, i, energy, width) + 1j * curve(m, j, energy, width), text)
    elif what == "deferred":
        r = k.deferred_ldos(energy, width, pos, sub) if sub else k.deferred_ldos(energy, width, pos)
        if r != ("deferred", m.tag, tuple(energy), width, tuple(np.ravel(pos)), sub):
            sim.violation("wrong-deferred", f"{r}; {text}")
    elif what == "conductivity":
        volume = sim.pick([1.0, 2.0, 0.5])
        mu = energy
        kw = sim.pick([{}, {"num_random": 2}, {"num_points": 10, "direction": "yx"}])
        r = k.calc_conductivity(mu, width, 300, volume=volume, **kw)
        direction = kw.get("direction", "xx")
        equal(sim, what, r.data, (curve(m, kw.get("num_random", 1), mu, width) * 300 + kw.get("num_points", 1000) + 2 + ord(direction[0])) / volume, text)
        equal(sim, "potential", r.variable, mu, text)
    elif what == "moments":
        n = 3
        alpha = np.arange(1.0, 5) + 1j
        beta = None if sim.flip() else np.arange(4.0) * 1j
        op = None if sim.flip() else sim.pick([scipy.sparse.csr_matrix, scipy.sparse.coo_matrix])(np.diag([1.0, 2, 0, 1]))
        r = k.moments(n, alpha, beta, op)
        full = np.eye(4) if op is None else op.toarray()
        equal(sim, what, r, np.array([(i + 1) * np.dot(np.conj(alpha if beta is None else beta), full @ alpha) for i in range(n)]) + m.tag, text)
    else:
        if k.model is not m or k.system.impl is not s or k.system.lattice != m.lattice or k.scaling_factors != (1.5, float(m.tag)) or k.kernel != ("kernel", m.tag):
            sim.violation("wrong-model", f"the properties are not those of the {text}")
        if k.report() != f"report {m.tag} False" or k.report(shortform=True) != f"report {m.tag} True":
            sim.violation("wrong-model", f"the report is {k.report()}; {text}")


def history(sim):
    warnings.simplefilter("ignore")
    sim.stdout = sim.stderr = simrt.Terminal(sim)
    models = [Model(sim, t) for t in range(1, 4)]
    current = models[0]
    k = make(sim, current)
    kept = []
    done = []
    for _ in range(2 + sim.draw(10)):
        if sim.flip(1, 4):
            new = sim.pick(models)
            k.impl.fail = sim.flip(1, 4)
            try:
                k.model = new
                current = new
            except Injected:
                pass
            done.append(f"model {current.tag}")
        else:
            what = sim.pick(REQUESTS)
            k.impl.fail = what not in ("deferred", "properties") and sim.flip(1, 6)
            done.append(what)
            try:
                request(sim, k, what, kept)
            except Injected:
                done[-1] += " fails"
            k.impl.fail = False
        if k.model is not current:
            sim.violation("wrong-model", f"the model is {k.model.tag} instead of {current.tag} after {done}")
        for a, b in kept:
            if not np.array_equal(a, b):
                sim.violation("result-changed", f"a result changed after {done}")
    sim.log(", ".join(done))
    sim.nontrivial()


@scenario("C05", 1)
def results_of_sites(sim):
    history(sim)


@scenario("C07", 1)
def models(sim):
    history(sim)
