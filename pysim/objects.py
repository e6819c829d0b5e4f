"""Random objects which pybinding can save, and strict equality"""
import numpy as np
import scipy.sparse
import pybinding as pb
from pybinding import results
from pybinding.support.structure import Sites, Hoppings, Boundary, Positions
from pybinding.support.alias import AliasArray, AliasCSRMatrix, SplitName
from pybinding.support.pickle import pickleable


def release(v):
    """a class which uses the optional features of `pickleable`, as of version `v` of a program"""
    @pickleable(props="scale", version=v)
    class Versioned:
        __slots__ = ("_impl", "__dict__")       # what is outside of __dict__ is saved as properties

        def __init__(self, data, scale):
            self.data = data
            self.scale = scale

        @property
        def scale(self):
            return self._impl

        @scale.setter
        def scale(self, v):
            self._impl = v
    Versioned.__module__, Versioned.__qualname__ = __name__, "Versioned"
    return Versioned


RELEASES = {v: release(v) for v in (0, 1, 2, 3, 11)}
Versioned = RELEASES[2]


def run_release(v):
    """the program is replaced by another version of it"""
    global Versioned
    Versioned = RELEASES[v]


class Unpicklable:
    """fails after everything before it was written"""
    def __reduce__(self):
        raise TypeError("injected: can't be pickled")


class FailsOnLoad:
    pass


def array(sim, rng, n=None, kind=None):
    n = sim.pick([0, 1, 3, 17]) if n is None else n
    kind = sim.draw(5) if kind is None else kind
    if kind == 0:
        return rng.integers(-5, 5, n).astype(np.int64)
    if kind == 1:
        return rng.random(n).astype(np.float32)
    if kind == 2:
        return rng.random(n) + 1j * rng.random(n)
    if kind == 3:
        a = rng.random(n)
        if n:
            a[0] = np.nan
        return a
    return np.asfortranarray(rng.random((n, 2)))


def sites(sim, rng, n):
    ids = AliasArray(rng.integers(0, 2, n), mapping={"A": 0, "B|x": 1}) if sim.flip() else rng.integers(0, 2, n).astype(np.int8)
    return Sites(list(rng.random((3, n)).astype(np.float32)), ids)


def hoppings(sim, rng, n):
    m = scipy.sparse.random(n, n, 0.4, format="csr", random_state=np.random.RandomState(int(rng.integers(1 << 30))))
    m.data[:] = 1
    m = m.astype(np.int8)
    return Hoppings(AliasCSRMatrix(m, mapping={"t": 1}) if sim.flip() else m)


def draw_object(sim, tag):
    """an object which differs from every other one (tag)"""
    rng = np.random.default_rng(sim.draw(1 << 30))
    n = 1 + sim.draw(5)
    kind = sim.draw(14)
    labels = sim.pick([None, {"title": "t%d" % tag}, {"x": "µ"}])
    if kind == 0:
        o = [tag, "text", None, True, {"k": (1, 2)}]
    elif kind == 1:
        o = {"tag": tag, "a": array(sim, rng), "nested": [array(sim, rng), SplitName("A|b")]}
    elif kind == 2:
        o = pb.results.Sweep(rng.random(n), rng.random(3), np.full((n, 3), tag, dtype=np.float32), labels, {"tag": tag})
    elif kind == 3:
        o = pb.results.NDSweep((rng.random(n), rng.random(2), rng.random(3)), rng.random(n * 6) + tag, labels, [tag])
    elif kind == 4:
        o = pb.results.Series(rng.random(n), np.full(n, tag), labels)
    elif kind == 5:
        path = pb.results.make_path([0, 0], [1, tag % 7], [2, 2], step=0.5)
        o = pb.results.Bands(path, rng.random((len(path), 2)) + tag)
    elif kind == 6:
        o = pb.results.Eigenvalues(rng.random(n) + tag, None if sim.flip() else rng.random(n))
    elif kind == 7:
        o = pb.results.SpatialMap(rng.random(n) + tag, sites(sim, rng, n))
    elif kind == 8:
        b = [Boundary(np.array([1.0, 0, 0]), hoppings(sim, rng, n))] if sim.flip() else []
        o = pb.results.StructureMap(rng.random(n) + tag, sites(sim, rng, n), hoppings(sim, rng, n), b)
    elif kind == 9:
        o = (tag, pb.results.Structure(sites(sim, rng, n), hoppings(sim, rng, n)))
    elif kind == 10:
        o = Versioned({"tag": tag}, rng.random(2) + tag)
    elif kind == 11:
        o = rng.random(n) + tag
    elif kind == 12:     # larger than every buffer, does not compress
        o = pb.results.Sweep(np.arange(3.0), np.arange(4000.0), rng.random((3, 4000)), labels, tag)
    else:
        o = b"%d" % tag * sim.pick([1, 100, 30000])
    return o


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype != y.dtype or x.shape != y.shape:
            return False
        if not all(same(getattr(a, k, None), getattr(b, k, None)) for k in ("mapping", "point_indices")):
            return False
        return all(same(p, q) for p, q in zip(x.flat, y.flat)) if x.dtype == object else np.array_equal(x, y, equal_nan=x.dtype.kind in "fc")
    if isinstance(a, dict):
        return list(map(str, a)) == list(map(str, b)) and all(same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if scipy.sparse.issparse(a):
        return a.shape == b.shape and all(same(getattr(a, k), getattr(b, k)) for k in ("data", "indices", "indptr"))
    if isinstance(a, str):
        return str.__eq__(a, b)
    if isinstance(a, (int, float, complex, bytes, bool, type(None), np.generic)):
        return a == b or a != a and b != b
    return same(a.__dict__, b.__dict__) and (not isinstance(a, tuple(RELEASES.values())) or same(a.scale, b.scale))


def brief(o):
    return type(o).__name__
