import collections, importlib, os, pkgutil

Scenario = collections.namedtuple("Scenario", "name fn weight")
ALL = collections.defaultdict(list)


def scenario(prop, weight=1):
    def add(fn):
        ALL[prop].append(Scenario(fn.__name__, fn, weight))
        return fn
    return add


def load_all():
    for m in sorted(m.name for m in pkgutil.iter_modules([os.path.dirname(__file__)])):
        importlib.import_module("scenarios." + m)
