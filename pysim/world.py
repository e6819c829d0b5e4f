"""Loads the real pybinding package from /repo on top of stand-ins for its C++ extension module and
for matplotlib (neither can be built or installed here)."""
import importlib, sys, types
import simrt


class Stub(types.ModuleType):
    """any attribute is a class or submodule which does nothing"""
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in MISSING:
            raise AttributeError(name)
        v = type(name, (), {"__init__": lambda self, *a, **k: None})
        setattr(self, name, v)
        return v


MISSING = {"physical_core_count", "FEAST", "kpm_cuda"}


class Plt(types.ModuleType):
    """matplotlib.pyplot: every call is recorded"""
    calls = []
    fail_in = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        if name == "get_cmap":
            import numpy
            return lambda *a: lambda bins: numpy.zeros((len(bins), 4))

        def call(*args, **kwargs):
            Plt.calls.append(name)
            if Plt.fail_in is not None:
                if Plt.fail_in == 0:
                    Plt.fail_in = None
                    raise RuntimeError("injected plot failure")
                Plt.fail_in -= 1
        return call


def load():
    sys.dont_write_bytecode = True
    import numpy, scipy.sparse.linalg, scipy.spatial, scipy.linalg, inspect, gzip, pickle, pathlib, tempfile, tokenize, linecache, datetime, shutil, threading, queue, traceback, contextlib, warnings  # noqa: real ones first
    warnings.simplefilter("ignore")
    simrt.install()
    import time
    for name in ("matplotlib", "matplotlib.style", "matplotlib.pyplot", "matplotlib.collections", "matplotlib.colors", "mpl_toolkits", "mpl_toolkits.mplot3d"):
        sys.modules[name] = (Plt if name.endswith("pyplot") else Stub)(name)
    sys.modules["matplotlib"].pyplot = sys.modules["matplotlib.pyplot"]
    sys.modules["matplotlib"].style = sys.modules["matplotlib.style"]
    cpp = Stub("_pybinding")
    sys.modules["_pybinding"] = cpp
    sys.path.insert(0, simrt.REPO)
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = simrt.stdout, simrt.stderr = simrt.StdProxy("stdout", out), simrt.StdProxy("stderr", err)
    pb = importlib.import_module("pybinding")
    import pybinding.utils.progressbar
    sys.stdout, sys.stderr = out, err
    assert pb.__file__.startswith(simrt.PB), pb.__file__
    return pb, cpp
