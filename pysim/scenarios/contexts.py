"""C25: what a `with` block changed for the whole process is changed back, however the block ends"""
import contextlib, errno, os, pathlib, sys
import pybinding as pb
from pybinding import pltutils
from pybinding.utils import misc
import simrt
from . import scenario

plt, mpl = sys.modules["matplotlib.pyplot"], sys.modules["matplotlib"]
DIRS = ["/simfs", "/simfs/a", "/simfs/a/b", "/simfs/c", "/simfs/home", "/simfs/home/d"]
BACKENDS = ["agg", "svg", "pdf", "TkAgg"]


class Axes:
    def __init__(self, n):
        self.n = n
        self.figure = None

    def __repr__(self):
        return f"axes {self.n}"


class PlotState:
    """the state of matplotlib which the contexts change"""
    def __init__(self, sim):
        self.sim = sim
        self.axes = [Axes(i) for i in range(4)]
        self.current, self.backend = self.axes[0], "agg"
        self.fail = {}          # function -> error at its next call
        self.names = dict(gca=self.gca, sca=self.sca, switch_backend=self.switch, get_backend=lambda: self.backend)

    def maybe(self, what):
        e = self.fail.pop(what, None)
        if e is not None:
            self.sim.fault(what + "_failure")
            raise e

    def gca(self, **_):
        self.maybe("gca")
        return self.current

    def sca(self, ax):
        self.maybe("sca")
        if ax not in self.axes:
            raise ValueError("Axes instance argument was not found in a figure")
        self.current = ax

    def switch(self, name, **_):
        self.maybe("switch_backend")
        if name.lower() not in map(str.lower, BACKENDS):
            raise ImportError("no such backend: " + name)
        self.backend = name

    def __enter__(self):
        for n, f in self.names.items():
            setattr(plt, n, f)
        mpl.get_backend, mpl.use = self.names["get_backend"], self.switch
        self.home = os.environ.get("HOME")
        os.environ["HOME"] = "/simfs/home"
        return self

    def __exit__(self, *exc):
        for n in self.names:
            vars(plt).pop(n, None)
        for n in ("get_backend", "use"):
            vars(mpl).pop(n, None)
        if self.home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = self.home
        return False


class Mine(Exception):
    """the program's own error"""


class Run:
    def __init__(self, sim, state):
        self.sim, self.state, self.fs = sim, state, sim.fs
        self.count = 0

    def now(self):
        return self.fs.cwd, self.state.current, self.state.backend

    def make(self):
        """a context, what must hold in its block, and whether entering it must fail"""
        sim, st = self.sim, self.state
        cwd, ax, backend = self.now()
        kind = sim.draw(7)
        if kind < 3:
            path = sim.pick(DIRS + ["/simfs/missing", "/simfs/file"])
            form = sim.draw(4)
            arg = path
            if form == 1:
                arg = pathlib.Path(path)
            elif form == 2:
                arg = os.path.relpath(path, cwd)
            elif form == 3 and path.startswith("/simfs/home"):
                arg = "~" + path[len("/simfs/home"):]
            fail = path in ("/simfs/missing", "/simfs/file")
            if not fail and sim.flip(1, 8):
                self.fs.fail_errno, self.fs.fail_in, self.fs.fail_count = sim.pick([errno.EACCES, errno.EIO]), 0, 1
                fail = True
            return f"cd {path}", lambda: misc.cd(arg), (path, ax, backend), fail
        if kind < 5:
            new = sim.pick(st.axes + [Axes(9)] if sim.flip(1, 4) else st.axes)
            fail = new not in st.axes
            if not fail and sim.flip(1, 8):
                st.fail["sca"] = ValueError("injected")
                fail = True
            return f"{new}", lambda: pltutils.axes(new), (cwd, new, backend), fail
        new = sim.pick(BACKENDS + ["nothing"] if sim.flip(1, 4) else BACKENDS)
        fail = new == "nothing"
        if not fail and sim.flip(1, 8):
            st.fail["switch_backend"] = ImportError("injected")
            fail = True
        return f"backend {new}", lambda: pltutils.backend(new), (cwd, ax, new), fail

    def disturb(self):
        """the program itself changes the state in the block"""
        sim = self.sim
        k = sim.draw(4)
        if k == 0:
            self.fs.cwd = sim.pick(DIRS)
        elif k == 1:
            self.state.current = sim.pick(self.state.axes)
        elif k == 2:
            self.state.backend = sim.pick(BACKENDS)

    def expect(self, want, when):
        if self.now() != want:
            names = ("the working directory", "the active axes", "the matplotlib backend")
            wrong = "; ".join(f"{n} is {a}, not {b}" for n, a, b in zip(names, self.now(), want) if a != b)
            self.sim.violation("not-restored" if "after" in when else "not-set", f"{when}: {wrong}")

    def block(self, depth):
        """one with block (and what is in it); errors of the program pass through"""
        sim = self.sim
        self.count += 1
        name, make, inside, fail = self.make()
        which = 0 if name.startswith("cd") else 2 if name.startswith("backend") else 1
        before = self.now()
        style = sim.draw(5)
        error = sim.pick([None, None, Mine("1"), KeyboardInterrupt(), SystemExit(2), MemoryError(), StopIteration(3), TypeError("x")]) if depth else sim.pick([None, Mine("0"), KeyboardInterrupt()])
        entered = [False]
        disturbed = sim.flip(1, 4)
        ends = [None]

        def body():
            entered[0] = True
            self.expect(inside, f"in the block of {name}")
            for _ in range(sim.draw(3) if depth < 4 else 0):
                self.block(depth + 1)
            if disturbed:
                self.disturb()
            ends[0] = self.now()
            if error is not None:
                sim.fault(type(error).__name__ + "_in_block")
                raise error

        def generate():
            with make():
                body_until_yield()
                yield 1

        def body_until_yield():
            nonlocal error
            e, error = error, None
            try:
                body()
            finally:
                error = e
        got = None
        try:
            if style == 1:
                try:
                    make()(body)()                 # as a decorator
                except TypeError as e:
                    if entered[0] or "not callable" not in str(e):
                        raise
                    with make():
                        body()
            elif style == 2 and error is None:      # left by return, break, continue
                for _ in range(2):
                    with make():
                        body()
                        break
            elif style == 3 and error is None:      # a generator which is closed in the block
                g = generate()
                next(g)
                sim.fault("generator_closed_in_block")
                g.close()
            elif style == 4:
                with contextlib.ExitStack() as s:
                    s.enter_context(make())
                    body()
            else:
                with make():
                    body()
        except simrt.Violation:
            raise
        except BaseException as e:
            got = e
            if not entered[0]:
                e.__traceback__ = None
        self.fs.calm()
        self.state.fail.clear()
        want = before
        if not entered[0]:
            if not fail:
                sim.violation("enter-fails", f"{name} can't be entered: {type(got).__name__}: {got}")
        else:
            if fail:
                sim.violation("error-lost", f"{name} was entered although that fails")
            end = list(ends[0] or inside)
            end[which] = before[which]
            want = tuple(end)
            if got is not error and not (isinstance(error, StopIteration) and isinstance(got, RuntimeError)):
                sim.violation("error-lost", f"the block of {name} ends with {error!r}, the program sees {got!r}")
        self.expect(want, f"after the block of {name}" + (f" which ends with {type(error).__name__}" if error is not None and entered[0] else "" if entered[0] else " which could not be entered"))
        if error is not None or fail or disturbed:
            sim.nontrivial()
        sim.log(f"{'  ' * depth}{name}" + (f" ! {type(got).__name__}" if got is not None else ""))


def setup(sim):
    fs = sim.fs = simrt.FS(sim)
    for d in DIRS[1:]:
        fs.mkdir(d)
    fs.close(fs.open_fd("/simfs/file", os.O_CREAT | os.O_WRONLY))
    fs.cwd = sim.pick(DIRS)
    return fs


@scenario("C25", 5)
def blocks(sim):
    setup(sim)
    with PlotState(sim) as state:
        state.current, state.backend = sim.pick(state.axes), sim.pick(BACKENDS)
        run = Run(sim, state)
        for _ in range(1 + sim.draw(4)):
            run.block(0)


@scenario("C25", 2)
def running_tests(sim):
    """pb.tests() runs in another directory, with another backend"""
    fs = setup(sim)
    source = os.path.dirname(os.path.dirname(os.path.abspath(pb.__file__)))
    with PlotState(sim) as state:
        state.backend = sim.pick(BACKENDS)
        run = Run(sim, state)
        for n in range(1 + sim.draw(3)):
            before = run.now()
            error = sim.pick([None, None, KeyboardInterrupt(), SystemExit(3), Mine("in pytest")])
            mode = sim.pick(["", "", "chdir", "backend"])
            calls = []

            def main(args=None, plugins=None):
                calls.append((list(args), plugins))
                if state.backend.lower() != "agg":
                    sim.violation("not-set", f"the tests run with the backend {state.backend}")
                run.disturb()
                if error is not None:
                    sim.fault(type(error).__name__ + "_in_pytest")
                    raise error
                return code
            code = sim.pick([0, 1, 2, 5])
            pytest = type(sys)("pytest")
            pytest.main = main
            real, sys.modules["pytest"] = sys.modules.get("pytest"), pytest
            fs.calm()
            handles = fs.handles
            places = {source: "/simfs/c"}          # the directory of the sources stands for one of the simulated ones
            fs.handles = lambda p: handles(p) or str(p) in places
            path = fs.path
            fs.path = lambda p: places.get(str(p)) or path(p)
            if mode == "chdir":
                fs.fail_errno, fs.fail_in, fs.fail_count = errno.EACCES, 0, 1
            elif mode == "backend":
                state.fail["switch_backend"] = ImportError("injected")
            got = result = None
            axes = state.current
            try:
                result = pb.tests(sim.pick([None, "-v", ["-x"]]))
            except simrt.Violation:
                raise
            except BaseException as e:
                got = e
            finally:
                fs.calm()
                state.fail.clear()
                if real is None:
                    del sys.modules["pytest"]
                else:
                    sys.modules["pytest"] = real
                del fs.handles, fs.path
            if mode == "":
                if not calls:
                    sim.violation("enter-fails", f"the tests were not run: {type(got).__name__}: {got}")
                if got is not error or error is None and result != (code or None):
                    sim.violation("error-lost", f"pytest ends with {error or code!r}, pb.tests() with {got or result!r}")
            elif got is None:
                sim.violation("error-lost", f"pb.tests() succeeds although {mode} fails")
            if (fs.cwd, state.backend) != (before[0], before[2]):
                run.expect((before[0], state.current, before[2]), "after pb.tests()")
            sim.log(f"pb.tests() {mode} -> {type(got).__name__ if got is not None else result}")
            if mode or error:
                sim.nontrivial()
