"""C13: the progress bar under failing streams, clock jumps, errors, interrupts and threads"""
import contextlib, errno, re, sys
import pybinding as pb
from pybinding.utils import progressbar
from pybinding import chebyshev
import simrt
from . import scenario

BAR = re.compile(r"Progress +(-?\d+|nan|inf)% \[(/*)( *)\] (.*)")
TIMES = re.compile(r"Elapsed: ((?:\d+ days?, )?\d+:\d\d:\d\d) / ETA: (--:--:--|(?:\d+ days?, )?\d+:\d\d:\d\d)")
PAYLOADS = ["", "x", "a longer text " * 3, "µ≈", "[///] 12%", "y" * 100]


def seconds(text):
    m = re.fullmatch(r"(?:(\d+) days?, )?(\d+):(\d\d):(\d\d)", text)
    d, h, mi, s = (int(v or 0) for v in m.groups())
    return ((d * 24 + h) * 60 + mi) * 60 + s


class Lost(Exception):
    """the program's own error"""


def errors(sim):
    return sim.pick([lambda: OSError(errno.EIO, "injected"), lambda: BrokenPipeError(errno.EPIPE, "injected"), lambda: ValueError("I/O operation on closed file"), lambda: RuntimeError("injected")])


class Output:
    """what the program prints: numbered tokens"""
    def __init__(self, sim):
        self.sim = sim
        self.tokens = []       # (stream, thread, text, event number)
        self.n = 0

    def text(self, name, thread, complete=True, where=None, end=None):
        sim = self.sim
        self.n += 1
        payload = sim.pick(PAYLOADS)
        token = f"<{name[0]}{thread}.{self.n}:{payload}>"
        self.tokens.append((name, thread, token, sim.nevents))
        return token

    def check(self, shown, what, after=-1, order=True):
        """every token printed after `after` appears once; in order for every stream and thread"""
        last = {}
        for name, thread, token, event in self.tokens:
            n = shown.count(token)
            if n > 1:
                self.sim.violation("output-repeated", f"{token} appears {n} times {what}: {shown!r}")
            if n == 0:
                if event > after:
                    self.sim.violation("output-lost", f"{token} does not appear {what}: {shown!r}")
                continue
            at = shown.index(token)
            if order and at < last.get((name, thread), -1):
                self.sim.violation("output-order", f"{token} is out of order {what}: {shown!r}")
            last[name, thread] = at


def check_streams(sim, what):
    for name in ("stdout", "stderr"):
        if getattr(sys, name) is not getattr(simrt, name):
            sim.violation("stream-not-restored", f"sys.{name} is not what it was {what}: {type(getattr(sys, name)).__name__}")


def setup(sim):
    sim.terminal = simrt.Terminal(sim)
    sim.stdout = sim.stderr = sim.terminal
    sim.fs = simrt.FS(sim)


class Model:
    """what the bar must show"""
    def __init__(self, sim, size, width):
        self.sim, self.size, self.width = sim, size, width
        self.value = 0
        self.start = self.update = None
        self.true_width = width
        self.starting = False       # the bar of the start may be shown before the update

    def started(self):
        self.value = 0
        self.start = self.update = self.sim.mono

    def updated(self, value):
        value = min(value, self.size)
        if value != self.value:
            self.value, self.update = value, self.sim.mono

    def check(self, line):
        sim = self.sim
        m = BAR.match(line)
        if not m:
            if "Progress" in line:
                sim.violation("display", f"malformed progress line {line!r}")
            return
        percent, marks, blanks, rest = m.groups()
        if self.starting and percent == "0":
            return
        true = self.value / self.size if self.size else 1.0
        if not percent.isdigit() or abs(int(percent) - 100 * true) > 0.5 + 1e-9:
            sim.violation("percentage", f"{line!r} when {self.value} of {self.size} are done")
        total = len(marks) + len(blanks)
        if abs(len(marks) - true * total) > 1:
            sim.violation("percentage", f"{line!r}: the bar is not that of {self.value} of {self.size}")
        t = TIMES.fullmatch(rest.rstrip())
        if not t:
            if self.width >= 75:
                sim.violation("times", f"malformed times in {line!r}")
            return
        lo, hi = (self.update - self.start) / 1e9, (sim.mono - self.start) / 1e9
        shown = seconds(t.group(1))
        if not lo - 1 <= shown <= hi + 1:
            sim.violation("times", f"{line!r} shows {shown} s elapsed, the truth is {lo} to {hi} s")
        if t.group(2) != "--:--:--" and true > 0:
            eta = seconds(t.group(2))
            a, b = lo * (1 / true - 1), hi * (1 / true - 1)
            if not a - 2 - a * 1e-6 <= eta <= b + 2 + b * 1e-6:
                sim.violation("times", f"{line!r} estimates {eta} s, expected {a} to {b} s")


def displayed(sim, model, line, where):
    """the bar is there, and up to date"""
    if not line.startswith("Progress"[:model.true_width]):
        sim.violation("display", f"the progress bar is not shown {where}: {line!r}")
    model.check(line)


def bars_shown(terminal):
    return [int(m.group(1)) for m in map(BAR.match, terminal.screen()) if m and m.group(1).isdigit()]


def watch(sim, model):
    def on_write(text):
        for line in text.replace("\r", "\n").split("\n"):
            if line.startswith("Progress"):
                model.check(line)
    sim.terminal.on_write = on_write


def clock_step(sim):
    k = sim.draw(6)
    if k == 0:
        sim.advance(sim.pick([1000, 10**6, 10**9, 61 * 10**9, 3700 * 10**9, 90000 * 10**9, 40 * 86400 * 10**9]))
    elif k == 1:
        sim.jump(sim.pick([-1, 1]) * sim.pick([10**9, 3600 * 10**9, 10 * 365 * 86400 * 10**9]))


def say(sim, out, thread=0, whole=False):
    name = sim.pick(["stdout", "stdout", "stderr"])
    token = out.text(name, thread)
    how = sim.draw(4) if not whole else 0
    stream = getattr(sys, name)
    if how == 0:
        stream.write(token + "\n")
    elif how == 1:
        print(token, file=stream)
    elif how == 2:
        stream.write(token)
        stream.flush()
    else:
        stream.writelines([token, "\n"])


def make_bar(sim, size, with_log=None, width=None):
    width = sim.pick([80, 80, 120, 76, 30, 5]) if width is None else width
    log = "p.log" if (sim.flip() if with_log is None else with_log) else ""
    to_terminal = sim.flip(5, 6)
    bar = progressbar.ProgressBar(size, width=width, stream=sim.terminal if to_terminal else None, filename=log)
    return bar, width, log, to_terminal


@scenario("C13", 8)
def single(sim):
    setup(sim)
    out = Output(sim)
    size = sim.pick([10, 1, 3, 100, 7, 0, 10, 3, 997, 123456])
    mode = sim.pick(["", "", "terminal", "log", "disk", "interrupt", "error", "ascii", "widget"])
    bar, width, log, to_terminal = make_bar(sim, size)
    sim.log(f"bar of {size}, width {width}, " + ("terminal " if to_terminal else "") + ("log " if log else "") + mode)
    if not to_terminal and not log:
        mode = ""           # nothing is captured: the terminal's errors are the program's own
    model = Model(sim, size, width)
    watch(sim, model)
    t, fs = sim.terminal, sim.fs
    if mode == "terminal":
        t.error, t.fail_in, t.fail_count = errors(sim), sim.draw(40), sim.pick([1, 1, 2, 5, 10**6])
    elif mode == "log":
        fs.fail_errno, fs.fail_in, fs.fail_count = sim.pick([errno.EIO, errno.ENOSPC]), sim.draw(30), sim.pick([1, 1, 2, 5, 10**6])
    elif mode == "disk":
        fs.space = sim.pick([0, 10, 81, 100, 200, 500])
    elif mode == "ascii":
        t.ascii = True
    elif mode == "widget":
        n = [sim.draw(12)]

        def widget(pbar):
            n[0] -= 1
            if n[0] == -1:
                sim.fault("widget_fails")
                raise Lost("injected: widget")
            return "w"
        bar.widgets = bar.widgets + [" ", widget]
        model.width = 0
    for again in range(1 if log else 1 + sim.draw(2)):
        error = None
        use_with = sim.flip()
        before = len(out.tokens)
        started = use_with or again or mode in ("interrupt", "widget", "terminal", "ascii") or not sim.flip(1, 4)

        def check_display():
            if not started or mode in ("terminal", "interrupt", "ascii", "widget"):
                return
            if to_terminal:
                displayed(sim, model, t.screen()[-1], "on the terminal")
            if log and mode not in ("log", "disk"):
                displayed(sim, model, bytes(fs.lookup("p.log").data).decode().split("\n")[0], "in the log")
        cm = simrt.interrupted(sim, sim.draw(60), calls=True) if mode == "interrupt" else contextlib.nullcontext()
        entered = finished = False
        try:
            with cm:
                model.started()
                if use_with:
                    bar.__enter__()
                elif started:
                    bar.start()
                entered = True
                check_display()
                for _ in range(sim.draw(12)):
                    clock_step(sim)
                    k = sim.draw(8)
                    if not started and 4 <= k < 7:      # the first update starts it
                        started = model.starting = True
                        before = len(out.tokens)
                        t.write("\n")     # (it overwrites an incomplete line)
                        model.started()
                    if k < 4:
                        say(sim, out)
                    elif k < 6:
                        d = 1 + sim.draw(3)
                        model.updated(model.value + d)
                        bar += d
                    elif k == 6:
                        v = sim.draw(size + 1)
                        model.updated(v)
                        bar.update(v)
                    else:
                        bar.refresh()
                    model.starting = False
                    if k >= 4:
                        check_display()
                    if mode == "error" and sim.flip(1, 8):
                        sim.fault("program_error")
                        raise Lost("program")
        except (Exception, KeyboardInterrupt) as e:
            error = e
        if error is not None and not entered:
            pass       # start failed: there is nothing to stop
        else:
            clock_step(sim)
            try:
                if use_with:
                    if bar.__exit__(*((type(error), error, error.__traceback__) if error is not None else (None, None, None))) and error is not None:
                        sim.violation("error-lost", f"the bar swallows the program's error {error!r}")
                else:
                    if error is None and started and sim.flip():
                        model.updated(size)
                        bar.finish()
                    else:
                        bar.stop()
            except Exception as e:
                if not (mode == "widget" and isinstance(e, Lost)):
                    sim.violation("bar-fails", f"stopping the bar fails: {type(e).__name__}: {e}")
        if error is not None:
            expected = {"interrupt": KeyboardInterrupt, "error": Lost, "widget": Lost}.get(mode, ())
            if not isinstance(error, expected):
                sim.violation("bar-fails", f"a progress bar operation fails: {type(error).__name__}: {error}")
            sim.log(f"-> {type(error).__name__}")
        check_streams(sim, "after the progress bar")
        during = len(out.tokens)      # (a log has one bar only)
        if sim.flip(1, 3):
            t.fail_in = None
            t.ascii = False
            print(out.text("stdout", 0))
        t.fail_in = None
        t.write("\n")      # a bar started after an incomplete line overwrites it
    fs.calm()
    if mode == "interrupt":
        sim.nontrivial()
        return
    if to_terminal:
        # (texts which the terminal can't show take those of the same refresh with them)
        out.check("\n".join(t.screen()), "on the terminal", after=sim.nevents if mode == "ascii" else t.last_fail)
    if log:
        data = bytes(fs.lookup("p.log").data).decode("utf-8", "replace")
        if mode not in ("log", "disk") and started:
            lines = data.split("\n")
            if started and len(lines[0]) != width:
                sim.violation("log", f"the first line of the log is not the progress bar: {data!r}")
            model_tokens = "\n".join(lines[1:])
            shown = Output(sim)
            shown.tokens = out.tokens[before:during]
            shown.check(model_tokens, "in the log")
    sim.nontrivial()


@scenario("C13", 2)
def nested(sim):
    """bars within bars, streams kept from the time of a bar, redirected streams"""
    setup(sim)
    out = Output(sim)
    bars, kept = [], []
    lifo = sim.flip()
    for _ in range(4 + sim.draw(12)):
        k = sim.draw(7)
        if k == 0 and len(bars) < 3:
            b = progressbar.ProgressBar(10, stream=sim.terminal if sim.flip() else sys.stdout, width=80)
            b.start()
            bars.append(b)
        elif k == 1 and bars:
            bars.pop(-1 if lifo else sim.draw(len(bars))).stop()
        elif k == 2 and bars:
            b = sim.pick(bars)
            b += 1
        elif k == 3:
            kept.append((sim.draw(2), sys.stdout, sys.stderr))
        elif k == 4 and kept:
            _, o, e = sim.pick(kept)
            name = sim.pick(["stdout", "stderr"])
            (o if name == "stdout" else e).write(out.text(name, 1 + out.n) + "\n")
        elif k == 5 and bars:
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                print("not shown")
                b = sim.pick(bars)
                b += 1
        else:
            say(sim, out, 1 + out.n if not lifo else 0, whole=True)
    while bars:
        bars.pop(-1 if lifo else sim.draw(len(bars))).stop()
    check_streams(sim, "after all progress bars")
    for _, o, e in kept:
        o.write(out.text("stdout", 1 + out.n) + "\n")
        e.write(out.text("stderr", 1 + out.n) + "\n")
    sim.log(f"{'nested' if lifo else 'overlapping'} bars, {out.n} texts, {len(kept)} kept streams")
    # bars which do not know of each other share the last line of the terminal: each text must have been
    # written, undamaged
    shown = "\n".join(sim.terminal.screen())
    # (what the bar within another one shows is shown when the outer one is refreshed)
    out.check(shown, "on the terminal", order=False)
    sim.nontrivial()


@scenario("C13", 6)
def threads(sim):
    """one bar, updated and printed to from several threads (as in a parallel sweep)"""
    setup(sim)
    out = Output(sim)
    sched = sim.sched
    sched.rate = sim.pick([2, 4, 10, 30])
    nupdate = 1 + sim.draw(2)
    per = 1 + sim.draw(4)
    size = nupdate * per
    bar, width, log, to_terminal = make_bar(sim, size, width=80)
    own = sim.flip(1, 4)
    done = [0]
    t = sim.terminal
    fail = sim.flip(1, 4) and (to_terminal or bool(log))
    if fail:
        t.error, t.fail_in, t.fail_count = errors(sim), sim.draw(40), sim.pick([1, 1, 2, 5])
    printers = sim.draw(3)
    kept = [None]

    def on_write(text):
        for line in text.replace("\r", "\n").split("\n"):
            m = BAR.match(line)
            if m and int(m.group(1)) > 100 * done[0] / size + 0.5 + 1e-9:
                sim.violation("percentage", f"{line!r} when {done[0]} of {size} are done")
    t.on_write = on_write

    def updater(n):
        def f():
            nonlocal bar
            for _ in range(per):
                for _ in range(sim.draw(3)):
                    say(sim, out, n)
                if sim.flip(1, 3):
                    clock_step(sim)
                done[0] += 1
                bar += 1
        return f

    def printer(n):
        def f():
            for _ in range(1 + sim.draw(5)):
                if sim.flip(1, 4):
                    bar.refresh()
                say(sim, out, n)
                sim.sched.point()
        return f
    error = None
    with bar:
        ts = [sched.spawn(f"update{i}", updater(i)) for i in range(nupdate)] + [sched.spawn(f"print{i}", printer(10 + i)) for i in range(printers)]
        late = [sched.spawn("late", printer(20))] if sim.flip() else []      # still printing when the bar stops
        sched.join(*ts)
        if late:
            sched.start_tracing()
            try:
                bar.stop()
            except simrt.SimAbort:
                raise sched.main_error
            finally:
                sched.stop_tracing()
            sched.join(*late)
    for x in ts + late:
        if x.error is not None:
            if isinstance(x.error, simrt.Violation):
                raise x.error
            if late and fail and x in late:
                continue          # printing to the terminal itself failed
            sim.violation("bar-fails", f"{type(x.error).__name__}: {x.error} in thread {x.name}")
    sim.log(f"{nupdate} updating and {printers} printing threads, {out.n} texts" + (", terminal fails" if fail else "") + (", one prints while the bar stops" if late else ""))
    check_streams(sim, "after the progress bar")
    if bar.value != size:
        sim.violation("count", f"the bar counted {bar.value} of {size}")
    if to_terminal and not fail and not bars_shown(t)[-1:] == [100]:
        sim.violation("display", f"the finished bar is not shown: {t.screen()}")
    if to_terminal:
        out.check("\n".join(t.screen()), "on the terminal", after=t.last_fail)
    if log and not late:
        out.check(bytes(sim.fs.lookup("p.log").data).decode().split("\n", 1)[1], "in the log")
    sim.nontrivial()


@scenario("C13", 4)
def kpm_reporter(sim):
    """the callback of KPM calculations: any number of threads report, other threads print, calculations fail"""
    setup(sim)
    out = Output(sim)
    sched = sim.sched
    sched.rate = sim.pick([2, 5, 20])
    t = sim.terminal
    nkpm = 1 + sim.draw(2)
    calcs = []
    for k in range(nkpm):
        reporter = chebyshev._ComputeProgressReporter()
        calcs.append((reporter, [(sim.pick([1, 2, 3, 5, 8]), sim.pick([1, 2, 4]), sim.pick([None, None, None, "fails", "callback"])) for _ in range(1 + sim.draw(3))]))
    concurrent = nkpm > 1
    max_percent = {}

    def calculate(reporter, total, batch, fail, tag, workers):
        deltas = [batch] * (total // batch) + [1] * (total % batch)
        if sim.flip() and total % batch:
            deltas = [batch] * (total // batch + 1)
        if total == 1:
            fail = None
        stop = sim.draw(len(deltas)) if fail else None
        reporter(-1, total)
        queue = list(enumerate(deltas))
        failed, done = [], [0]

        def worker():
            while queue:
                i, d = queue.pop(0)
                if i == stop:
                    sim.fault("calculation_" + fail)
                    failed.append(1)
                    return
                reporter(d, total)
                done[0] = min(done[0] + d, total)
                percent = int("{:.0%}".format(done[0] / total)[:-1])
                if not workers and not concurrent and total > 1 and bars_shown(t)[-1:] != [percent]:
                    sim.violation("display", f"{done[0]} of {total} vectors are shown as {bars_shown(t)[-1:]}: {t.screen()}")
                if sim.flip(1, 4):
                    say(sim, out, tag * 10, whole=True) if not workers else None
        if workers:
            ts = [sched.spawn(f"kpm{tag}.{j}", worker) for j in range(workers)]
            sched.block(lambda: all(x.done for x in ts))
            for x in ts:
                if x.error is not None:
                    raise x.error
        else:
            worker()
        if failed:
            reporter(0, total)
        else:
            reporter(total, total)
            if not concurrent and total > 1 and bars_shown(t)[-1:] != [100]:
                sim.violation("display", f"the finished calculation is not shown: {t.screen()}")

    def run(k):
        def f():
            reporter, todo = calcs[k]
            for n, (total, batch, fail) in enumerate(todo):
                calculate(reporter, total, batch, fail, k + 1, sim.pick([0, 0, 2, 3]))
                if not concurrent:
                    check_streams(sim, f"after a KPM calculation which {'failed' if fail else 'finished'}")
                clock_step(sim)
        return f

    def printer():
        for _ in range(1 + sim.draw(5)):
            say(sim, out, 99, whole=True)
            sched.point()
    ts = [sched.spawn(f"kpm{k}", run(k)) for k in range(nkpm)]
    if sim.flip():
        ts.append(sched.spawn("printer", printer))
    sched.join(*ts)
    for x in ts:
        if x.error is not None:
            if isinstance(x.error, simrt.Violation):
                raise x.error
            sim.violation("bar-fails", f"{type(x.error).__name__}: {x.error}")
    check_streams(sim, "after all KPM calculations")
    print(out.text("stdout", 0))
    sim.log(f"{[c[1] for c in calcs]}, {out.n} texts")
    for line in t.screen():
        m = BAR.match(line)
        if "Progress" in line and not concurrent and not m:
            continue
        if m and not (m.group(1).isdigit() and int(m.group(1)) <= 100):
            sim.violation("percentage", f"{line!r}")
        if m and not TIMES.search(line) and not concurrent:
            sim.violation("times", f"malformed times in {line!r}")
    out.check("\n".join(t.screen()), "on the terminal", order=not concurrent)
    sim.nontrivial()
