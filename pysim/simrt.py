"""Deterministic simulation of Python code: seeded choices, a simulated clock, a cooperative
scheduler for threads (a switch can happen at any line or call), locks, and a simulated
file system with crashes, lost and torn writes and full disks.

Every choice is drawn from one recorded list: seed -> list of choices -> execution.
"""
import _thread, builtins, collections, errno, hashlib, io, os, random, stat as stat_module, sys

REPO = os.environ.get("PB_REPO", "/repo")


class Violation(Exception):
    def __init__(self, kind, text):
        super().__init__(kind, text)
        self.kind, self.text = kind, text


class SimAbort(BaseException):
    """Unwinds the other threads of a finished or failed run"""


class SimCrash(BaseException):
    """The simulated process is gone from here on"""


current = None      # the running Sim, or None


class Sim:
    def __init__(self, seed, thorough=False, replay=None):
        self.seed, self.thorough = seed, thorough
        self.rng = random.Random(seed)
        self.replay = replay
        self.trace = []
        self.hash = hashlib.blake2b(digest_size=8)
        self.nevents = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.findings = {}
        self.text = ""
        self.violated = None
        self.is_nontrivial = False
        self.mono = 1000 * 10**9
        self.wall = 1500000000 * 10**9
        self.start_mono = self.mono
        self.sched = Sched(self)
        self.fs = None
        self.keep = []          # objects which must not be destroyed before the run ends
        self.steps = self.switches = self.syncs = 0

    # ---- choices
    def draw(self, n):
        if n <= 1:
            return 0
        i = len(self.trace)
        if self.replay is not None:
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        self.mix(v)
        return v

    def flip(self, a=1, b=2):
        """True with probability a / b; the first choices (which minimising prefers) are False"""
        return self.draw(b) >= b - a

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    # ---- record
    def mix(self, *what):
        self.nevents += 1
        self.hash.update(repr(what).encode())

    def log(self, text):
        self.text += text + "; "
        self.mix(text)

    def fault(self, kind):
        self.faults[kind] += 1

    def probe(self, kind):
        self.probes[kind] += 1

    def nontrivial(self):
        self.is_nontrivial = True

    def violation(self, kind, text):
        v = Violation(kind, text + (" | " + self.text if self.text else ""))
        self.violated = self.violated or v      # (the code under test may handle the error)
        raise v

    def finding(self, key, text):
        self.findings[key] = text

    # ---- clock
    def advance(self, ns):
        self.mono += ns
        self.wall += ns

    def jump(self, ns):
        self.wall = max(0, self.wall + ns)
        self.fault("clock_jump")


# ---- threads -----------------------------------------------------------------------------------------
class SimThread:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.wait = None        # predicate this thread waits for
        self.done = False
        self.error = None


class Sched:
    """Exactly one thread runs at any time; the others wait for the baton."""
    def __init__(self, sim):
        self.sim = sim
        self.main = SimThread("main", None)
        self.threads = [self.main]
        self.now = self.main
        self.active = False      # preemption points do something
        self.abort = False
        self.rate = 8            # a switch at 1 in `rate` points
        self.limit = 200000
        self.nexit = 0

    def ready(self):
        return [t for t in self.threads if not t.done and (t.wait is None or t.wait())]

    def switch_to(self, t):
        me = self.now
        if t is me:
            return
        self.sim.switches += 1
        self.sim.mix("switch", self.threads.index(t))
        self.now = t
        t.sem.release()
        me.sem.acquire()
        if self.abort:
            raise SimAbort

    def point(self):
        """another thread may run here"""
        if self.abort:
            if self.now is not self.main:
                raise SimAbort
            return
        if not self.active:
            return
        sim = self.sim
        sim.steps += 1
        if sim.steps > self.limit:
            self.fail(Violation("hang", f"no end after {self.limit} steps"))
        if sim.draw(self.rate) < self.rate - 1:
            return
        ready = [t for t in self.ready() if t is not self.now]
        if ready:
            self.switch_to(ready[sim.draw(len(ready))])

    def fail(self, violation):
        self.failure = violation
        self.main_error = violation
        self.abort = True
        if self.now is not self.main:
            self.now.error = violation
            raise SimAbort
        raise violation

    def block(self, predicate):
        """wait until predicate() holds"""
        self.sim.syncs += 1
        me = self.now
        while not predicate():
            me.wait = predicate
            ready = self.ready()
            if not ready:
                me.wait = None
                self.fail(Violation("deadlock", "every thread waits"))
            self.switch_to(ready[self.sim.draw(len(ready))])
            me.wait = None
        me.wait = None

    def spawn(self, name, fn):
        t = SimThread(name, fn)
        self.threads.append(t)

        def body():
            t.sem.acquire()
            try:
                if not self.abort:
                    fn()
            except SimAbort:
                pass
            except SimCrash as e:      # the whole process is gone
                self.main_error = e
                self.abort = True
            except BaseException as e:
                t.error = e
            finally:
                t.done = True
                self.sim.mix("end", name)
                if self.abort:
                    self.main_or_next()
                else:
                    try:
                        ready = self.ready()
                        if not ready:
                            self.main_error = Violation("deadlock", "every thread waits")
                            self.abort = True
                            nxt = self.main
                        else:
                            nxt = ready[self.sim.draw(len(ready))]
                    except BaseException as e:
                        self.main_error = e
                        self.abort = True
                        nxt = self.main
                    self.now = nxt
                    nxt.sem.release()
        _thread.start_new_thread(body, ())
        return t

    def main_or_next(self):
        self.now = self.main
        self.main.sem.release()

    main_error = None

    def join(self, *threads):
        """run the other threads until these are done (called by the main thread)"""
        self.start_tracing()
        try:
            self.block(lambda: all(t.done for t in threads))
        except SimAbort:
            raise self.main_error
        finally:
            self.stop_tracing()

    def start_tracing(self):
        self.active = True

    def stop_tracing(self):
        self.active = False

    def finish(self):
        """end of the run: unwind what is left"""
        self.abort = True
        self.active = False
        for t in self.threads:
            if t is not self.main and not t.done:
                self.now = t
                t.sem.release()
                self.main.sem.acquire()


PB = os.path.join(REPO, "pybinding") + os.sep
interrupt_in = None      # raise KeyboardInterrupt after so many traced events
interrupt_calls = False  # at calls only
interrupt_error = KeyboardInterrupt


def interrupt(sim):
    global interrupt_in
    if interrupt_in is not None:
        if interrupt_in == 0:
            interrupt_in = None
            sim.fault("keyboard_interrupt" if interrupt_error is KeyboardInterrupt else "out_of_memory")
            raise interrupt_error
        interrupt_in -= 1


def on_call(code, offset):
    sim = current
    if sim is not None:
        if interrupt_calls:
            interrupt(sim)
        sim.sched.point()


def on_line(code, line):
    sim = current
    if sim is not None:
        if not interrupt_calls:
            interrupt(sim)
        sim.sched.point()


def instrument():
    """all functions of pybinding report their calls and lines (once and for all: switching this on and off
    while there are several threads is not safe in CPython)"""
    import gc
    mon = sys.monitoring
    mon.use_tool_id(3, "sim")
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.register_callback(3, mon.events.PY_START, on_call)
    mon.register_callback(3, mon.events.PY_RESUME, on_call)
    seen = set()

    def add(code):
        if code in seen or not code.co_filename.startswith(PB):
            return
        seen.add(code)
        mon.set_local_events(3, code, mon.events.LINE | mon.events.PY_START | mon.events.PY_RESUME)
        for c in code.co_consts:
            if isinstance(c, type(code)):
                add(c)
    for o in gc.get_objects():
        if isinstance(o, type(instrument)):
            add(o.__code__)


class interrupted:
    """with interrupted(sim, n): KeyboardInterrupt (or another error) at the n-th traced event in pybinding code
    (lines, or calls only: where the interpreter itself looks for signals)"""
    def __init__(self, sim, n, calls=False, error=KeyboardInterrupt):
        self.sim, self.n, self.calls, self.error = sim, n, calls, error

    def __enter__(self):
        global interrupt_in, interrupt_calls, interrupt_error
        interrupt_in, interrupt_calls, interrupt_error = self.n, self.calls, self.error
        return self

    def __exit__(self, *exc):
        global interrupt_in, interrupt_calls
        self.fired = interrupt_in is None
        interrupt_in, interrupt_calls = None, False
        return False


class SimLock:
    """threading.Lock / RLock"""
    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant
        self.sim = None

    def me(self):
        return current.sched.now if current else "none"

    def acquire(self, blocking=True, timeout=-1):
        me = self.me()
        if self.sim is not current:      # a lock of the module: a thread unwound at the end of the last run may have kept it
            self.sim, self.owner, self.count = current, None, 0
        if self.reentrant and self.owner is me and self.count:
            self.count += 1
            return True
        if current:
            current.sched.point()
        if self.count:
            if not blocking:
                return False
            if current is None:
                raise RuntimeError("deadlock outside of a simulation")
            current.sched.block(lambda: not self.count)
        self.owner, self.count = me, 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner is not self.me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.count > 0

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self.count > 0 and self.owner is self.me()


# ---- file system -------------------------------------------------------------------------------------
class Inode:
    def __init__(self, mode=0o100644):
        self.data = bytearray()
        self.durable = b""
        self.pending = []        # ("write", offset, bytes) / ("truncate", size) since the last sync
        self.mode = mode
        self.is_dir = stat_module.S_ISDIR(mode)

    def apply(self, base, ops):
        d = bytearray(base)
        for op in ops:
            if op[0] == "truncate":
                if len(d) > op[1]:
                    del d[op[1]:]
                else:
                    d.extend(b"\0" * (op[1] - len(d)))
            else:
                _, off, b = op
                if len(d) < off:
                    d.extend(b"\0" * (off - len(d)))
                d[off:off + len(b)] = b
        return d


class FS:
    """Files below /simfs and relative paths. Data is durable after fsync, directory changes after an
    fsync of the directory (or of a file in it): until then a power failure may lose them."""
    ROOT = "/simfs"

    def __init__(self, sim):
        self.sim = sim
        self.root = Inode(0o040755)
        self.cwd = self.ROOT
        self.names = {self.ROOT: self.root}          # path -> inode as the running system sees it
        self.durable_names = dict(self.names)
        self.journal = []                            # pending changes of names: (path, inode or None)...
        self.fds = {}
        self.next_fd = 1000000
        self.epoch = 0
        self.crashed = False
        self.space = None                            # bytes which can still be written
        self.fail_in, self.fail_errno, self.fail_count, self.fired = None, errno.EIO, 0, 0
        self.crash_in = None
        self.short = False
        self.read_fail_in = None
        self.ops = 0

    # -- paths
    def path(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        if not p.startswith("/"):
            p = self.cwd + "/" + p
        return os.path.normpath(p)

    def handles(self, p):
        if isinstance(p, int):
            return p in self.fds
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        return not p.startswith("/") or p == self.ROOT or p.startswith(self.ROOT + "/")

    def lookup(self, p):
        path = self.path(p)
        if path not in self.names:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        return self.names[path]

    # -- faults
    def op(self, kind):
        if self.crashed:
            raise SimCrash
        self.ops += 1
        self.sim.mix("fs", kind)
        if self.crash_in is not None:
            if self.crash_in == 0:
                self.crashed = True
                self.sim.fault("crash_at_" + kind)
                raise SimCrash
            self.crash_in -= 1
        if self.fail_in is not None:
            if self.fail_in == 0:
                self.fail_count -= 1
                if self.fail_count <= 0:
                    self.fail_in = None
                self.fired += 1
                self.sim.fault(errno.errorcode[self.fail_errno].lower() + "_at_" + kind)
                raise OSError(self.fail_errno, os.strerror(self.fail_errno))
            self.fail_in -= 1

    def calm(self):
        """no more faults"""
        self.fail_in = self.crash_in = self.space = self.read_fail_in = None
        self.short = False

    def power_loss(self):
        """what is on the disk after the power failed"""
        sim = self.sim
        keep = sim.draw(len(self.journal) + 1)
        for changes in self.journal[:keep]:
            for path, inode in changes:
                if inode is None:
                    self.durable_names.pop(path, None)
                else:
                    self.durable_names[path] = inode
        lost = keep < len(self.journal)
        for inode in {id(i): i for i in self.durable_names.values()}.values():
            if not inode.pending:
                inode.data = bytearray(inode.durable)
                continue
            how = sim.draw(4)
            n = len(inode.pending)
            if how == 0:
                inode.data = inode.apply(inode.durable, inode.pending)
            elif how == 1:
                inode.data = bytearray(inode.durable)
                lost = True
            else:
                k = sim.draw(n)
                ops = inode.pending[:k]
                last = inode.pending[k]
                if last[0] == "write" and len(last[2]):
                    cut = sim.draw(len(last[2]))
                    if how == 2:
                        ops = ops + [("write", last[1], last[2][:cut])]
                    else:       # the size is on the disk, the data is not
                        ops = ops + [("write", last[1], last[2][:cut] + b"\0" * (len(last[2]) - cut))]
                inode.data = inode.apply(inode.durable, ops)
                lost = True
            inode.durable = bytes(inode.data)
            inode.pending = []
        if lost:
            sim.fault("unsynced_data_lost")
        self.names = dict(self.durable_names)
        self.journal = []

    def restart(self, power):
        """after a crash: a new process (and without power: only what was durable)"""
        self.epoch += 1
        self.cwd = self.ROOT
        self.fds = {}
        self.crashed = False
        self.calm()
        if power:
            self.power_loss()

    # -- operations
    def change_names(self, *changes):
        self.journal.append(changes)
        for path, inode in changes:
            if inode is None:
                self.names.pop(path, None)
            else:
                self.names[path] = inode

    def open_fd(self, p, flags, mode=0o777):
        path = self.path(p)
        inode = self.names.get(path)
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        if inode is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            parent = self.names.get(os.path.dirname(path))
            if parent is None or not parent.is_dir:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            self.op("create")
            inode = Inode(0o100000 | (mode & 0o755))
            self.change_names((path, inode))
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
            if inode.is_dir and writing:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
            if writing and flags & os.O_TRUNC:
                self.op("truncate")
                inode.pending.append(("truncate", 0))
                inode.data = bytearray()
        if self.crashed:
            raise SimCrash
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = [inode, 0, flags, path]
        return fd

    def fd(self, fd):
        if self.crashed:
            raise SimCrash
        if fd not in self.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return self.fds[fd]

    def write(self, fd, data):
        f = self.fd(fd)
        inode, pos, flags, _ = f
        data = bytes(data)
        if not flags & (os.O_WRONLY | os.O_RDWR):
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        n = len(data)
        torn = self.crash_in == 0 and n
        if torn:          # part of the data may have been written before the crash
            n = self.sim.draw(n + 1)
        else:
            self.op("write")
            if self.space is not None:
                if self.space <= 0:
                    self.sim.fault("disk_full")
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
                n = min(n, self.space)
            if self.short and n > 1 and self.sim.flip():
                n = 1 + self.sim.draw(n - 1)
                self.sim.fault("short_write")
        if flags & os.O_APPEND:
            pos = len(inode.data)
        chunk = data[:n]
        inode.data = inode.apply(inode.data, [("write", pos, chunk)]) if pos != len(inode.data) else inode.data + chunk
        inode.pending.append(("write", pos, chunk))
        f[1] = pos + n
        if torn:
            self.op("write")
        if self.space is not None:
            self.space -= n
        return n

    def read(self, fd, n):
        f = self.fd(fd)
        inode, pos, _, _ = f
        if self.read_fail_in is not None:
            if self.read_fail_in == 0:
                self.read_fail_in = None
                self.sim.fault("eio_at_read")
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            self.read_fail_in -= 1
        if n is None or n < 0:
            n = len(inode.data)
        if self.short and n > 1:
            n = 1 + self.sim.draw(min(n, 4096))
            self.sim.fault("short_read")
        b = bytes(inode.data[pos:pos + n])
        f[1] = pos + len(b)
        return b

    def seek(self, fd, off, whence):
        f = self.fd(fd)
        f[1] = off if whence == 0 else f[1] + off if whence == 1 else len(f[0].data) + off
        return f[1]

    def truncate(self, fd, size):
        f = self.fd(fd)
        self.op("truncate")
        inode = f[0]
        inode.pending.append(("truncate", size))
        inode.data = inode.apply(inode.data, [("truncate", size)])

    def sync_names(self):
        for changes in self.journal:
            for path, inode in changes:
                if inode is None:
                    self.durable_names.pop(path, None)
                else:
                    self.durable_names[path] = inode
        self.journal = []

    def fsync(self, fd):
        inode = self.fd(fd)[0]
        self.op("fsync")
        inode.durable = bytes(inode.data)
        inode.pending = []
        self.sync_names()

    def close(self, fd):
        if fd not in self.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if self.crashed:
            raise SimCrash
        f = self.fds.pop(fd)
        if f[2] & (os.O_WRONLY | os.O_RDWR):
            self.op("close")

    def rename(self, a, b, replace=True):
        pa, pb = self.path(a), self.path(b)
        inode = self.lookup(a)
        target = self.names.get(pb)
        if target is not None and target.is_dir and not inode.is_dir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), a, b)
        self.op("rename")
        if pa != pb:
            self.change_names((pb, inode), (pa, None))

    def unlink(self, p):
        inode = self.lookup(p)
        if inode.is_dir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
        self.op("unlink")
        self.change_names((self.path(p), None))

    def chdir(self, p):
        path = self.path(p)
        if not self.lookup(p).is_dir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), p)
        self.op("chdir")
        self.cwd = path

    def getcwd(self):
        if self.cwd not in self.names:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        return self.cwd

    def link(self, a, b):
        inode = self.lookup(a)
        if self.path(b) in self.names:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), b)
        self.op("link")
        self.change_names((self.path(b), inode))

    def mkdir(self, p, mode=0o777):
        if self.path(p) in self.names:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
        self.op("mkdir")
        self.change_names((self.path(p), Inode(0o040755)))

    def rmdir(self, p):
        path = self.path(p)
        self.lookup(p)
        if any(os.path.dirname(n) == path for n in self.names):
            raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), p)
        self.op("rmdir")
        self.change_names((path, None))

    def stat_of(self, inode):
        return os.stat_result((inode.mode, id(inode) & 0xffffffff, 77, 1, 0, 0, len(inode.data), 0, 0, 0))

    def listdir(self, p):
        path = self.path(p)
        self.lookup(p)
        return sorted(os.path.basename(n) for n in self.names if os.path.dirname(n) == path and n != path)


class SimRaw(io.RawIOBase):
    """What FileIO is to a real file"""
    def __init__(self, fs, fd, name, mode, closefd=True):
        self._fs, self._fd, self.name, self._mode, self._epoch, self._closefd = fs, fd, name, mode, fs.epoch, closefd
        self._flags = fs.fds[fd][2]

    @property
    def mode(self):
        return self._mode

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if self._fs.epoch != self._epoch:
            raise SimCrash

    def fileno(self):
        self._check()
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        return not self._flags & os.O_WRONLY

    def writable(self):
        return bool(self._flags & (os.O_WRONLY | os.O_RDWR))

    def seekable(self):
        return True

    def write(self, b):
        self._check()
        return self._fs.write(self._fd, memoryview(b).cast("B") if not isinstance(b, bytes) else b)

    def readinto(self, b):
        self._check()
        data = self._fs.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def seek(self, off, whence=0):
        self._check()
        return self._fs.seek(self._fd, off, whence)

    def tell(self):
        self._check()
        return self._fs.seek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._check()
        size = self.tell() if size is None else size
        self._fs.truncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            if self._fs.epoch == self._epoch and self._closefd:
                self._fs.close(self._fd)
        finally:
            super().close()


real_open = io.open


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = current.fs if current else None
    if fs is None or not fs.handles(file):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    kind = set(mode) - set("bt+U")
    flags = {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL}[kind.pop()]
    update = "+" in mode
    if update:
        flags |= os.O_RDWR
    elif mode[0] != "r" and "r" not in mode:
        flags |= os.O_WRONLY
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, flags)
    else:
        fd = fs.open_fd(file, flags, 0o666)
    if fs.fds[fd][0].is_dir:
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    raw = SimRaw(fs, fd, file if not isinstance(file, int) else fd, {"r": "rb", "w": "wb", "a": "ab", "x": "xb"}[(set(mode) - set("bt+U")).pop()] + ("+" if update else ""), closefd)
    if "a" in mode:
        raw.seek(0, 2)
    binary = "b" in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if update else io.BufferedWriter(raw, size) if raw.writable() else io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


def patch_os():
    def route(name, method, nargs=1):
        real = getattr(os, name)

        def f(*args, **kwargs):
            fs = current.fs if current else None
            if fs is None or not args or not fs.handles(args[0]):
                return real(*args, **kwargs)
            return method(fs, *args)
        f.__name__ = name
        setattr(os, name, f)
        for group in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if real in group:
                group.add(f)
    route("open", lambda fs, p, flags, mode=0o777, **_: fs.open_fd(p, flags, mode))
    route("close", lambda fs, fd: fs.close(fd))
    route("write", lambda fs, fd, b: fs.write(fd, b))
    route("read", lambda fs, fd, n: fs.read(fd, n))
    route("lseek", lambda fs, fd, off, how: fs.seek(fd, off, how))
    route("fsync", lambda fs, fd: fs.fsync(fd))
    route("fdatasync", lambda fs, fd: fs.fsync(fd))
    route("ftruncate", lambda fs, fd, n: fs.truncate(fd, n))
    route("fstat", lambda fs, fd: fs.stat_of(fs.fd(fd)[0]))
    route("stat", lambda fs, p: fs.stat_of(fs.fd(p)[0] if isinstance(p, int) else fs.lookup(p)))
    route("lstat", lambda fs, p: fs.stat_of(fs.lookup(p)))
    route("access", lambda fs, p, mode: fs.path(p) in fs.names)
    route("replace", lambda fs, a, b: fs.rename(a, b))
    route("rename", lambda fs, a, b: fs.rename(a, b))
    route("renames", lambda fs, a, b: fs.rename(a, b))
    route("unlink", lambda fs, p: fs.unlink(p))
    route("remove", lambda fs, p: fs.unlink(p))
    route("link", lambda fs, a, b: fs.link(a, b))
    route("mkdir", lambda fs, p, mode=0o777: fs.mkdir(p, mode))
    route("rmdir", lambda fs, p: fs.rmdir(p))
    route("listdir", lambda fs, p=".": fs.listdir(p))
    route("chmod", lambda fs, p, mode: setattr(fs.lookup(p), "mode", stat_module.S_IFMT(fs.lookup(p).mode) | mode))
    route("fchmod", lambda fs, p, mode: setattr(fs.fd(p)[0], "mode", stat_module.S_IFMT(fs.fd(p)[0].mode) | mode))
    route("utime", lambda fs, p, *a: None)
    route("chown", lambda fs, p, *a: None)
    route("fchown", lambda fs, p, *a: None)

    def readlink(fs, p):
        fs.lookup(p)
        raise OSError(errno.EINVAL, os.strerror(errno.EINVAL), p)
    route("readlink", readlink)
    real_fdopen = os.fdopen

    def fdopen(fd, mode="r", *args, **kwargs):
        if current and current.fs and current.fs.handles(fd):
            return sim_open(fd, mode, *args, **kwargs)
        return real_fdopen(fd, mode, *args, **kwargs)
    os.fdopen = fdopen
    real_sync = os.sync

    def sync():
        if current and current.fs:
            fs = current.fs
            fs.op("sync")
            for inode in fs.names.values():
                inode.durable, inode.pending = bytes(inode.data), []
            fs.sync_names()
        else:
            real_sync()
    os.sync = sync
    real_getcwd = os.getcwd
    os.getcwd = lambda: current.fs.getcwd() if current and current.fs else real_getcwd()
    real_chdir = os.chdir

    def chdir(p):
        if current is None or current.fs is None:
            return real_chdir(p)
        fs = current.fs
        if isinstance(p, int):
            fs.op("chdir")
            fs.cwd = fs.fd(p)[3]
        elif not fs.handles(p):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        else:
            fs.chdir(p)
    os.chdir = chdir
    os.fchdir = chdir
    builtins.open = sim_open
    io.open = sim_open
    try:        # numpy keeps a reference to io.open
        from numpy.lib import _datasource
        _datasource._file_openers._file_openers[None] = sim_open
    except (ImportError, AttributeError):
        pass


# ---- terminal ----------------------------------------------------------------------------------------
class Terminal:
    """An output stream which shows what a terminal shows, and may fail"""
    encoding = "utf-8"

    def __init__(self, sim, name="terminal"):
        self.sim, self.name = sim, name
        self.lines, self.col = [[]], 0
        self.fail_in, self.fail_count, self.error = None, 0, None
        self.ascii = False
        self.fired = 0
        self.last_fail = -1      # Sim.nevents of the last failure
        self.on_write = None

    def op(self, kind):
        self.sim.mix(self.name, kind)
        if self.fail_in is not None:
            if self.fail_in == 0:
                self.fail_count -= 1
                if self.fail_count <= 0:
                    self.fail_in = None
                self.fired += 1
                self.last_fail = self.sim.nevents
                self.sim.fault(self.name + "_" + kind + "_fails")
                raise self.error()
            self.fail_in -= 1

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError("write() argument must be str, not " + type(text).__name__)
        self.op("write")
        if self.ascii:
            try:
                text.encode("ascii")
            except UnicodeEncodeError:
                self.last_fail = self.sim.nevents
                self.sim.fault("character_not_encodable")
                raise
        for c in text:
            if c == "\n":
                self.lines.append([])
                self.col = 0
            elif c == "\r":
                self.col = 0
            else:
                line = self.lines[-1]
                if self.col < len(line):
                    line[self.col] = c
                else:
                    line.append(c)
                self.col += 1
        if self.on_write:
            self.on_write(text)
        return len(text)

    def flush(self):
        self.op("flush")

    def isatty(self):
        return True

    def screen(self):
        return ["".join(x).rstrip() for x in self.lines]


class StdProxy:
    """sys.stdout and sys.stderr of the simulated process (some are bound when modules are imported)"""
    encoding = "utf-8"

    def __init__(self, name, real):
        self.name, self.real = name, real

    def target(self):
        return (getattr(current, self.name, None) if current else None) or self.real

    def write(self, text):
        return self.target().write(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self.target().flush()

    def isatty(self):
        return False


# ---- time --------------------------------------------------------------------------------------------
def patch_time():
    import time, datetime

    def mono():
        return current.mono if current else 0

    def wall():
        return current.wall if current else 0
    real_perf = time.perf_counter
    time.real_perf_counter = real_perf

    def sim_or(real, f):
        return lambda *a: f() if current else real(*a)
    time.time = sim_or(time.time, lambda: current.wall / 1e9)
    time.time_ns = sim_or(time.time_ns, lambda: current.wall)
    for name in ("monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, name, sim_or(getattr(time, name), lambda: (current.mono) / 1e9))
        setattr(time, name + "_ns", sim_or(getattr(time, name + "_ns"), lambda: current.mono))
    real_clock_gettime = time.clock_gettime
    time.clock_gettime = lambda c: (current.wall if c == time.CLOCK_REALTIME else current.mono) / 1e9 if current else real_clock_gettime(c)
    real_sleep = time.sleep

    def sleep(s):
        if current:
            current.advance(int(s * 1e9))
            current.sched.point()
        else:
            real_sleep(s)
    time.sleep = sleep
    real_datetime = datetime.datetime

    class Meta(type(real_datetime)):
        def __instancecheck__(cls, o):
            return isinstance(o, real_datetime)

    class SimDatetime(real_datetime, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            if not current:
                return real_datetime.now(tz)
            d = real_datetime(1970, 1, 1) + datetime.timedelta(microseconds=current.wall // 1000)
            return d if tz is None else d.replace(tzinfo=datetime.timezone.utc).astimezone(tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()
    datetime.datetime = SimDatetime


def patch_threading():
    import threading
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda: SimLock(reentrant=True)


def install():
    patch_os()
    patch_time()
    patch_threading()
    sys.unraisablehook = lambda *_: None
