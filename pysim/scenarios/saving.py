"""C14: files of saved results under crashes, power failures, full disks, errors and corruption"""
import errno, io, os, pathlib
import pybinding as pb
import simrt
import objects
from objects import draw_object, same, brief, Unpicklable
from . import scenario

FORMS = [("a.pbz", ["a", "a.pbz", "P:a", "/simfs/a.pbz", "P:/simfs/a"]), ("out/b.pbz", ["out/b", "P:out/b.pbz"]), ("c.ext", ["c.ext", "P:c.ext"]),
         ("out.pbz", ["out", "out.pbz", "P:out", "/simfs/out"])]     # beside the directory out


def as_path(form):
    return pathlib.Path(form[2:]) if form.startswith("P:") else form


class Slot:
    def __init__(self, name, forms):
        self.name, self.forms = name, forms
        self.visible = [None]       # versions which a load may return now; None: no file
        self.durable = [None]       # versions which may be there after a power failure


def load(sim, slot, what):
    """load the slot: the index of the version, or None"""
    try:
        o = pb.load(as_path(sim.pick(slot.forms)))
    except Exception as e:
        return None, e
    return o, None


def check_slot(sim, slot, what, power=False):
    ok = slot.durable if power else slot.visible
    o, error = load(sim, slot, what)
    if error is not None:
        if None not in ok:
            sim.violation("not-loadable", f"{slot.name} can't be loaded {what}: {type(error).__name__}: {error}")
        found = None
    else:
        found = next((v for v in ok if v is not None and same(v, o)), None)
        if found is None:
            sim.violation("wrong-object", f"{slot.name} {what} is a {brief(o)} which is not the version saved there")
    if power:
        slot.visible = slot.durable = [found]
    else:
        slot.visible = [found]


@scenario("C14", 6)
def store(sim):
    fs = sim.fs = simrt.FS(sim)
    fs.mkdir("/simfs/out")
    fs.sync_names()
    slots = [Slot(*f) for f in FORMS[:1 + sim.draw(4)]]
    ops = 3 + sim.draw(10 if sim.thorough else 6)
    for n in range(ops):
        slot = sim.pick(slots)
        form = sim.pick(slot.forms)
        what = sim.draw(10)
        if what < 7:
            obj = draw_object(sim, n)
            mode = sim.pick(["", "", "error", "full", "short", "crash", "power", "crash", "power", "interrupt", "unpicklable"])
            saved = [obj, Unpicklable()] if mode == "unpicklable" else obj
            fs.fired = 0
            interrupt = None
            if mode == "error":
                fs.fail_errno = sim.pick([errno.EIO, errno.ENOSPC, errno.EDQUOT])
                fs.fail_in, fs.fail_count = sim.draw(10), sim.pick([1, 1, 99])
            elif mode == "full":
                fs.space = sim.pick([0, 1, 50, 500, 20000, 100000])
            elif mode == "short":
                fs.short = True
            elif mode in ("crash", "power"):
                fs.crash_in = sim.draw(12)
            elif mode == "interrupt":
                interrupt = simrt.interrupted(sim, sim.draw(80), calls=sim.flip())
            error, crashed = None, False
            try:
                if interrupt:
                    with interrupt:
                        pb.save(saved, as_path(form))
                else:
                    pb.save(saved, as_path(form))
            except simrt.SimCrash:
                crashed = True
            except (Exception, KeyboardInterrupt) as e:
                error = type(e).__name__
            crashed = crashed or fs.crashed
            failed = fs.fired > 0 if mode == "error" else fs.space is not None and fs.space <= 0 if mode == "full" else mode == "unpicklable"
            sim.log(f"save {brief(obj)} to {form}" + (f" ({mode})" if mode else "") + (" crashed" if crashed else "") + (f" -> {error}" if error else ""))
            if crashed:
                fs.restart(mode == "power")
                slot.visible = slot.visible + [obj]
                slot.durable = slot.durable + [obj]
                if mode == "power":
                    for s in slots:
                        check_slot(sim, s, "after the power failed while saving " + slot.name, power=True)
                else:
                    for s in slots:
                        check_slot(sim, s, "after a crash while saving " + slot.name)
                sim.nontrivial()
            elif error:
                fs.calm()
                if not failed and mode != "interrupt":
                    sim.violation("save-fails", f"saving fails although nothing fails: {error}")
                if mode == "unpicklable":
                    obj = None
                # an error may also be reported after the new version is in place
                slot.visible = slot.visible + ([obj] if obj is not None else [])
                slot.durable = slot.durable + ([obj] if obj is not None else [])
                for s in slots:
                    check_slot(sim, s, f"after saving {slot.name} failed with {error}")
                sim.nontrivial()
            else:
                fs.calm()
                if mode == "unpicklable":
                    sim.violation("error-lost", "an object which can't be pickled was saved without an error")
                slot.visible, slot.durable = [obj], [obj]
                check_slot(sim, slot, "after it was saved" + (f" ({mode})" if mode else ""))
                if mode:
                    sim.nontrivial()
        elif what == 7:
            fs.restart(True)
            sim.log("power failure")
            sim.fault("power_failure")
            for s in slots:
                check_slot(sim, s, "after a power failure long after saving", power=True)
            sim.nontrivial()
        else:
            damage(sim, fs, slot)
    for s in slots:
        check_slot(sim, s, "at the end")


def damage(sim, fs, slot):
    """a copy of the file is damaged: loading gives the object or fails"""
    path = fs.path(slot.name)
    if path not in fs.names or all(v is None for v in slot.visible):
        return
    inode = fs.names[path]
    good = inode.data
    for _ in range(1 + sim.draw(6)):
        bad = bytearray(good)
        how = sim.draw(5)
        if how == 0:
            text = "a flipped bit"
            at = sim.draw(len(bad)) if sim.flip() else max(0, len(bad) - 1 - sim.draw(min(len(bad), 30)))
            bad[at] ^= 1 << sim.draw(8)
        elif how == 1:
            text = "a truncated file"
            del bad[len(bad) - 1 - sim.draw(min(len(bad), 64) if sim.flip() else len(bad)):]
        elif how == 2:
            text = "zeros at the end"
            k = 1 + sim.draw(min(len(bad), 64) if sim.flip() else len(bad))
            bad[len(bad) - k:] = b"\0" * k
        elif how == 3:
            text = "a garbled part"
            at, k = sim.draw(len(bad)), 1 + sim.draw(8)
            for i in range(at, min(at + k, len(bad))):
                bad[i] = sim.draw(256)
        else:
            text = "a read error"
            fs.read_fail_in = sim.draw(3)
        sim.fault(text.split(" ", 1)[1].replace(" ", "_"))
        inode.data = bad
        fs.short = sim.flip(1, 4)
        try:
            o, error = load(sim, slot, text)
        finally:
            fs.calm()
            inode.data = good
        if error is None and not any(v is not None and same(v, o) for v in slot.visible):
            sim.violation("wrong-object", f"loading {slot.name} with {text} returns a {brief(o)} which was never saved")
        sim.log(f"{slot.name} with {text} -> {type(error).__name__ if error else 'object'}")
        sim.nontrivial()


@scenario("C14", 2)
def file_object(sim):
    """saving to and loading from open files: no atomicity, but no wrong object either"""
    fs = sim.fs = simrt.FS(sim)
    obj = draw_object(sim, 1)
    memory = sim.flip(1, 3)
    mode = sim.pick(["", "error", "full", "short"])
    if memory:
        mode = ""
    if mode == "error":
        fs.fail_errno, fs.fail_count = sim.pick([errno.EIO, errno.ENOSPC]), 1
    error = None
    try:
        if memory:
            f = io.BytesIO()
            pb.save(obj, f)
            data = f.getvalue()
        else:
            with open("x", "wb") as f:
                if mode == "error":
                    fs.fail_in = sim.draw(4)
                elif mode == "full":
                    fs.space = sim.pick([0, 10, 200, 30000])
                elif mode == "short":
                    fs.short = True
                pb.save(obj, f)
    except OSError as e:
        error = type(e).__name__
    failed = mode == "error" and fs.fired > 0 or mode == "full" and fs.space <= 0
    fs.calm()
    sim.log(f"save {brief(obj)} to an open file ({mode}) -> {error}")
    if error and not failed:
        sim.violation("save-fails", f"saving fails although nothing fails: {error}")
    if failed and not error and mode == "error":
        sim.violation("error-lost", "a failure while saving to an open file was not reported")
    try:
        if memory:
            f.seek(0)
            o = pb.load(f)
        else:
            with open("x", "rb") as f:
                fs.short = sim.flip()
                o = pb.load(f)
                fs.short = False
    except Exception as e:
        if not error:
            sim.violation("not-loadable", f"loading fails although the save succeeded: {type(e).__name__}: {e}")
    else:
        if not same(o, obj):
            sim.violation("wrong-object", f"loaded a {brief(o)} which was not saved")
    if mode:
        sim.nontrivial()


@scenario("C14", 1)
def releases(sim):
    """files written by one version of a program and read by another one, after restarts and crashes"""
    fs = sim.fs = simrt.FS(sim)
    saved = None       # (version, tag)
    try:
        for n in range(3 + sim.draw(6)):
            v = sim.pick(sorted(objects.RELEASES))
            objects.run_release(v)
            if sim.flip() or saved is None:
                new = (v, 1000 * v + n)
                nested = sim.flip()
                o = objects.Versioned({"tag": new[1]}, v)
                crash = sim.flip(1, 3)
                if crash:
                    fs.crash_in = sim.draw(12)
                try:
                    pb.save([o, n] if nested else o, "state")
                except simrt.SimCrash:
                    pass
                if fs.crashed:
                    fs.restart(sim.flip())
                fs.calm()
                sim.log(f"release {v} saves" + (" and crashes" if crash else ""))
                if crash:
                    if fs.path("state.pbz") not in fs.names:
                        continue
                    objects.run_release(v)      # which version is it?
                    try:
                        r = pb.load("state")
                    except Exception:
                        if saved is None or saved[0] == v:
                            sim.violation("not-loadable", "the file can't be loaded after a crash")
                        continue
                    r = r[0] if isinstance(r, list) else r
                    if r.data["tag"] != new[1]:
                        if saved is None or r.data["tag"] != saved[1]:
                            sim.violation("wrong-object", f"the file holds {r.data} after a crash")
                        continue
                saved = new
                continue
            try:
                r = pb.load("state")
            except Exception as e:
                if v == saved[0]:
                    sim.violation("not-loadable", f"release {v} can't load its own file: {type(e).__name__}: {e}")
                sim.log(f"release {v} refuses the file of release {saved[0]}")
            else:
                r = r[0] if isinstance(r, list) else r
                if v != saved[0]:
                    sim.violation("wrong-object", f"release {v} loads the incompatible file of release {saved[0]} as its own {r.__dict__}")
                if r.data != {"tag": saved[1]} or r.scale != saved[0]:
                    sim.violation("wrong-object", f"loaded {r.__dict__}, saved was {saved}")
                sim.log(f"release {v} loads")
            sim.nontrivial()
    finally:
        objects.run_release(2)
