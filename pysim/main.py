#!/usr/bin/env python3-vt
"""Search driver of the Python simulations: same command line and result file as the C++ driver.

  main.py --property ID --seed S --runs N --seconds T --workers W --out FILE --replay-dir DIR [--thorough]
  main.py --replay FILE
  main.py --audit ID SEED THOROUGH     print the event hash of one run
"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ.update(PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    os.execv(sys.executable, [sys.executable] + sys.argv)
import argparse, gc, hashlib, json, mmap, signal, struct, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(3000)
import simrt, world

clock = time.monotonic
world.load()
import scenarios
scenarios.load_all()
simrt.instrument()


def run_seed(prop, base, i):
    return int.from_bytes(hashlib.blake2b(f"{prop} {base} {i}".encode(), digest_size=6).digest(), "big")


class Result:
    pass


def too_long(*_):
    raise simrt.Violation("hang", "30 s of processor time without an end" + (": " + simrt.current.text if simrt.current else ""))


signal.signal(signal.SIGPROF, too_long)


def run_one(prop, seed, thorough, replay=None):
    sim = simrt.Sim(seed, thorough, replay)
    r = Result()
    r.sim, r.violation = sim, None
    out, err = sys.stdout, sys.stderr
    simrt.interrupt_in = None
    choices = [s for s in scenarios.ALL[prop] for _ in range(s.weight)]
    simrt.current = sim
    r.scenario = "-"
    signal.setitimer(signal.ITIMER_PROF, 30)
    sys.stdout, sys.stderr = simrt.stdout, simrt.stderr
    try:
        s = choices[sim.draw(len(choices))]
        r.scenario = s.name
        try:
            s.fn(sim)
        finally:
            simrt.current.sched.finish()
    except simrt.Violation as v:
        r.violation = (v.kind, v.text)
    except (simrt.SimCrash, simrt.SimAbort) as e:
        r.violation = ("harness-error", repr(e))
    except Exception as e:
        import traceback
        r.violation = ("unexpected-" + type(e).__name__, "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:]) + " | " + sim.text)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        simrt.current = None
        sys.stdout, sys.stderr = out, err
    if sim.violated:
        r.violation = (sim.violated.kind, sim.violated.text)
    if r.violation:
        sim.mix("violation", r.violation[0])
    r.hash = sim.hash.hexdigest()
    sim.keep.clear()
    return r


now = mmap.mmap(-1, 4096)      # the run each worker is at


def worker(args, k, path):
    gc.disable()
    t0 = clock()
    tot = dict(runs=0, nontrivial=0, sim_seconds=0.0, syncs=0, steps=0, switches=0, preemptions=0, max_threads=0, faults={}, runs_with_fault=0, probes={},
               findings={}, distinct=[], samples=[], violations=[], truncated=False, audited=0, fresh=[])
    seen = set()
    i = k
    while i < args.runs:
        if clock() - t0 > args.seconds:
            tot["truncated"] = True
            break
        seed = run_seed(args.property, args.seed, i)
        struct.pack_into("QQ", now, 16 * k, i, seed)
        r = run_one(args.property, seed, args.thorough)
        sim = r.sim
        if (i // args.workers) % 64 == 0:       # determinism
            again = run_one(args.property, seed, args.thorough)
            tot["audited"] += 1
            if again.hash != r.hash:
                tot["violations"].append([i, seed, "nondeterminism", f"two runs of seed {seed} differ (scenario {r.scenario})", list(sim.trace), r.scenario])
                break
            if len(tot["fresh"]) < 1:
                tot["fresh"].append([seed, r.hash])
        tot["runs"] += 1
        tot["nontrivial"] += sim.is_nontrivial
        tot["sim_seconds"] += (sim.mono - sim.start_mono) / 1e9
        tot["steps"] += sim.steps or sim.nevents
        tot["switches"] += sim.switches
        tot["syncs"] += sim.nevents
        tot["max_threads"] = max(tot["max_threads"], len(sim.sched.threads))
        tot["runs_with_fault"] += bool(sim.faults)
        for a, b in ((sim.faults, "faults"), (sim.probes, "probes")):
            for n, c in a.items():
                tot[b][n] = tot[b].get(n, 0) + c
        for key, text in sim.findings.items():
            f = tot["findings"].setdefault(key, {"count": 0, "text": text})
            f["count"] += 1
        if sim.is_nontrivial:
            seen.add(r.hash)
            if len(tot["samples"]) < 3 and sim.text:
                tot["samples"].append(f"{r.scenario} seed {seed}: {sim.text}"[:600])
        if r.violation:
            tot["violations"].append([i, seed, r.violation[0], r.violation[1], list(sim.trace), r.scenario])
            break
        if i % 97 == 0:
            gc.collect()
        i += args.workers
    tot["distinct"] = sorted(seen)
    tot["search_s"] = clock() - t0
    with open(path, "w") as f:
        json.dump(tot, f)


def minimise(prop, thorough, kind, trace, scenario, budget=45.0):
    """fewer and smaller choices with the same violation"""
    t0 = clock()
    best = list(trace)

    def fails(t):
        r = run_one(prop, 0, thorough, t)
        return r.violation and r.violation[0] == kind and r.scenario == scenario and list(r.sim.trace)
    size = max(1, len(best) // 2)
    while size >= 1 and clock() - t0 < budget:
        i, changed = 1, False
        while i < len(best) and clock() - t0 < budget:
            for cand in (best[:i] + best[i + size:], best[:i] + [0] * min(size, len(best) - i) + best[i + size:]):
                if cand == best or (len(cand) == len(best) and not any(best[i:i + size])):
                    continue
                t = fails(cand)
                if t and (len(t), sum(t)) < (len(best), sum(best)):
                    best, changed = t, True
                    break
            else:
                i += size
        if not changed:
            size //= 2
    while best and best[-1] == 0:
        best.pop()
    return best


def search(args):
    os.makedirs(args.replay_dir, exist_ok=True)
    t0 = clock()
    pids, paths = [], []
    for k in range(args.workers):
        path = f"{args.out}.w{k}"
        paths.append(path)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(args, k, path)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 3
            os._exit(code)
        pids.append(pid)
    bad, crashes = False, []
    for k, p in enumerate(pids):
        _, status = os.waitpid(p, 0)
        if os.WIFSIGNALED(status):
            i, seed = struct.unpack_from("QQ", now, 16 * k)
            pid = os.fork()
            if pid == 0:        # once more, the run by itself
                run_one(args.property, seed, args.thorough)
                gc.collect()
                os._exit(0)
            _, again = os.waitpid(pid, 0)
            if os.WIFSIGNALED(again):
                crashes.append((i, seed, os.WTERMSIG(again)))
                continue
        bad |= status != 0
    if crashes:
        i, seed, sig = min(crashes)
        path = os.path.join(args.replay_dir, f"{args.property}-py-{seed}.json")
        json.dump(dict(property=args.property, scenario="-", seed=seed, thorough=args.thorough, kind="crash", violation=f"the process is killed by signal {sig}", choices=None), open(path, "w"), indent=1)
        json.dump(dict(search_s=clock() - t0, distinct=0, samples=[], truncated=True, max_threads=0, faults={}, probes={}, findings={}, runs=i, nontrivial=0, sim_seconds=0, syncs=0, steps=0,
                       switches=0, preemptions=0, runs_with_fault=0, audited_twice=0, audited_fresh_process=0), open(args.out, "w"))
        print(f"VIOLATION property={args.property} replay={path}\n  crash: run {i}, seed {seed} is killed by signal {sig}")
        return 1
    if bad:
        print("a worker of the Python simulation failed", file=sys.stderr)
        return 2
    parts = []
    for p in paths:
        parts.append(json.load(open(p)))
        os.remove(p)
    out = dict(search_s=clock() - t0, distinct=len(set().union(*[set(p["distinct"]) for p in parts])), samples=sum([p["samples"][:1] for p in parts], [])[:5],
               truncated=any(p["truncated"] for p in parts), max_threads=max(p["max_threads"] for p in parts), faults={}, probes={}, findings={})
    for key in ("runs", "nontrivial", "sim_seconds", "syncs", "steps", "switches", "preemptions", "runs_with_fault"):
        out[key] = sum(p[key] for p in parts)
    for p in parts:
        for b in ("faults", "probes"):
            for n, c in p[b].items():
                out[b][n] = out[b].get(n, 0) + c
        for key, f in p["findings"].items():
            o = out["findings"].setdefault(key, {"count": 0, "text": f["text"]})
            o["count"] += f["count"]
    out["audited_twice"] = sum(p["audited"] for p in parts)
    violations = sorted(v for p in parts for v in p["violations"])
    fresh = [f for p in parts for f in p["fresh"]][:3]
    out["audited_fresh_process"] = 0
    if not violations:
        for seed, h in fresh:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), "--audit", args.property, str(seed), str(int(args.thorough))], capture_output=True, text=True)
            if r.stdout.strip() != h:
                violations.append([0, seed, "nondeterminism", f"seed {seed} gives another execution in a fresh process {r.stdout} {r.stderr[-2000:]}", [], "-"])
                break
            out["audited_fresh_process"] += 1
    code = 0
    if violations:
        i, seed, kind, text, trace, scenario = violations[0]
        path = os.path.join(args.replay_dir, f"{args.property}-py-{seed}.json")
        if kind != "nondeterminism":
            small = minimise(args.property, args.thorough, kind, trace, scenario)
            r = run_one(args.property, 0, args.thorough, small)
            if r.violation and r.violation[0] == kind:
                trace, text = small, r.violation[1]
        json.dump(dict(property=args.property, scenario=scenario, seed=seed, thorough=args.thorough, kind=kind, violation=text, choices=trace), open(path, "w"), indent=1)
        print(f"VIOLATION property={args.property} replay={path}")
        print(f"  {kind}: {text}\n  scenario {scenario}, seed {seed}, {len(trace)} choices after minimising")
        code = 1
    json.dump(out, open(args.out, "w"))
    return code


def replay(path):
    d = json.load(open(path))
    r = run_one(d["property"], d["seed"], d["thorough"], d["choices"])
    print("execution:", r.sim.text)
    print("faults:", dict(r.sim.faults))
    if r.violation:
        print(f"VIOLATION property={d['property']} replay={path}\n  {r.violation[0]}: {r.violation[1]}")
        return 1
    print("no violation")
    return 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--runs", type=int, default=1000)
    ap.add_argument("--seconds", type=float, default=30)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--out", default="/tmp/pysim.json")
    ap.add_argument("--replay-dir", default="/tmp")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--audit", nargs=3)
    args = ap.parse_args()
    if args.audit:
        gc.disable()
        print(run_one(args.audit[0], int(args.audit[1]), args.audit[2] == "1").hash)
        sys.exit(0)
    if args.replay:
        sys.exit(replay(args.replay))
    sys.exit(search(args))
