#!/usr/bin/env python3
"""Builds the simulations from /repo's working tree and runs the checks.

  run.py setup                 build everything (optional: every check builds what it needs)
  run.py check ID              run one check (VERIF_SEED, VERIF_TIER from the environment)
  run.py replay FILE           replay a recorded violation
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PB_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4
sys.path.insert(0, VERIF)

SIM_FLAGS = ["-std=c++17", "-O2", "-g", "-w"]
INSTR = ["-fsanitize=thread", "-g1", "-w", "-fno-omit-frame-pointer"]
COMPAT = ["-I" + VERIF + "/support/compat", "-include", "compat.hpp", "-isystem", "/usr/include/eigen3", "-DFMT_SHARED", "-DNDEBUG"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


_tree_cache = {}


def tree_hash(*dirs):
    key = dirs
    if key not in _tree_cache:
        h = []
        for d in dirs:
            for p in sorted(glob.glob(d + "/**/*", recursive=True)):
                if os.path.isfile(p) and re.search(r"\.(hpp|h|inc|inl|cuh|cu|ipp)$", p):
                    h.append(p); h.append(read(p))
        _tree_cache[key] = sha(*h)
    return _tree_cache[key]


class BuildError(Exception):
    pass


class Target:
    def __init__(self, name, harness, repo_sources=(), flags=(), includes=(), opt="-O1", std="-std=c++11", harness_std="-std=c++14", repo_opt=None, libs=(), module_includes=()):
        self.name, self.harness, self.repo_sources, self.flags, self.includes = name, harness, repo_sources, list(flags), list(includes)
        self.opt, self.std, self.harness_std, self.libs = opt, std, harness_std, list(libs)
        self.repo_opt = repo_opt or opt
        self.module_includes = list(module_includes)

    def units(self):
        """(source, command without source and output, hash key)"""
        incs = ["-I" + d for d in self.includes] + ["-I" + REPO + "/cppcore/include"]
        headers = tree_hash(REPO + "/cppcore/include", REPO + "/cppmodule/include", VERIF + "/support", VERIF + "/sim", VERIF + "/harness")
        units = []
        for src in ("sim/rt.cpp", "sim/driver.cpp"):
            p = os.path.join(VERIF, src)
            cmd = ["g++"] + SIM_FLAGS
            units.append((p, cmd, sha(" ".join(cmd), read(p), tree_hash(VERIF + "/sim")), True))
        module_incs = ["-I" + d for d in self.module_includes]
        for src in self.harness:
            p = os.path.join(VERIF, src)
            cmd = ["g++", self.harness_std, self.opt] + INSTR + self.flags + module_incs + incs
            units.append((p, cmd, sha(" ".join(cmd), read(p), headers), False))
        patterns = self.repo_sources
        srcs = []
        for pat in patterns:
            srcs += sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
        for p in srcs:
            module = "/cppmodule/" in p
            cmd = ["g++", self.harness_std if module else self.std, self.repo_opt] + INSTR + self.flags + (module_incs if module else []) + incs
            units.append((p, cmd, sha(" ".join(cmd), p, read(p), headers), False))
        return units

    def build(self):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        os.makedirs(BUILD + "/bin", exist_ok=True)
        units = self.units()
        key = sha(*[u[2] for u in units], " ".join(self.libs), "link2")
        exe = f"{BUILD}/bin/{self.name}-{key}"
        if os.path.exists(exe):
            return exe
        objs, todo = [], []
        for src, cmd, h, is_rt in units:
            obj = f"{BUILD}/obj/{os.path.basename(src)}-{h}.o"
            objs.append(obj)
            if not os.path.exists(obj):
                todo.append((src, cmd, obj, is_rt))

        def compile_one(t):
            src, cmd, obj, is_rt = t
            tmp = obj + f".tmp{os.getpid()}"
            r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"{src}:\n{r.stderr[-4000:]}")
            if is_rt:
                subprocess.run(["objcopy"] + [f"--redefine-sym={f}=__real_{f}" for f in ("memcpy", "memmove", "memset")] + [tmp], check=True)
            os.replace(tmp, obj)
        todo.sort(key=lambda t: -os.path.getsize(t[0]))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(compile_one, todo))
        tmp = exe + f".tmp{os.getpid()}"
        r = subprocess.run(["g++", "-no-pie", "-rdynamic", "-o", tmp] + objs + ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl", "-lpthread"] + self.libs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link: " + r.stderr[-4000:])
        os.replace(tmp, exe)
        return exe


CORE = ["cppcore/src/**/*.cpp"]
MODULE = ["cppmodule/src/%s.cpp" % n for n in ("parallel", "kpm", "model", "modifiers", "shape", "system", "leads", "lattice", "solver")]
SHIM = [VERIF + "/support/simdpp_shim"]
TARGETS = {
    "thread": Target("thread", ["harness/thread_harness.cpp"]),
    "core": Target("core", ["harness/core_model.cpp", "harness/core_kpm.cpp", "harness/core_solver.cpp", "harness/core_lattice.cpp"], repo_sources=CORE, flags=COMPAT, includes=SHIM, libs=["-lfmt"]),
    "module": Target("module", ["harness/module_harness.cpp"], repo_sources=CORE + MODULE, flags=COMPAT, includes=SHIM, module_includes=[VERIF + "/support/fakepy", REPO + "/cppmodule/include"], libs=["-lfmt"]),
}

# id: kind, target, quick (runs, seconds), thorough (runs, seconds), what ran as real code / stub
REAL_THREAD = "real: cppcore/include/detail/thread.hpp (compiled from /repo with access instrumentation), libstdc++ threads layer"
STUB_OS = "stub (simulator): thread scheduling, mutexes, condition variables, clock, allocator"
REAL_CORE = "real: the whole of cppcore (src/**/*.cpp and headers, compiled from /repo with access instrumentation), Eigen, fmt, libstdc++"
STUB_CORE = "stub (simulator): thread scheduling, mutexes, condition variables, clocks, allocator; user callbacks come from the workload; simdpp is a scalar stand-in (support/simdpp_shim)"
REAL_PY = "real: the Python package pybinding from /repo, numpy, scipy, gzip, pickle, io buffering"
STUB_PY = "stub (simulator): file system, clocks, thread scheduling and locks at every line and call of pybinding, terminal and other output streams; the C++ extension module and matplotlib are stand-ins"


def part(target, quick, thorough, real, stub):
    return dict(target=target, quick=quick, thorough=thorough, real=real, stub=stub)


CHECKS = {
    "C01": dict(parts=[part(target="thread", quick=(60000, 60), thorough=(4000000, 780), real=REAL_THREAD, stub=STUB_OS)]),
    "C02": dict(parts=[part(target="thread", quick=(60000, 60), thorough=(4000000, 780), real=REAL_THREAD, stub=STUB_OS)]),
    "C03": dict(parts=[part(target="thread", quick=(60000, 60), thorough=(4000000, 780), real=REAL_THREAD, stub=STUB_OS)]),
    "C04": dict(parts=[part(target="thread", quick=(80000, 60), thorough=(5000000, 780), real=REAL_THREAD, stub=STUB_OS)]),
    "C05": dict(parts=[part(target="core", quick=(20000, 60), thorough=(2000000, 690), real=REAL_CORE, stub=STUB_CORE),
                       part("python", quick=(10000, 20), thorough=(2000000, 90), real=REAL_PY, stub=STUB_PY + "; the extension module's KPM object is a model of cppcore/src/KPM.cpp")]),
    "C06": dict(parts=[part(target="core", quick=(20000, 60), thorough=(2000000, 780), real=REAL_CORE, stub=STUB_CORE)]),
    "C07": dict(parts=[part(target="core", quick=(20000, 60), thorough=(2000000, 690), real=REAL_CORE, stub=STUB_CORE),
                       part("python", quick=(10000, 20), thorough=(2000000, 90), real=REAL_PY, stub=STUB_PY + "; the extension module's KPM object is a model of cppcore/src/KPM.cpp")]),
    "C08": dict(parts=[part(target="core", quick=(20000, 60), thorough=(2000000, 780), real=REAL_CORE, stub=STUB_CORE)]),
    "C09": dict(parts=[part(target="core", quick=(20000, 60), thorough=(3000000, 390), real=REAL_CORE, stub=STUB_CORE + "; the eigensolver is a dense stand-in for FEAST (which needs MKL) with injected failures"),
                       part("python", quick=(15000, 40), thorough=(3000000, 390), real=REAL_PY, stub=STUB_PY + "; the model, its system and a solver of the extension module are stand-ins")]),
    "C10": dict(parts=[part(target="core", quick=(25000, 60), thorough=(2000000, 780), real=REAL_CORE, stub=STUB_CORE)]),
    "C11": dict(parts=[part(target="module", quick=(80000, 60), thorough=(2000000, 780), real=REAL_CORE + "; cppmodule's parallel, kpm, model, modifiers and shape bindings",
                            stub=STUB_CORE + "; pybind11 and the Python interpreter (objects, references, the interpreter lock) are a stand-in (support/fakepy), Python functions come from the workload")]),
    "C18": dict(parts=[part(target="module", quick=(30000, 60), thorough=(2000000, 780), real=REAL_CORE + "; cppmodule's kpm, model, modifiers, shape, system, leads and solver bindings",
                            stub=STUB_CORE + "; the eigensolver is a dense stand-in; pybind11 and the Python interpreter (objects, references, the interpreter lock) are a stand-in (support/fakepy)")]),
    "C27": dict(parts=[part(target="module", quick=(30000, 60), thorough=(2000000, 780), real=REAL_CORE + "; cppmodule's lattice, leads, model, modifiers, shape and system bindings and its array casters",
                            stub=STUB_CORE + "; pybind11, NumPy arrays and the Python interpreter (objects, references, the interpreter lock) are a stand-in (support/fakepy), Python functions come from the workload")]),
    "C12": dict(parts=[part("python", quick=(24000, 60), thorough=(4000000, 780), real=REAL_PY, stub=STUB_PY + "; the extension module's parallel_for is a model of cppcore/include/detail/thread.hpp, which C01, C02 and C17 check")]),
    "C13": dict(parts=[part("python", quick=(80000, 60), thorough=(4000000, 780), real=REAL_PY, stub=STUB_PY)]),
    "C14": dict(parts=[part("python", quick=(20000, 50), thorough=(2000000, 390), real=REAL_PY, stub=STUB_PY),
                       part(target="module", quick=(60000, 40), thorough=(2000000, 390), real=REAL_CORE + "; cppmodule's system and lattice bindings",
                            stub=STUB_CORE + "; pybind11, the interpreter and pickle are a stand-in (support/fakepy)")]),
    "C15": dict(parts=[part(target="core", quick=(25000, 60), thorough=(1000000, 780), real=REAL_CORE, stub=STUB_CORE)]),
    "C16": dict(parts=[part(target="core", quick=(20000, 60), thorough=(3000000, 390), real=REAL_CORE, stub=STUB_CORE + "; the eigensolver is a stand-in which takes simulated time"),
                       part("python", quick=(30000, 40), thorough=(3000000, 390), real=REAL_PY, stub=STUB_PY)]),
    "C19": dict(parts=[part("python", quick=(24000, 45), thorough=(2000000, 780), real=REAL_PY, stub=STUB_PY)]),
    "C25": dict(parts=[part("python", quick=(100000, 40), thorough=(8000000, 780), real=REAL_PY, stub=STUB_PY)]),
    "C26": dict(parts=[part(target="core", quick=(120000, 60), thorough=(4000000, 780), real=REAL_CORE, stub=STUB_CORE)]),
    "C17": dict(parts=[part(target="thread", quick=(60000, 60), thorough=(4000000, 780), real=REAL_THREAD, stub=STUB_OS)]),
}
RULE = ("one case = one simulated execution: workload, schedule and faults drawn from one seed; non-trivial = the scenario's own criterion held "
        "(several jobs and threads in play, a fault fired inside an operation, ...); distinct = distinct (scenario, workload draws, order of synchronisation events) among the non-trivial ones")


def known_findings(prop):
    """lines 'finding: property=<id> id=<signature> <text>' of KNOWN_FINDINGS.txt"""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage, "wall_s": round(wall, 2),
          "violations": violations, "assumptions": assumptions}
    tmp = f"{VERIF}/evidence/{prop}.json.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{prop}.json")


def symbolise(exe, text):
    """replace <0x...> return addresses with function and line"""
    addrs = sorted(set(re.findall(r"<(0x[0-9a-f]+)>", text)))
    if not addrs:
        return text
    try:
        r = subprocess.run(["addr2line", "-Cfse", exe] + [hex(int(a, 16) - 1) for a in addrs], capture_output=True, text=True, timeout=60)
        lines = r.stdout.splitlines()
        for i, a in enumerate(addrs):
            fn = re.sub(r"<.*>", "<>", lines[2 * i])[:80]
            text = text.replace(f"<{a}>", f"\n    {fn} at {lines[2 * i + 1]}")
    except Exception:
        pass
    return text


ASSUMPTIONS = [
    "executions are sampled, not enumerated: a clean batch is evidence, not proof",
    "memory is sequentially consistent in the simulator; weaker orderings are covered only through data race detection",
    "code inside libstdc++.so and libc is not instrumented",
]


class PythonTarget:
    """pysim/main.py: the real pybinding package, nothing to build"""
    name = "python"

    def build(self):
        return os.path.join(VERIF, "pysim", "main.py")

    def command(self, exe):
        return ["python3-vt", "-B", exe]


Target.command = lambda self, exe: [exe]
TARGETS["python"] = PythonTarget()


def merge(outs):
    """one result out of those of the parts of a check (each a simulator of its own)"""
    d = dict(outs[0])
    for o in outs[1:]:
        for k, v in o.items():
            if k in ("faults", "probes"):
                d[k] = {n: d[k].get(n, 0) + v.get(n, 0) for n in {**d[k], **v}}
            elif k == "findings":
                d[k] = {**d[k], **v}
            elif k == "max_threads":
                d[k] = max(d[k], v)
            elif k == "truncated":
                d[k] = d[k] or v
            elif isinstance(v, str):
                d[k] = v
            else:       # numbers, lists
                d[k] = d[k] + v if k in d else v
    return d


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = CHECKS[prop]
    t0 = time.time()
    print(f"{prop}: VERIF_SEED={seed} tier={tier}", flush=True)
    known = known_findings(prop)
    outs, result, t_build, output, per_part = [], 0, 0, "", {}
    for part in c["parts"]:
        target = TARGETS[part["target"]]
        t1 = time.time()
        try:
            exe = target.build()
        except BuildError as e:
            print("build failed:", e, file=sys.stderr)
            return 2
        t_build += time.time() - t1
        runs, seconds = part["thorough"] if tier == "thorough" else part["quick"]
        os.makedirs(VERIF + "/replays", exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        out = f"{BUILD}/{prop}-{os.getpid()}.json"
        cmd = target.command(exe) + ["--property", prop, "--seed", str(seed), "--runs", str(runs), "--seconds", str(seconds), "--workers", str(JOBS),
                                     "--out", out, "--replay-dir", VERIF + "/replays"] + (["--thorough"] if tier == "thorough" else [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        sys.stderr.write(r.stderr)
        if not os.path.exists(out) or r.returncode not in (0, 1):
            print(r.stdout)
            print(f"no result from the simulator ({target.name})", file=sys.stderr)
            return 2
        outs.append(json.load(open(out)))
        os.remove(out)
        per_part[target.name] = {"runs": outs[-1]["runs"], "distinct": outs[-1]["distinct"], "search_s": round(outs[-1]["search_s"], 1)}
        if r.returncode == 1:
            result = 1
            output = symbolise(exe, r.stdout) if target.name != "python" else r.stdout
            break
    d = merge(outs)
    rate = d["runs"] / max(d["search_s"], 1e-9) * 3600
    coverage = {
        "evaluations": d["runs"], "distinct_nontrivial": d["distinct"], "rule": RULE, "samples": d["samples"] or ["-"],
        "nontrivial_runs": d["nontrivial"], "simulated_runs_per_hour": round(rate), "seeds": f"{d['runs']} run seeds derived from VERIF_SEED={seed}",
        "simulated_seconds": d["sim_seconds"], "sync_events": d["syncs"], "instrumented_steps": d["steps"], "context_switches": d["switches"], "preemptions": d["preemptions"],
        "max_threads": d["max_threads"], "faults_fired": d["faults"], "runs_with_a_fault": d["runs_with_fault"], "rare_conditions_hit": d["probes"],
        "determinism_audit": f"{d['audited_twice']} seeds run twice, {d['audited_fresh_process']} again in a fresh process with one worker: all event logs identical",
        "components": sum([[p["real"], p["stub"]] for p in c["parts"]], []), "parts": per_part,
        "build_s": round(t_build, 1), "search_s": round(d["search_s"], 1), "stopped_by_time_limit": d["truncated"],
    }
    unlisted = [k for k in d["findings"] if k not in known]
    for k, text in known.items():
        print(f"KNOWN-FINDING: property={prop} {text}" + (f" (met in {d['findings'][k]['count']} runs)" if k in d["findings"] else " (not met in this run)"))
    coverage["known_findings_met"] = {k: v["count"] for k, v in d["findings"].items()}
    write_evidence(prop, tier, seed, coverage, time.time() - t0, result, ASSUMPTIONS + c.get("assume", []))
    if unlisted:
        print("finding without an entry in KNOWN_FINDINGS.txt:", unlisted, file=sys.stderr)
        return 2
    if result:
        print(output, end="")
        return 1
    print(f"{prop}: held in {d['runs']} simulated runs ({d['distinct']} distinct non-trivial executions), {rate / 3600:.0f} runs/s, build {t_build:.0f} s, search {d['search_s']:.0f} s")
    return 0


def replay(path):
    text = open(path).read()
    if text.startswith("{"):
        return subprocess.run(TARGETS["python"].command(TARGETS["python"].build()) + ["--replay", path]).returncode
    prop = re.match(r"property (\S+)", text).group(1)
    name = next(p["target"] for p in CHECKS[prop]["parts"] if p["target"] != "python")
    exe = TARGETS[name].build()
    r = subprocess.run([exe, "--replay", path], capture_output=True, text=True)
    print(symbolise(exe, r.stdout), end="")
    sys.stderr.write(r.stderr)
    return r.returncode


def setup():
    for t in TARGETS.values():
        t0 = time.time()
        t.build()
        print(f"built {t.name} in {time.time() - t0:.0f} s", flush=True)
    return 0


if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "setup":
        sys.exit(setup())
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(__doc__)
