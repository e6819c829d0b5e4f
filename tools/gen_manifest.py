#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in run.py and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
PURE = ("a pure function of its input: no schedule, clock, I/O, failure or history is involved, so there is nothing for deterministic simulation to decide; "
        "generating inputs under simulator vocabulary would be a different technique")
NA = {
    "C20": PURE + " (the reference model of C08 recomputes small systems, as an oracle for histories only)",
    "C21": PURE + " (the reference model of C08 recomputes small matrices, as an oracle for histories only)",
    "C22": PURE, "C23": PURE, "C24": PURE,
}
TECH = {
    "default": "deterministic simulation: seeded scheduler over real code, fault injection, reference-model oracles",
}
NOTES = {}
checks = []
for pid in sorted(run.CHECKS):
    c = run.CHECKS[pid]
    checks.append({
        "property": pid, "quick_cmd": f"python3 run.py check {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {pid}",
        "technique": c.get("technique", TECH["default"]), "level": "exploration",
        "level_note": c.get("note", "Seeded search over schedules and fault sequences of the real code with every source of nondeterminism under the simulator; sampling, not proof. "
                            "Trusts the simulator runtime (sim/rt.cpp), the harness oracles and sequential consistency outside of detected data races."),
    })
na = [{"property": p, "reason": NA.get(p, "not claimed yet: check under construction")} for p in sorted(props) if p not in run.CHECKS]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are compiler instrumentation callbacks and interposed pthread, clock and allocation functions (sim/rt.cpp), and stand-in modules for the Python part. KNOWN_FINDINGS.txt lists findings and repairs."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
