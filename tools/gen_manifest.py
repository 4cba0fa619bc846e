#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have jobs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C20": "Unpredictability of the operating system's entropy (and of math/rand's seed) is no property of the code's input/output behaviour; no assertion over symbolic values expresses it. Independence of different generators' output given independent draws is claimed under C04, C05 and C15.",
 "C21": "Timing is not represented in the symbolic semantics of Go or of the assembly kernels; the README disclaims constant time.",
 "C22": "Throughput is not represented in the symbolic semantics; it is a measurement, not an assertion over values.",
}
NOTE = {
 "default": "Bounded: holds for all values of the symbolic inputs and draws within the listed jobs (lengths, n, k, schedules, draws), outside of them nothing is shown. Trusted: the engine's semantics of Go SSA and of the assembly (compared with compiled executions in every run), the stubs listed in the evidence, the normal-form rules for GF(2^8) (checked against the SMT solver in raw-mode jobs).",
}
NOTES = json.load(open(os.path.join(V, "tools/notes.json"))) if os.path.exists(os.path.join(V, "tools/notes.json")) else {}
TECH = "symbolic execution of the repository's Go SSA and assembly; assertions decided over all values by SMT (z3) and by GF(2^8)-linear normal forms; counterexamples replayed on the compiled code"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(V, "engine/check/jobs", p + ".txt")):
        checks.append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
            "level_note": (NOTES.get(p, "") + " " + NOTE["default"]).strip()})
    else:
        na.append({"property": p, "reason": "No check yet."})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses and stubs are overlaid at load time from /verif/engine/interp/overlay (go/packages overlay, go build -overlay)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
