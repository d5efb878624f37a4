#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools/levels.json")))
NA = {
 "C21": "Equality of two revisions' byte formats is a pure function of the value with no schedule, clock, fault or interleaving in it; it needs differential testing against a released artefact, not simulation.",
 "C22": "It quantifies over programs (structure definitions fed to a compile-time macro); nothing in it runs under a schedule or fault that a simulator could choose.",
}
checks = []
for p in sorted(NOTES):
    checks.append({
        "property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
        "technique": "deterministic simulation with fault injection: " + NOTES[p]["t"],
        "level": "exploration", "level_note": NOTES[p]["n"],
    })
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "No check yet.")} for p in props if p not in NOTES]
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator interposes at link time (libc calls) and through the compiler's atomics instrumentation, on a build of the unmodified crate. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
