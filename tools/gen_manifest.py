#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = """C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29""".split()
NOTE = {
}
NA = {
 "N01": "a pure function of its input: no schedule, fault, clock, I/O or second party is involved, so simulation would only be input generation (the circuits of C07, C08 and C18 use these operators incidentally)",
 "N02": "pure functions of their input with no schedule, fault or second party (their in-circuit counterparts are decided under C22)",
 "N03": "a timing side channel of the real machine; the simulator replaces time and decides nothing about performance",
}
BASE = ("seeded search over schedules, workloads and faults of the real code in a deterministic simulator; sampling, not proof. "
        "Trusts the baton scheduler (sequentially consistent memory only: weak-memory reorderings are not explored), the rustc/LLVM instrumentation and the oracle of this property. ")
checks = []
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
for p in props:
    if p["id"] in CLAIMED:
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": BASE + NOTE.get(p["id"], ""),
        })
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in CLAIMED]
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. No hooks are needed in /repo: the simulator owns threads, futexes, clock and OS randomness at the libc boundary of its own binary and instruments bellman, groth16, rayon and crossbeam at compile time.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
