#!/usr/bin/env python3
"""Writes ../MANIFEST.json: every property of properties.jsonl that the harness has a check for is claimed."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
built = {}
for l in subprocess.check_output([os.path.join(root, "run.sh"), "list"], text=True).splitlines():
    f = l.split()
    built.setdefault(f[0], []).append(f[1])
TECH = {
    "U01": "property-based testing: generated arithmetic programs against math/big rationals, round-trips, generated and mutated text against an own grammar",
    "U02": "property-based testing: generated operation sequences against a set/list model",
    "M03": "property-based testing: generated amounts and parameters against exact arithmetic",
    "S01": "model-based property testing: generated schedules with re-entrant and failing handlers against a priority-queue model",
    "G01": "property-based testing: differential runs of generated block histories on several nodes, with restarts and interleaved reads",
    "G02": "property-based testing: export/import round-trip and metamorphic continuation of generated histories",
    "G03": "property-based testing: complete state diff around generated refused transactions and read-only requests",
    "C01": "property-based testing: generated command lines, well-formed and malformed, against an independent reading of their arguments, on generated chains",
    "C02": "property-based testing: generated query command lines against direct answers of the chain over generated histories",
    "T01": "property-based testing: generated histories, the coins the events tell of against the balances of every account after every step",
    "T02": "property-based testing: generated histories, the state carried on by the events against the state after every step",
    "G06": "property-based testing: generated histories with software upgrades, differential against a model of every migration, restarts with old and new binaries",
    "G04": "property-based fuzzing: structured and byte-level mutation of transactions, queries and histories against a no-halt oracle",
}
DEFAULT = "stateful property-based testing: generated genesis states and block histories driven through ABCI, checked step by step against an independent model"
NOTE = "Exploration by generated-input search with an explicit oracle and shrinking; bounded by the generated sizes described in DESIGN.md and by the assumptions in the evidence file."
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": [], "not_applicable": [],
    "notes": "All checks are one Go program (harness/), rebuilt by run.sh against /repo's working tree on every run.",
}
for p in props:
    i = p["id"]
    if i in built:
        m["checks"].append({
            "property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "technique": TECH.get(i, DEFAULT), "level": "exploration", "level_note": NOTE,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "no check has been built for this property yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
