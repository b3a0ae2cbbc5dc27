#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ADV = "deterministic simulation: seeded fault injection on the prover's advice channel, refinement against an IEEE-754 model"
ADVNOTE = "Seeded sampling of circuit programs, configurations, inputs and dishonest provers; every violation is re-executed on the real gnark solver before it is reported. Assumes the lookup/range argument is sound up to its cryptographic error; a dishonest prover is represented by searched fault sequences, not by all of them."
checks = [
 ("C01", ADV, ADVNOTE), ("C02", ADV, ADVNOTE), ("C03", ADV, ADVNOTE), ("C04", ADV, ADVNOTE),
 ("C05", ADV, ADVNOTE), ("C06", ADV, ADVNOTE), ("C07", ADV, ADVNOTE), ("C08", ADV, ADVNOTE),
]
extra = os.path.join(V, "tools", "more_checks.json")
if os.path.exists(extra):
    checks += [tuple(x) for x in json.load(open(extra))]
na = {
 "C26": "pure function of its input: no advice, schedule, clock, I/O or fault takes part, so there is nothing for a simulator to decide (guide: not a simulation target)",
 "C27": "pure function of its input: no advice, schedule, clock, I/O or fault takes part, so there is nothing for a simulator to decide",
 "C28": "a static count over a finished circuit definition; no nondeterminism or fault takes part in it",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
claimed = [c[0] for c in checks]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": c, "quick_cmd": f"./run.sh {c}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {c}",
   "evidence_file": f"evidence/{c}.json", "technique": t, "level": "exploration", "level_note": n,
 } for c, t, n in sorted(checks)],
 "not_applicable": [{"property": i, "reason": na.get(i, "check not built yet")} for i in ids if i not in claimed],
 "notes": "No hooks in /repo: seams are frontend.API, solver.Hint and a build overlay generated by sim/cmd/zkgen from the working tree. ./run.sh --replay FILE re-executes a reported violation.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
