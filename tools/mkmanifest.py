#!/usr/bin/env python3
# Writes MANIFEST.json from bin/plan.py and properties.jsonl
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from plan import PLAN
NA = {
 "C24": "Pure single-threaded array arithmetic: no concurrency, time, I/O or other party, so there is no schedule or fault for a simulation to choose.",
 "C25": "Pure single-threaded arithmetic on one dwell: no concurrency, time, I/O or other party for it to depend on; the simulation of the moment engine (C05) decides which pulses go in, not the estimator formulas.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 bin/check " + i, thorough_cmd="VERIF_TIER=thorough python3 bin/check " + i,
            evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection: seeded search over schedules and faults" + pl.get("tech", ""),
            level=pl.get("level", "exploration"), level_note=pl["note"]))
    else: na.append(dict(property=i, reason=NA.get(i, "Not yet built: no check is claimed for it at this point (see DESIGN.md).")))
m = dict(version=1, setup_cmd="python3 bin/build.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the simulator takes the place of the C library under unmodified sources, compiled with access callbacks. Known findings and fixed defects: known-findings.txt. Replay a failure with bin/replay FILE.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
