#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and sim/checks.py."""
import json, os, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, d + "/sim")
import checks as C
NA = {
 "C40": "pure function of its operands: no schedule, time, I/O or fault for a simulator to control, and sampling operands is not simulation",
 "C41": "pure function of its operands; nothing for a simulator to schedule or fail",
 "C42": "pure function of its operands (the batched, parallel pairing is C24)",
 "C43": "pure function of its input; nothing for a simulator to schedule or fail",
 "C44": "pure function of the text; nothing for a simulator to schedule or fail",
 "C45": "single-threaded pure computation on the circuit definition; nothing for a simulator to schedule or fail",
 "C46": "no CUDA toolchain or device here, and device scheduling is outside any seam this sandbox offers",
}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for line in open(d + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in C.PROPS:
        q = C.PROPS[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 /verif/check.py %s quick" % p,
            "thorough_cmd": "python3 /verif/check.py %s thorough" % p,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and inputs of the real code" ,
            "level": "exploration",
            "level_note": q.get("note", "real code from /repo under a simulated OpenMP/thread scheduler, heap, clock and file system; oracle: independent naive model and schedule-independence")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
