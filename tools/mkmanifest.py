#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS, TECH
NA = {
 "C22": "AES, Twofish and Salsa20 are pure functions of their input: no schedule, clock, I/O, fault or other party for a simulation to control. (A wrong cipher would still be noticed by C06 and C07, which compare with an independent implementation.)",
 "C23": "Base64 encoding and decoding is a pure function of its input: nothing for a simulation to schedule or fail.",
 "C24": "JSON printing is a pure function of the object graph: nothing for a simulation to schedule or fail.",
 "C25": "Equality of entries and groups is a pure function of two values: nothing for a simulation to schedule or fail.",
}
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
for p in sorted(PROPS):
    m["checks"].append({
        "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: " + TECH[p], "level": "exploration",
        "level_note": "seeded search over simulated runs, not exhaustive; every run is a pure function of its seed and the code, violations are minimised and replayed in a fresh process"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
