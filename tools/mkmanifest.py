#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import config
PURE = ("pure function of the source text: no schedule, clock, fault, I/O result or interleaving appears in it, so there is "
        "nothing for a simulator to decide; generating inputs for it would be input fuzzing, not simulation")
NA = {p: PURE for p in ("C12", "C13", "C14", "C15", "C16", "C17", "C18")}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in config.CHECKS:
        c = config.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"],
                       "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are system calls (ptrace), compiler instrumentation callbacks, the allocator and exit, all supplied by the simulators' own builds of /repo's sources."},
          open(V + "/MANIFEST.json", "w"), indent=1)
