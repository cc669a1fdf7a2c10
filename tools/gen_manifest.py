#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
NA = {}
try:
    from not_applicable import NA
except ImportError:
    pass
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "exploration",
            "level_note": c.get("note", "Holds on every execution observed in this run (seeded, so repeatable); trusts the compiler, the "
                                "sanitizer runtimes, Eigen and the oracle in harness/. Says nothing about inputs that were not generated.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "monitor not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import checks' && clang++ --version && g++ --version && valgrind --version",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors observe through the public interface, user-supplied callbacks and instrumented builds. "
              "run.py ID --replay FILE repeats a recorded violation."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
