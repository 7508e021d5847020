#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = ("explicit-state exploration of a reference model; every transition replayed on the real engine",
          "exhaustive over bounded machines x reachable configurations x events x conditions x vetoes; every model transition is executed on the real code and compared callback by callback")
MC = ("stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler",
      "all schedules of bounded scenarios within the preemption bound, real library code on an interposed pthread layer with virtual time")
OPS = ("exhaustive enumeration of operation sequences on the real code against a reference model",
       "all operation sequences to a depth under virtual time")
TECH = json.load(open(os.path.join(V, "tools", "claims.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    c = TECH.get(i)
    if c is None:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t = {"engine": ENGINE, "mc": MC, "ops": OPS}.get(c[0]) if isinstance(c, list) else None
    t = t or (c["technique"], c["level_note"])
    checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                   "technique": t[0], "level": "model_checking", "level_note": t[1] + ((" - " + c[1]) if isinstance(c, list) and len(c) > 1 else "")})
m = {"version": 1, "setup_cmd": "python3 -c 'print(\"nothing to prepare: every check builds what it needs\")'", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
