#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
E2E = "real Sender and Receiver on a controlled scheduler with virtual time, network and file-system faults; "
T = {}  # property -> (technique, level, note)
exec(open(os.path.join(V, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, lv, note = T[i]
        checks.append({"property": i, "quick_cmd": f"python3 tools/run.py {i} --tier quick", "thorough_cmd": f"python3 tools/run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/run.py --setup", "checks": checks, "not_applicable": na}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
