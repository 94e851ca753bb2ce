#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
# property -> (script, technique, level_note)
TABLE = json.load(open(os.path.join(ROOT, "tools", "checks.json")))
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    e = TABLE.get(p)
    if not e or "na" in e:
        na.append({"property": p, "reason": (e or {}).get("na", "check not built yet")})
        continue
    cmd = "%s checks/%s.py %s" % (PY, e["script"], p)
    checks.append({"property": p, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                   "technique": e["technique"], "level": "model_checking", "level_note": e["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
