#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c or not os.path.exists(f"{V}/props/{p['id']}.cpp"):
        continue
    checks.append(dict(property=p["id"],
                       quick_cmd=f"python3 run_check.py {p['id']} quick",
                       thorough_cmd=f"python3 run_check.py {p['id']} thorough",
                       technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
na = [dict(property=p["id"], reason="check still being built") for p in props if p["id"] not in {c["property"] for c in checks}]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
