#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl, the plans and the notes below."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans  # noqa: E402
from common import VERIF  # noqa: E402

checks, missing = [], []
for line in open(VERIF + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p not in plans.PLANS:
        missing.append({"property": p, "reason": "check under construction"})
        continue
    plan = plans.PLANS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": plan.get("technique", "runtime monitoring: online monitor comparing every observed result of the real code with a reference model, under generated workloads"),
        "level": "exploration",
        "level_note": "held on the executions the evidence file counts, nothing beyond them. " + "; ".join(plan["assumptions"]),
    })
with open(VERIF + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 driver/setup.py", "checks": checks, "not_applicable": missing,
               "notes": "No hooks were needed: everything observed is public or crosses the JavaScript boundary."}, f, indent=1)
    f.write("\n")
