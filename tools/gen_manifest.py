#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the per-check notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "notes.py"), encoding="utf8").read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", pid.lower() + ".py")) and pid in NOTES:
        tech, note = NOTES[pid]
        checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid} --tier quick",
                           thorough_cmd=f"./check.sh {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=tech,
                           level="model_checking", level_note=note))
    else:
        na.append(dict(property=pid, reason=NOT_APPLICABLE.get(pid, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="All checks import rigeo from /repo/src (pure Python, nothing to build). No hooks were added to /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
