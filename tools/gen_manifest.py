#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist (bin/p_<id>.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; specification behaviours replayed into the code and recorded behaviours of the code validated against the specification (TLC trace validation)"
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "bin", "p_%s.py" % i.lower())) and i not in NA:
        checks.append(dict(property=i, quick_cmd="./bin/check.py %s --tier quick" % i, thorough_cmd="./bin/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking", level_note=NOTES.get(i, NOTES["default"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet (planned: same technique with a stand-in for the tensor library)")))
m = dict(version=1, setup_cmd="./bin/setup.sh", hooks=dict(guard="ULTRADMRG_VERIF", enable="no hooks are needed: harnesses compile the unmodified headers", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
