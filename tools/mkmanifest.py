#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from notes import NOTES, NA
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, level, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                           technique=t, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check is not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="the checks need no change of /repo: harnesses and "
         "statement instrumentation are added through go build -overlay", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; harnesses in harness/ are compiled into the module of /repo through an overlay.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
