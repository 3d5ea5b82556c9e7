#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS and not CHECKS[i].get("hidden"):
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=c["technique"],
                           level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor observes the library through its public API, virtual time (testing/synctest), the race detector and in-process protocol servers. run.py builds each monitor from /repo's working tree.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
