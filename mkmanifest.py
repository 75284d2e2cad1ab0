#!/usr/bin/env python3
"""writes MANIFEST.json from engine/spec.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
import spec
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = spec.PROPS.get(i)
    if s is None:
        na.append(dict(property=i, reason=spec.NA.get(i, "not claimed yet: its clients are still being built (see DESIGN.md)")))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       evidence_file="evidence/%s.json" % i, technique=s.get("technique", spec.TECHNIQUE), level="other",
                       level_note=s.get("full_note") or s.get("note", "") + spec.NOTE))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: the analyser reads private items from the compiler's own representation", source_commits=[]),
         notes="See DESIGN.md. Every check re-reads /repo's current source through a rustc driver; nothing of /repo is executed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
