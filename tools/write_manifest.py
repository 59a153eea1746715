#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "claims.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    c = notes.get(i)
    if c and os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.py %s" % i, thorough_cmd="VERIF_TIER=thorough ./check.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=c["technique"], level="exploration",
                           level_note=c["note"]))
    else:
        na.append(dict(property=i, reason="check still under construction: no monitor is registered for it yet"))
m = dict(version=1, setup_cmd="python3 lib/build.py asan tsan", checks=checks, not_applicable=na,
         hooks=dict(guard="TS_VERIF_HOOKS (unused: no hook was needed)", enable="no source hooks; the sanitizer builds of lib/build.py compile /repo's sources as they are", source_commits=[]),
         notes="See DESIGN.md. VERIF_SEED selects the random cases, VERIF_TIER the amount.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
