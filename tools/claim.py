#!/usr/bin/env python3
"""claim.py Cxx "technique" "note": records a claim and rewrites MANIFEST.json."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, "claims.json")
d = json.load(open(p))
d[sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
json.dump(d, open(p, "w"), indent=1, sort_keys=True)
subprocess.check_call([sys.executable, os.path.join(here, "write_manifest.py")])
