"""python3 tools/fixed.py PROP COMMIT 'what failed' -- record a repaired defect"""
import json
import os
import sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d["findings"].append(dict(property=prop, status="fixed", commit=commit, line=f"fixed: property={prop} {commit} {what}"))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
