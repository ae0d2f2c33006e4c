#!/usr/bin/env python3
"""tools/keep.py REPLAY NAME WHAT: store a replay as a regression case; tools/keep.py --fixed PID COMMIT WHAT; --known REPLAY WHAT."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = os.path.join(V, "known_findings.json")
a = sys.argv[1:]
k = json.load(open(K)) if os.path.exists(K) else {"findings": [], "fixed": []}
if a[0] == "--fixed":
    k["fixed"].append("fixed: property=%s %s %s" % tuple(a[1:4]))
elif a[0] == "--known":
    r = json.load(open(a[1]))
    k["findings"].append(dict(property=r["property"], test=r["test"], case=r["case"], what=a[2]))
else:
    r = json.load(open(a[0]))
    d = os.path.join(V, "regress", r["property"])
    os.makedirs(d, exist_ok=True)
    json.dump(dict(test=r["test"], case=r["case"], what=a[2]), open(os.path.join(d, a[1] + ".json"), "w"), indent=1)
json.dump(k, open(K, "w"), indent=1)
