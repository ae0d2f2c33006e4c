#!/usr/bin/env python3
"""Write MANIFEST.json from the list of property modules that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from tools.notes import NOTES  # noqa: E402
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, "props", p.lower() + ".py")) and p in NOTES:
        tech, note = NOTES[p]
        checks.append(dict(property=p, quick_cmd="bin/check %s --tier quick" % p,
                           thorough_cmd="bin/check %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
                           technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=p, reason="the check is still being built"))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="Checks are Hypothesis-generated searches against independent oracles; see DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
