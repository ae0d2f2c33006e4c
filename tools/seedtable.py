"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json and tools/caught.json)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(ROOT + "/tools/caught.json"))
rows = []
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, d)))
    c = caught.get(d, ["—", "not hunted"])
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), c[0], c[1]))
text = open(ROOT + "/DESIGN.md").read()
head = "| id | property | needs | caught by | |\n|---|---|---|---|---|\n"
text = re.sub(r"\| id \| property \|.*?\n\n", lambda _: head + "\n".join(rows) + "\n\n", text, flags=re.S)
open(ROOT + "/DESIGN.md", "w").write(text)
