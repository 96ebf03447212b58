"""writes the table of planted bugs into DESIGN.md"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, d)))
    rows.append("| %s | %s | %s | %s |" % (
        d, m["property"], m["what_it_breaks"], m["needs"]))
p = HERE + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: (
    "<!-- seeds -->\nEach is caught by the check of its property.\n\n" +
    "\n".join(rows) + "\n<!-- /seeds -->"), s, flags=re.S)
open(p, "w").write(s)
