#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + "/tools/bugs.json"))
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s; %s | %s: %s |" % (d, m["needs"], m["what_it_breaks"], m["property"], notes.get(d, "first")))
s = open(V + "/DESIGN.md").read()
a = s.index("<!-- bugs -->") + len("<!-- bugs -->\n")
b = s.index("<!-- /bugs -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows).replace("\\", "\\\\") + "\n" + s[b:])
