"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and seeded/results.json."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(here + "/tools/seedresults.json"))
rows = ["| change | property | what it needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], res.get(i, "?")))
s = open(here + "/DESIGN.md").read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
head, tail = s.split(a)[0], s.split(b)[1]
open(here + "/DESIGN.md", "w").write(head + a + "\n".join(rows) + "\n" + b + tail)
