"""Writes the table of planted bugs into DESIGN.md, between the markers."""
import glob, json, os
rows = ["| planted bug | property | breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open("/verif/tools/caught.json"))
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, 'not tried')} |")
s = open("/verif/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- end -->"
i, j = s.index(a) + len(a), s.index(b)
open("/verif/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
