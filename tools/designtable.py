"""prints the table of planted bugs for DESIGN.md; rewrites the part behind the marker"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    i = os.path.basename(os.path.dirname(p))
    rows.append("| %s | %s | %s quick |" % (i, m["needs"].replace("|", "/").replace("\n", " "), m["property"]))
d = open(V + "/DESIGN.md", encoding="utf-8").read()
mark = "<!-- table of planted bugs (tools/designtable.py) -->\n"
head = d.replace("@TABLE@\n", mark).split(mark)[0]
open(V + "/DESIGN.md", "w", encoding="utf-8").write(head + mark + "\n".join(rows) + "\n")
