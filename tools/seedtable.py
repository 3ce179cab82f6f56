"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
mark = "| planted bug | breaks | needs | caught by |"
i = s.find(mark)
s = s[:i] if i >= 0 else s.replace("SEEDTABLE\n", "")
rows = [mark, "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
open(p, "w").write(s + "\n".join(rows) + "\n")
