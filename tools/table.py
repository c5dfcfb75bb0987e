"""Rewrite the table of planted bugs in DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed at first
STAR = set(open(os.path.join(HERE, "tools", "missed.txt")).read().split())
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
i, j = s.index("| bug | property | caught by |"), s.index("## Mutation campaign")
rows = ["| bug | property | caught by |", "|---|---|---|"]
for n in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))
    rows.append("| %s | %s: %s | %s |" % (n, m["property"], m["what_it_breaks"], m["property"] + (" *" if n in STAR else "")))
open(p, "w").write(s[:i] + "\n".join(rows) + "\n\n" + s[j:])
