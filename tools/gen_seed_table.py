"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    with open(os.path.join(HERE, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    rows.append((m["property"], d, m["what_it_breaks"].replace("\n", " ")))
table = "| property | bug | what it breaks |\n|---|---|---|\n" + "".join("| %s | `%s` | %s |\n" % r for r in sorted(rows))
p = os.path.join(HERE, "DESIGN.md")
with open(p) as f:
    s = f.read()
s = re.sub(r"\| property \| bug \|.*?\n\n", lambda m: table + "\n", s, count=1, flags=re.S)
with open(p, "w") as f:
    f.write(s)
print(len(rows), "bugs")
