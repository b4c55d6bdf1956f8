#!/usr/bin/env python3
"""Write the table of the planted bugs of seeded/ at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append((m["property"], "| %s | `%s` | %s | %s |" % (m["property"], d, cell(m["needs"]), cell(m["what_it_breaks"]))))
rows.sort()
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
mark = "| Caught by | Planted bug | Needs | Breaks |\n|---|---|---|---|\n"
i = s.index(mark) if mark in s else len(s)
open(p, "w").write(s[:i] + mark + "\n".join(r for _, r in rows) + "\n")
