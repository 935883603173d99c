#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
head = s[:s.index("| bug |")]
tail = s[s.index("| bug |"):]
rest = tail.split("\n\n", 1)[1] if "\n\n" in tail else ""
open(p, "w").write(head + "\n".join(rows) + "\n" + ("\n" + rest if rest.strip() else ""))
