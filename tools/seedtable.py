"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
head = s[:s.index("| bug | property |")]
rows = ["| bug | property | needs | what it breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
open(p, "w").write(head + "\n".join(rows) + "\n")
