#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    rows.append(f"| {m['property']} | `{i}` | {m['needs']} |")
s = open(HERE + "/DESIGN.md").read()
a, b = s.index("| property | planted"), s.index("## Limits")
s = s[:a] + "| property | planted | shows only with |\n|---|---|---|\n" + "\n".join(rows) + "\n\n" + s[b:]
open(HERE + "/DESIGN.md", "w").write(s)
print(len(rows))
