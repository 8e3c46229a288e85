"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import collections
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
by = collections.defaultdict(list)
for b in sorted(os.listdir(f"{V}/seeded")):
    by[json.load(open(f"{V}/seeded/{b}/meta.json"))["property"]].append(b)
n = sum(map(len, by.values()))
rows = ["| check | catches |", "|---|---|"]
rows += [f"| {p} | {', '.join(by[p])} |" for p in sorted(by)]
s = open(f"{V}/DESIGN.md").read()
mark = "<!-- bugs -->\n"
head = s.split(mark)[0].rstrip() + "\n\n"
open(f"{V}/DESIGN.md", "w").write(head + mark + f"\nAll {n} are caught by the check of their own property:\n\n" + "\n".join(rows) + "\n")
print(n)
