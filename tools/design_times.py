#!/usr/bin/env python3
"""Put the wall times of the last quick runs (evidence files) into the table of DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{V}/DESIGN.md").read().split("\n")
for k, l in enumerate(s):
    m = re.match(r"\| (C\d\d) \|(.*)\| *\d* *\|$", l)
    f = m and f"{V}/evidence/{m[1]}.json"
    if m and os.path.exists(f):
        e = json.load(open(f))
        s[k] = f"| {m[1]} |{m[2]}| {round(e['wall_s'])} |"
open(f"{V}/DESIGN.md", "w").write("\n".join(s))
