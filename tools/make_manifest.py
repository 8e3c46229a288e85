"""Writes /verif/MANIFEST.json from the property modules."""
import ast
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
TECH = {
    "C13": "explicit-state search of module states and exhaustive call sequences on the real code (fork snapshots)",
    "C14": "stateless model checking of thread interleavings on the real code, bounded preemptions",
    "C15": "exhaustive fault enumeration: every abort point of each call on the real code",
    "C24": "explicit-state enumeration of the closed state space of Bunch against a dictionary model",
    "C29": "exhaustive enumeration of storage-operation sequences on the real code",
}
checks = []
for p in props:
    i = p["id"]
    path = os.path.join(root, "mc", "props", i.lower() + ".py")
    if not os.path.exists(path):
        continue
    m = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("LEVEL", "BOUND", "ASSUMPTIONS"):
            m[n.targets[0].id] = ast.literal_eval(n.value)
    note = "Exhaustive within the bound: " + m["BOUND"]["quick"] + "."
    if m.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(m["ASSUMPTIONS"]) + "."
    note += " The reference model is independent of the code; every state is an execution of the real code compared with it."
    checks.append(
        dict(
            property=i,
            quick_cmd=f"/opt/venv/bin/python -B mc/run.py {i}",
            thorough_cmd=f"/opt/venv/bin/python -B mc/run.py {i} --tier thorough",
            technique=TECH.get(i, "bounded-exhaustive explicit enumeration of scenarios on the real code against an independent reference model"),
            level=m["LEVEL"],
            level_note=note,
        ),
    )
claimed = {c["property"] for c in checks}
out = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python -B -c "import numpy, scipy, pandas"',
    checks=checks,
    not_applicable=[dict(property=p["id"], reason="check not yet built") for p in props if p["id"] not in claimed],
    notes="No hooks in /repo: the checks run the unmodified package from the working tree. Known findings: known_findings.txt.",
)
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
