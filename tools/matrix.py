#!/usr/bin/env python3
"""Run checks against planted bugs, in scratch copies: matrix.py [--all] [--tier T] [bug id ...]

Without --all only the check of the bug's own property runs.  Prints one line per run."""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
args = sys.argv[1:]
ALL = "--all" in args
tier = args[args.index("--tier") + 1] if "--tier" in args else "quick"
ids = [a for i, a in enumerate(args) if not a.startswith("-") and args[i - 1] != "--tier"]
M = json.load(open(f"{V}/MANIFEST.json"))
props = [c["property"] if "property" in c else c["id"] for c in M["checks"]]
for b in ids or sorted(os.listdir(f"{V}/seeded")):
    meta = json.load(open(f"{V}/seeded/{b}/meta.json"))
    d = tempfile.mkdtemp(prefix="mx", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        subprocess.run(["git", "apply", f"{V}/seeded/{b}/patch.diff"], cwd=d + "/repo", check=True)
        caught = []
        for p in props if ALL else [meta["property"]]:
            t0 = time.time()
            r = subprocess.run(["/opt/venv/bin/python", "-B", "mc/run.py", p, "--tier", tier], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d + "/ev", VERIF_SEED="1"))
            v = re.findall(r"^VIOLATION property=(\S+)", r.stdout, re.M)
            caught.append(f"{p}:{'CAUGHT' if r.returncode == 1 and p in v else 'missed' if r.returncode == 0 else 'ERR%d' % r.returncode}:{time.time() - t0:.0f}s")
        print(b, *caught, flush=True)
    finally:
        shutil.rmtree(d)
