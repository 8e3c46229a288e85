#!/usr/bin/env python3
"""Plant bugs: make /verif/seeded/<id>/ from the definitions in tools/bugs*.py.

  plant.py [id ...]         (re)make and confirm these (default: all missing ones)

Each definition is a dict: id, property, needs, breaks, edits=[(file, old, new)],
demo=python source.  A bug is confirmed in a scratch copy: it changes lines of the original
repository, imports, passes the stable tests, and its demo exits 0 without and nonzero with it.
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "b07d23d"
# change only lines that repairs have added
DROPPED = "c03-single c20-gap-zeros c27-generator c23-skip-unknown c20-end-gap c17-varxv".split()
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter("ignore")
import numpy as np
import utide
from utide import solve, reconstruct
assert os.path.dirname(os.path.dirname(os.path.abspath(utide.__file__))) == os.getcwd()
def check(ok, msg="property does not hold"):
    if not ok:
        print("FAIL:", msg); sys.exit(1)
'''
SH = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; 1: it does not
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "bugs*.py"))):
        s = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out += m.BUGS
    out = [b for b in out if b["id"] not in DROPPED]
    ids = [b["id"] for b in out]
    assert len(ids) == len(set(ids)), ids
    return out

def make(b):
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    w = os.path.join(d, "repo")
    try:
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), w, symlinks=True)
        dd = os.path.join(d, "demo"); os.mkdir(dd)
        open(os.path.join(dd, "demo.py"), "w").write(PRE + b["demo"])
        open(os.path.join(dd, "demo.sh"), "w").write(SH); os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        r = sh(f"{dd}/demo.sh", w, timeout=300)
        if r.returncode:
            return f"demo fails without the bug: {r.stdout[-300:]}{r.stderr[-600:]}"
        for f, old, new in b["edits"]:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(old) != 1:
                return f"{f}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        for hunk_file in re.split(r"(?m)^diff --git ", diff)[1:]:
            f = hunk_file.split()[0][2:]
            orig = sh(f"git show {BASE}:{f}", w).stdout.splitlines()
            minus = [l[1:] for l in hunk_file.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not any(l in orig for l in minus):
                return f"{f}: changes no original line"
            bad = [l for l in minus if l not in orig]
            if bad:
                print("   note: not original:", bad)
        open(os.path.join(d, "p.diff"), "w").write(diff)
        t = open("/opt/vp/test.sh").read().replace("/repo", w)
        open(os.path.join(d, "t.sh"), "w").write(t)
        r = sh(f"bash {d}/t.sh {d}/out.json", w, timeout=600)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        res = json.load(open(f"{d}/out.json"))
        passed = set(res["passed"]) if isinstance(res.get("passed"), list) else {k for k, v in res.items() if v == "passed"}
        if not stable <= passed:
            return f"tests fail: {sorted(stable - passed)}"
        r = sh(f"{dd}/demo.sh", w, timeout=300)
        if r.returncode == 0:
            return "demo passes with the bug"
        if "FAIL:" not in r.stdout:
            print("   note: demo ends with", r.stderr[-300:])
        o = os.path.join(SEED, b["id"]); os.makedirs(o, exist_ok=True)
        shutil.copy(f"{d}/p.diff", f"{o}/patch.diff")
        shutil.copy(f"{dd}/demo.py", o); shutil.copy(f"{dd}/demo.sh", o)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(f"{o}/meta.json", "w"), indent=1)
        return None
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    want = sys.argv[1:]
    from concurrent.futures import ThreadPoolExecutor
    todo = [b for b in load() if (b["id"] in want if want else not os.path.exists(f"{SEED}/{b['id']}/meta.json"))]
    with ThreadPoolExecutor(4) as ex:
        for b, r in zip(todo, ex.map(make, todo)):
            print(b["id"], "OK" if r is None else "REJECTED " + r, flush=True)
