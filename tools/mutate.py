#!/usr/bin/env python3
"""Systematic small mutants of utide that the existing tests do not notice.

  mutate.py list                      number of mutants by file
  mutate.py survive OUT.jsonl [JOBS]  mutants that pass the stable tests
  mutate.py check OUT.jsonl RES.jsonl [SKIP]  which check notices each of these

Everything happens in scratch copies.  Used to find gaps of the checks (DESIGN.md)."""
import ast, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.MatMult: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
SWAP = {"floor": "ceil", "ceil": "floor", "max": "min", "min": "max", "median": "mean", "mean": "median", "real": "imag", "imag": "real", "cos": "sin", "sin": "cos", "fix": "floor", "round": "floor", "nanmax": "nanmin", "all": "any", "any": "all", "sum": "mean", "ones": "zeros", "zeros": "ones", "argmax": "argmin", "argmin": "argmax", "abs": "real", "angle": "abs", "conj": "abs", "hypot": "add", "asanyarray": "asarray", "logical_or": "logical_and", "logical_and": "logical_or", "sqrt": "abs", "deg2rad": "rad2deg", "rad2deg": "deg2rad", "compressed": "filled"}

def seg(src, n):
    return ast.get_source_segment(src, n)

def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda ln, c: off[ln - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    out = []
    def add(a, b, new, what, line):
        if raw[a:b].decode() != new: out.append((a, b, new, what, line))
    def between(l, r, old, new, what):
        a, b = span(l)[1], span(r)[0]
        t = raw[a:b].decode()
        if t.count(old) == 1:
            k = a + len(t[: t.index(old)].encode())
            add(k, k + len(old), new, what, l.lineno)
    SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|"}
    CS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str): continue
            for x in BIN[type(n.op)]: between(n.left, n.right, SYM[type(n.op)], x, "op")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for x in CMP.get(type(n.ops[0]), []): between(n.left, n.comparators[0], CS[type(n.ops[0])], x, "cmp")
        elif isinstance(n, ast.BoolOp):
            a, b = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            for l, r in zip(n.values, n.values[1:]): between(l, r, a, b, "bool")
        elif isinstance(n, ast.UnaryOp):
            a, b = span(n)
            add(a, b, "(" + seg(src, n.operand) + ")", "unary", n.lineno)
        elif isinstance(n, ast.Constant) and n not in doc:
            a, b = span(n)
            v = n.value
            if v is True or v is False: add(a, b, str(not v), "const", n.lineno)
            elif isinstance(v, int):
                add(a, b, str(v + 1), "const", n.lineno); 
                if v > 0: add(a, b, str(v - 1), "const", n.lineno)
            elif isinstance(v, float):
                add(a, b, repr(v * 1.02 if v else 1.0), "const", n.lineno)
            elif v is None: pass
            elif isinstance(v, str) and isinstance(getattr(n, "kind", None), type(None)) and raw[a:a+1] in b"'\"" and len(v) < 20 and "%" not in v:
                add(a, b, repr(v + "x"), "str", n.lineno)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            for x in ("True", "False"):
                if not (isinstance(n, ast.While) and x == "True"): add(a, b, x, "if", n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)) and n not in doc:
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield)): continue
            if isinstance(n, ast.Expr) and "print" in (seg(src, n) or ""): continue
            a, b = span(n)
            add(a, b, "pass", "delete", n.lineno)
            if isinstance(n, ast.AugAssign):
                s = seg(src, n)
                for x, y in (("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*="), ("&=", "|="), ("|=", "&=")):
                    if s.count(x) == 1: add(a, b, s.replace(x, y), "aug", n.lineno)
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = span(n.value)
            add(a, b, "None", "return", n.lineno)
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in SWAP:
                a, b = span(f)
                add(b - len(name), b, SWAP[name], "call", n.lineno)
            if len(n.args) == 1 and not n.keywords and isinstance(f, (ast.Name, ast.Attribute)):
                a, b = span(n)
                add(a, b, "(" + seg(src, n.args[0]) + ")", "uncall", n.lineno)
            elif not n.args and not n.keywords and isinstance(f, ast.Attribute):
                a, b = span(n)
                add(a, b, "(" + seg(src, f.value) + ")", "uncall", n.lineno)
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    m = re.match(rb"\s*,\s*", raw[b:])
                    if m: add(a, b + m.end(), "", "kwarg", k.lineno)
                    else:
                        m = re.search(rb",\s*$", raw[:a])
                        if m: add(m.start(), b, "", "kwarg", k.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in ("real", "imag", "T", "data"):
            a, b = span(n)
            add(a, b, "(" + seg(src, n.value) + ")", "attr", n.lineno)
            if n.attr in ("real", "imag"): add(a, b, seg(src, n.value) + (".imag" if n.attr == "real" else ".real"), "attr", n.lineno)
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    a, b = span(x)
                    add(a, b, "", "slice", x.lineno)
    seen, res = set(), []
    for a, b, new, what, line in sorted(out):
        t = raw[:a] + new.encode() + raw[b:]
        if t in seen: continue
        seen.add(t)
        try: ast.parse(t.decode())
        except SyntaxError: continue
        res.append(dict(file=os.path.relpath(path, "/repo"), a=a, b=b, old=raw[a:b].decode(), new=new, what=what, line=line))
    return res

def everything():
    out = []
    d = "/repo/utide"
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f not in ("__init__.py", "_version.py"):
            out += mutants(f"{d}/{f}")
    return out

def apply(m, root):
    p = f"{root}/{m['file']}"
    raw = open("/repo/" + m["file"], "rb").read()
    assert raw[m["a"]:m["b"]].decode() == m["old"]
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])

def restore(m, root):
    shutil.copy("/repo/" + m["file"], f"{root}/{m['file']}")

ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")

def tests(root, timeout=60):
    stable = json.load(open("/opt/vp/BASELINE.json"))
    try:
        r = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=root, env=dict(ENV, PYTHONPATH=root), capture_output=True, text=True, timeout=timeout)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False

if __name__ == "__main__":
    ms = everything()
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ms), Counter(m["file"] for m in ms), Counter(m["what"] for m in ms))
    elif sys.argv[1] == "survive":
        jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 6
        if len(sys.argv) > 4:  # every n-th mutant of some files
            ms = [m for m in ms if os.path.basename(m["file"])[:-3] in sys.argv[5:]][:: int(sys.argv[4])]
        top = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        import queue
        q = queue.Queue()
        for k in range(jobs):
            shutil.copytree("/repo", f"{top}/{k}", symlinks=True, ignore=shutil.ignore_patterns(".git"))
            q.put(f"{top}/{k}")
        assert tests(f"{top}/0")
        out = open(sys.argv[2], "w")
        n = [0, 0]
        def one(m):
            root = q.get()
            try:
                apply(m, root)
                ok = tests(root)
                n[0] += 1
                if ok:
                    n[1] += 1
                    out.write(json.dumps(m) + "\n"); out.flush()
                if n[0] % 100 == 0: print(n, "of", len(ms), flush=True)
            finally:
                restore(m, root); q.put(root)
        with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, ms))
        print(n, "of", len(ms))
        shutil.rmtree(top)
    elif sys.argv[1] == "check":
        ORDER = {
            "utide/_reconstruct.py": "C12 C36 C31 C21 C32 C23 C05".split(),
            "utide/_solve.py": "C36 C16 C09 C23 C01 C32 C03 C09 C10 C23 C31 C19 C21 C04 C11 C22 C08 C06 C13 C35 C29 C20 C39 C10 C37 C40".split(),
            "utide/_time_conversion.py": "C05 C06 C04 C32 C23".split(),
            "utide/_ut_constants.py": "C30 C25 C13 C15 C35 C14".split(),
            "utide/astronomy.py": "C25 C01 C30 C26 C02".split(),
            "utide/confidence.py": "C19 C20 C34 C27 C09 C16 C17 C21 C32 C11 C04 C31 C38 C39 C40".split(),
            "utide/constituent_selection.py": "C07 C10 C11 C09 C23 C01 C08".split(),
            "utide/diagnostics.py": "C09 C08 C12 C32 C21".split(),
            "utide/ellipse_params.py": "C18 C01 C17".split(),
            "utide/harmonics.py": "C25 C01 C26 C02 C03 C14".split(),
            "utide/periodogram.py": "C28 C20 C16 C21".split(),
            "utide/robustfit.py": "C37 C22 C01 C31 C17 C16".split(),
            "utide/utilities.py": "C24 C33 C29 C23 C13".split(),
        }
        todo = [json.loads(l) for l in open(sys.argv[2])]
        done = set()
        if os.path.exists(sys.argv[3]):
            for l in open(sys.argv[3]):
                r = json.loads(l); done.add((r["file"], r["a"], r["b"], r["new"]))
        root = tempfile.mkdtemp(prefix="muc", dir="/tmp") + "/repo"
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        W = int(os.environ.get("MUT_WORKERS", "1"))
        for m in todo:
            if (m["file"], m["a"], m["b"], m["new"]) in done: continue
            apply(m, root)
            t0 = time.time(); by = None; odd = []
            for p in ORDER[m["file"]]:
                try:
                    r = subprocess.run([PY, "-B", "mc/run.py", p], cwd=V, capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_REPO=root, VERIF_EVIDENCE=os.path.dirname(root) + "/ev", VERIF_SEED="1"))
                except subprocess.TimeoutExpired:
                    odd.append((p, "timeout")); continue
                if r.returncode == 1 and "VIOLATION property=" + p in r.stdout: by = p; break
                if r.returncode: odd.append((p, r.returncode, r.stdout[-300:] + r.stderr[-300:]))
            restore(m, root)
            m.update(by=by, odd=odd, s=round(time.time() - t0))
            with open(sys.argv[3], "a") as f: f.write(json.dumps(m) + "\n")
            print(m["file"], m["line"], repr(m["old"][:40]), "->", repr(m["new"][:40]), by, odd[:1], m["s"], flush=True)
        shutil.rmtree(os.path.dirname(root))
