"""C33: loading a data file gives back its contents, structure by structure.

Space: every tree of structures up to a depth and width over an alphabet of leaves
(numbers, strings, arrays with and without missing values, character matrices, cells,
empties), written to .mat and .npz files, loaded with and without masks, listed, and
its strings converted.
Oracle: the tree that was written, and the documented rules (squeezed arrays, numbers
for single elements, masked floating-point arrays iff something is missing).
"""

import itertools
import os
import tempfile

import numpy as np

ID = "C33"
LEVEL = "model_checking"
BOUND = {
    "quick": "33 leaves: each alone at depth 0-3, all ordered pairs side by side at depth 0-1 and in nested structures; .mat (2 formats of the file), .npz, .npz of a loaded .mat; masked or not",
    "thorough": "33 leaves: each alone at depth 0-4, all ordered pairs at depth 0-2 and in nested structures, all triples of 11 leaves in 5 arrangements; 4 kinds of files; masked or not",
}
ASSUMPTIONS = ["files written by scipy and numpy; names of variables without leading underscores"]

NAN, INF = float("nan"), float("inf")
LEAVES = {
    "float": 2.5,
    "nan": NAN,
    "inf": -INF,
    "int": 7,
    "zero": 0,
    "complex": 1 + 2j,
    "str": "abc",
    "str1": "z",
    "str space": " a b",
    "str49": "x" * 49,
    "str50": "y" * 50,
    "floats": [1.5, -2.0, 3.0],
    "floats nan": [1.5, NAN, 3.0],
    "floats inf": [INF, 1.0, -INF, 2.0],
    "all nan": [NAN, NAN],
    "row": [[1.0, 2.0, 4.0]],
    "column": [[1.0], [NAN], [4.0]],
    "matrix": [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]],
    "matrix nan": [[1.0, NAN], [NAN, 4.0], [5.0, 6.0]],
    "cube": [[[1.0, NAN], [2.0, 3.0]], [[4.0, 5.0], [6.0, 7.0]]],
    "thin": [[[1.0, 2.0, 3.0]], [[4.0, NAN, 6.0]]],
    "float32": np.array([1.5, NAN, 2.5], "f4"),
    "float32 one": np.array([0.5], "f4"),
    "int16": np.array([3, -4, 5], "i2"),
    "uint8": np.array([[1, 255], [0, 3]], "u1"),
    "int64": np.array([2**40, -1], "i8"),
    "complexes": np.array([1 + 1j, 2 - 3j]),
    "complex nan": np.array([1 + 1j, complex(NAN, 0)]),
    "empty": np.zeros(0),
    "chars": np.array(["ab", " xyz", "  c"]),
    "cell": ("M2", " K1  ", "NO1"),
    "cell mixed": ("M2", [1.0, NAN], 3.0),
    "cell one": ("MSF",),
}
SMALL = ["float", "nan", "int", "str", "str50", "floats", "floats nan", "column", "int16", "chars", "cell"]
NAMES = ["b", "a", "long_name_of_a_variable", "T"]


def wrap(tree, depth):
    for k in range(depth):
        tree = {["s", "inner", "x1", "deep"][k % 4]: tree}
    return tree


def trees(tier):
    """Trees as nested dictionaries of names of leaves."""
    quick = tier == "quick"
    for d in range(4 if quick else 5):
        for x in LEAVES:
            yield wrap({"a": x}, d)
    yield {}
    for x, y in itertools.product(LEAVES, repeat=2):
        for d in range(2 if quick else 3):
            yield wrap({"b": x, "a": y}, d)
        yield {"b": x, "a": {"c": y}}
        yield {"b": {"c": x}, "a": y}
        if not quick:
            yield {"b": {"c": x}, "a": {"c": y}}
            yield {"b": {"c": {"b": x}, "a": y}}
    for x, y, z in itertools.product(SMALL, repeat=3) if not quick else ():
        yield {"b": x, "a": y, "T": z}
        yield {"b": x, "long_name_of_a_variable": {"b": y, "a": z}}
        yield {"b": {"b": x, "c": {"b": y}}, "a": z}
        yield {"b": {"b": x}, "a": {"b": y}, "T": {"b": z}}
        yield wrap({"b": x, "a": {"c": y, "b": z}}, 2)


def cases(tier):
    group = []
    for t in trees(tier):
        group.append(t)
        if len(group) == 25:
            yield {"trees": group}
            group = []
    yield {"trees": group}
    yield {"trees": [], "other": 1}


def materialise(tree):
    if isinstance(tree, dict):
        return {k: materialise(v) for k, v in tree.items()}
    x = LEAVES[tree]
    if isinstance(x, tuple):
        out = np.empty(len(x), dtype=object)
        for k, e in enumerate(x):
            out[k] = np.array(e) if isinstance(e, list) else e
        return out
    return np.array(x) if isinstance(x, list) else x


# ----------------------------------------------------------------- expectation


def expected(name, masked, kind):
    """(type, value, mask) of a leaf as loaded; kind is the kind of file."""
    x = LEAVES[name]
    if isinstance(x, tuple):
        return "cell", x, None
    if isinstance(x, str):
        return "str", x, None
    a = np.array(x)
    if a.dtype.kind == "U":
        w = max(map(len, a))
        if kind != "npz":
            a = np.array([s.ljust(w) for s in a])  # rows of a character matrix
        return "array", a, None
    if a.size == 1:
        return type(a.item()).__name__, a.item(), None
    if a.size == 0:
        return "empty", None, None
    a = a.reshape([k for k in a.shape if k != 1])
    if masked and a.dtype.kind == "f" and not np.isfinite(a).all():
        return "masked", a, ~np.isfinite(a)
    return "array", a, None


def same(x, y):
    return x == y or (x != x and y != y)


def compare(ctx, got, tree, masked, kind, path):
    from utide.utilities import Bunch

    if isinstance(tree, dict):
        if kind == "npz" and path:
            # numpy keeps a dictionary as an object
            if type(got) is not dict:
                ctx.fail(f"{path}: {type(got).__name__} for a dictionary")
            return
        if not isinstance(got, Bunch):
            ctx.fail(f"{path}: {type(got).__name__} for a structure")
        if set(got) != set(tree):
            ctx.fail(f"{path}: fields {sorted(got)} for {sorted(tree)}")
        for k in tree:
            if getattr(got, k) is not got[k]:
                ctx.fail(f"{path}.{k}: attribute and item differ")
            compare(ctx, got[k], tree[k], masked, kind, f"{path}.{k}")
        return
    what, x, mask = expected(tree, masked, kind)
    ctx.step()
    if what in ("str", "int", "float", "complex"):
        if type(got).__name__ != what or not same(got, x):
            ctx.fail(f"{path}: {got!r} for {x!r}")
        return
    if what == "cell":
        return cell(ctx, got, x, path, kind)
    if not isinstance(got, np.ndarray):
        ctx.fail(f"{path}: {type(got).__name__} for an array")
    if what == "empty":
        if got.size:
            ctx.fail(f"{path}: {got!r} for an empty array")
        return
    if got.shape != x.shape or (got.dtype != x.dtype and x.dtype.kind != "U") or got.dtype.kind != x.dtype.kind:
        ctx.fail(f"{path}: shape {got.shape}, {got.dtype} for {x.shape}, {x.dtype}")
    if np.ma.isMA(got) != (what == "masked"):
        ctx.fail(f"{path}: {'a' if np.ma.isMA(got) else 'no'} mask for {x}")
    if what == "masked":
        if not np.array_equal(np.ma.getmaskarray(got), mask) or not np.array_equal(got.data[~mask], x[~mask]):
            ctx.fail(f"{path}: {got!r} for {x!r}")
        return
    # complex values are compared by parts
    parts = [(got, x)] if x.dtype.kind != "c" else [(got.real, x.real), (got.imag, x.imag)]
    for p, q in parts:
        if not np.array_equal(p, q, equal_nan=q.dtype.kind == "f"):
            ctx.fail(f"{path}: {got!r} for {x!r}")


def cell(ctx, got, x, path, kind):
    if len(x) == 1:
        e = np.asarray(got)
        if e.size != 1 or str(e.ravel()[0]) != x[0]:
            ctx.fail(f"{path}: {got!r} for {x!r}")
        return
    if not isinstance(got, np.ndarray) or got.dtype != object or got.shape != (len(x),):
        ctx.fail(f"{path}: {got!r} for a cell of {len(x)}")
    for g, e in zip(got, x):
        if isinstance(e, list):
            ok = np.array_equal(np.asarray(g, float).ravel(), e, equal_nan=True)
        else:
            ok = np.asarray(g).size == 1 and np.asarray(g).ravel()[0] == e
        if not ok:
            ctx.fail(f"{path}: {g!r} for {e!r} in a cell")


def listing(tree, kind, masked, got, path=""):
    """Expected lines of showmatbunch, as (name, entry)."""
    out = []
    for k, sub in tree.items():
        p = f"{path}.{k}" if path else k
        if isinstance(sub, dict):
            if kind == "npz":
                out.append((p, None))
            else:
                out += listing(sub, kind, masked, got[k], p)
            continue
        v = got[k]
        what, x, _ = expected(sub, masked, kind)
        if what == "str":
            entry = x if len(x) < 50 else f"string, {len(x)} characters"
        elif what in ("int", "float", "complex"):
            entry = f"{what} {x}"
        elif what == "masked":
            entry = f"masked array, shape {x.shape}, dtype {x.dtype}"
        elif what == "array":
            entry = f"ndarray, shape {x.shape}, dtype {v.dtype}"
        elif isinstance(v, np.ndarray):
            entry = f"ndarray, shape {v.shape}, dtype {v.dtype}"
        else:
            entry = None
        out.append((p, entry))
    return out


def check_listing(ctx, text, lines):
    if None in [w for _, w in lines]:
        return  # a dictionary, or a cell of one element
    got = [s.split(" : ", 1) for s in text.split("\n")[:-1]]
    if text and not text.endswith("\n"):
        ctx.fail("listing without end of line")
    if [g[0].rstrip() for g in got] != sorted(p for p, _ in lines):
        ctx.fail(f"listing {text!r} of {sorted(p for p, _ in lines)}")
    want = dict(lines)
    for g in got:
        w = want[g[0].rstrip()]
        if g[1] != w:
            ctx.fail(f"listing {g[1]!r} for {w!r}")
        ctx.step()


def check_strings(ctx, before, after, tree, kind):
    """convert_unicode_arrays."""
    from utide.utilities import Bunch

    if not isinstance(after, Bunch) or list(after) != list(before):
        ctx.fail(f"conversion of strings: {after!r}")
    for k, sub in tree.items():
        b, a = before[k], after[k]
        ctx.step()
        if isinstance(sub, dict):
            if kind != "npz":
                check_strings(ctx, b, a, sub, kind)
            continue
        what, x, _ = expected(sub, True, kind)
        if what == "array" and x.dtype.kind == "U":
            if list(a) != [s.rstrip() for s in x] or not all(isinstance(s, str) for s in a) or a.dtype != object:
                ctx.fail(f"conversion of a character matrix: {a!r}")
        elif what == "cell" and len(x) > 1:
            for g, e in zip(a, x):
                if isinstance(e, str) and (not isinstance(g, str) or g.rstrip() != e.rstrip()):
                    ctx.fail(f"conversion of a cell: {a!r}")
                if isinstance(e, list) and not np.array_equal(np.asarray(g, float).ravel(), e, equal_nan=True):
                    ctx.fail(f"conversion of a cell: {a!r}")
        elif a is not b and not (isinstance(b, np.ndarray) and np.array_equal(a, b)):
            ctx.fail(f"conversion of strings changed {b!r} to {a!r}")


def other(ctx, folder):
    from utide.utilities import loadbunch

    for name in ["x.txt", "x.MAT.gz", "x", "x.npy", "mat", "npz", "x.mat.csv"]:
        path = os.path.join(folder, name)
        np.savez(open(path, "wb"), a=np.arange(3))
        ctx.trace()
        try:
            got = loadbunch(path)
        except ValueError:
            continue
        ctx.fail(f"{name} loaded as {got!r}")
    os.mkdir(os.path.join(folder, "d.mat"))
    os.mkdir(os.path.join(folder, "d.npz"))
    from scipy.io import savemat

    for where in ("", "d.mat", "d.npz"):
        for stem in ("a", "a.mat", "a.npz", "npz", "mat", "x y", "a.npz.mat.b", ".mat", ".npz", "", "Maß"):
            for end in (".mat", ".npz"):
                path = os.path.join(folder, where, stem + end)
                with open(path, "wb") as f:
                    if end == ".mat":
                        savemat(f, dict(a=np.arange(3.0)))
                    else:
                        np.savez(f, a=np.arange(3.0))
                got = loadbunch(path)
                ctx.trace()
                ctx.state("name", where, stem, end)
                if list(got) != ["a"] or not np.array_equal(got.a, np.arange(3.0)):
                    ctx.fail(f"{where}/{stem}{end} loaded as {got!r}")
    for name in ["none.mat", "none.npz"]:
        try:
            loadbunch(os.path.join(folder, name))
        except FileNotFoundError:
            continue
        ctx.fail(f"{name} does not exist, but was loaded")


def check(case, ctx):
    from scipy.io import loadmat, savemat
    from utide.utilities import convert_unicode_arrays, loadbunch, showmatbunch

    with tempfile.TemporaryDirectory(prefix="c33-") as folder:
        if case.get("other"):
            return other(ctx, folder)
        for i, tree in enumerate(case["trees"]):
            data = materialise(tree)
            ctx.state(tree)
            mat = os.path.join(folder, f"f{i}.mat")
            savemat(mat, data, oned_as="row" if i % 2 else "column")
            files = [("mat", mat), ("npz", mat[:-4] + ".npz"), ("mat.npz", mat[:-4] + "m.npz")]
            np.savez(files[1][1], **data)
            np.savez(files[2][1], **loadmat(mat, chars_as_strings=True))
            if i % 5 == 0:
                packed = mat[:-4] + "z.mat"
                savemat(packed, data, do_compression=True, long_field_names=True)
                files.append(("mat", packed))
            for kind, path in files:
                content = open(path, "rb").read()
                for masked in (True, False):
                    got = loadbunch(path) if masked and i % 3 else loadbunch(path, masked=masked)
                    ctx.trace()
                    compare(ctx, got, tree, masked, kind, "")
                    lines = listing(tree, kind, masked, got)
                    check_listing(ctx, showmatbunch(got), lines)
                    if masked:
                        check_listing(ctx, showmatbunch(path), lines)
                    conv = convert_unicode_arrays(got)
                    check_strings(ctx, got, conv, tree, kind)
                    # neither changed what was loaded
                    compare(ctx, got, tree, masked, kind, "")
                    ctx.outcome(f"{kind} masked={masked}")
                if open(path, "rb").read() != content:
                    ctx.fail(f"{kind}: the file changed")
                os.unlink(path)
