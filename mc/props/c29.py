"""C29: a coefficient set is self-contained.

Space: coefficient sets of every configuration with at most k deviations x all sequences,
to a depth, of storage operations: shallow and deep copies, pickles of every protocol,
conversion to plain dictionaries and back, re-ordering of the constituents, copies whose
source is overwritten, edits of the numbers, the latitude, the reference date and the frequencies, printing, other analyses (successful and failing), other
reconstructions; after every operation, and in a new process, the set is used again.
Oracle: the reconstruction right after the solve that produced it.
"""

import copy
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
import core
import ops
import scen

ID = "C29"
LEVEL = "model_checking"
LIMIT = 600
BOUND = {
    "quick": "configurations with <=1 deviation in 14 dimensions and raw phases without nodal corrections, elevation and velocity x all single operations of 23, also in a new process, and for phase, nodal, trend, infer and epoch all sequences of 2",
    "thorough": "configurations with <=2 deviations in 14 dimensions x all single operations of 23, also in a new process; <=1 deviation x all sequences of 2; the default configurations x all sequences of 3",
}
ASSUMPTIONS = ["of the contents of a set only the numbers are edited"]
ARGS = ops.Args()


def cases(tier):
    d = scen.dims(conf_int=["linear", "none", "MC"])
    d["infer"] = [0, 1]
    d["samp"] = ["h361", "irr", "gap"]
    d["epoch"] = ["python", "matlab", "1990-02-03", "dt64"]
    for s in scen.deviations(d, 1, fixed=("kind",)):
        if s["infer"] and s["order"] == "list":
            continue
        dev = [k for k in d if k != "kind" and s[k] != d[k][0]]
        deep = tier != "quick" or not dev or dev[0] in ("phase", "nodal", "trend", "infer", "epoch")
        yield dict(s, depth=2 if deep else 1)
    for kind in ("1d", "2d"):
        for infer in (0, 1):
            s = {k: d[k][0] for k in d}
            yield dict(s, kind=kind, phase="raw", nodal=False, infer=infer, depth=1)
    if tier == "quick":
        return
    for s in scen.deviations(d, 2, fixed=("kind",)):
        n = sum(s[k] != d[k][0] for k in d if k != "kind")
        if n < 2 or (s["infer"] and (s["order"] == "list" or s["conf_int"] == "MC")):
            continue
        yield dict(s, depth=1)
    for kind in ("1d", "2d"):
        s = {k: d[k][0] for k in d}
        for first in range(23):
            yield dict(s, kind=kind, depth=3, first=first)


def plain(x):
    """Plain dictionaries all the way down."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def scalars(x):
    """Flags, numbers and texts as numpy scalars, as many file formats return them."""
    if isinstance(x, dict):
        return type(x)({k: scalars(v) for k, v in x.items()})
    if isinstance(x, (bool, int, float)):
        return np.array(x)[()]
    return x


def bunches(x):
    from utide.utilities import Bunch

    if isinstance(x, dict):
        return Bunch({k: bunches(v) for k, v in x.items()})
    return x


def reorder(x, perm):
    """The same set with its constituents in another order."""
    n = len(x["name"])
    p = np.argsort([(i * 7 + 3) % (n + 1) for i in range(n)]) if perm else np.arange(n)[::-1]

    def f(v):
        if isinstance(v, np.ndarray) and v.shape == (n,):
            return v[p]
        return v

    y = copy.copy(x)
    for k in list(y):
        if k not in ("aux", "diagn", "weights"):
            y[k] = f(y[k])
    y["aux"] = copy.copy(y["aux"])
    for k in ("frq", "lind"):
        y["aux"][k] = f(y["aux"][k])
    return y


def spoil(clone):
    def f(x):
        y = copy.deepcopy(x)
        z = clone(y)
        ops.scribble(y)
        return z

    return f


def aside(fn):
    def f(x):
        fn(x)
        return x

    return f


def storage():
    import utide
    from utide.utilities import Bunch

    o = {
        "copy": copy.copy,
        "deepcopy": copy.deepcopy,
        "dict": dict,
        "plain": plain,
        "Bunch": Bunch,
        "bunches": bunches,
        "numpy scalars": scalars,
        "method copy": lambda x: x.copy(),
        "keywords": lambda x: Bunch(**x),
        "reverse": lambda x: reorder(x, 0),
        "permute": lambda x: reorder(x, 1),
        "spoil deepcopy": spoil(copy.deepcopy),
        "spoil pickle": spoil(lambda y: pickle.loads(pickle.dumps(y))),
        "print": aside(lambda x: (str(x), repr(x))),
        "solve": aside(lambda x: ops.OPS["s1lin"](ARGS)),
        "solve 2d": aside(lambda x: ops.OPS["x_s2"](ARGS)),
        "solve rob": aside(lambda x: ops.OPS["s1rob"](ARGS)),
        "solve fails": aside(lambda x: ops.OPS["f_infer"](ARGS)),
        "reconstruct": aside(lambda x: ops.scribble(utide.reconstruct(ARGS.tlater, x, epoch="python", verbose=False, min_SNR=0))),
        "other": aside(lambda x: ops.OPS["r1sel"](ARGS)),
    }
    for p in (2, 4, 5):
        o[f"pickle {p}"] = lambda x, p=p: pickle.loads(pickle.dumps(x, p))
    return o


def use(x, t, names):
    import utide

    out = {}
    for k, kw in (("default", {}), ("all", dict(min_SNR=0)), ("named", dict(constit=names)), ("energy", dict(min_PE=20.0, min_SNR=0))):
        r = utide.reconstruct(t, x, epoch="python", verbose=False, **kw)
        out[k] = np.stack([r.u, r.v]) if "u" in r else np.asarray(r.h)[None]
    return out


SCALED = ("A", "Lsmaj", "Lsmin", "A_ci", "Lsmaj_ci", "Lsmin_ci")
LINE = ("mean", "umean", "vmean", "slope", "uslope", "vslope")


def edited(ctx, x, base, tt, names, what):
    """Numbers of the set edited, in place and replaced: the edited ones count."""
    double = {k: 2 * a for k, a in base.items()}
    negative = {k: -a for k, a in base.items()}

    def line(f):
        for k in LINE:
            if k in x:
                x[k] = f * x[k]

    def inplace(f):
        for k in SCALED:
            if k in x:
                x[k] *= f

    inplace(2.0)
    line(2.0)
    same(ctx, double, use(x, tt, names), what + ", doubled in place")
    inplace(0.5)
    line(0.5)
    same(ctx, base, use(x, tt, names), what + ", doubled and halved in place")
    g, gg = x["g"], x["g"].copy()
    x["g"] += 180.0
    line(-1.0)
    same(ctx, negative, use(x, tt, names), what + ", phases turned in place")
    g[:] = gg
    line(-1.0)
    old = {k: x[k] for k in SCALED if k in x}
    for k in old:
        x[k] = 2.0 * old[k]
    line(2.0)
    same(ctx, double, use(x, tt, names), what + ", doubled")
    for k in old:
        x[k] = old[k]
    line(0.5)
    same(ctx, base, use(x, tt, names), what + ", doubled and put back")
    ctx.trace(5)


def moved(ctx, x, w, tt, what):
    """Latitude, reference date and frequencies edited: the edited ones count."""
    import ref
    import utide

    aux = x["aux"]
    rough = w.phase == "raw" and not w.nodal

    def compare(key):
        z = scen.phasors(x)
        t0 = float(aux["reftime"])
        if rough:
            # the only basis in which the frequencies of the set are used
            E = dict(zip((str(n) for n in x["name"]), np.exp(2j * np.pi * 24 * np.outer(np.asarray(aux["frq"]), tt - t0))))
        else:
            E = {n: ref.basis(tt, n, t0, float(aux["lat"]), w.phase, w.nodal) for n in z}
        if w.twodim:
            want = x["umean"] + 1j * x["vmean"] + sum(z[n][0] * E[n] + z[n][1] * np.conj(E[n]) for n in z)
            want = want + ((x["uslope"] + 1j * x["vslope"]) * (tt - t0) if w.trend else 0)
        else:
            want = x["mean"] + sum((z[n] * E[n]).real for n in z)
            want = want + (x["slope"] * (tt - t0) if w.trend else 0)
        r = utide.reconstruct(tt, x, epoch="python", verbose=False, min_SNR=0)
        got = r.u + 1j * r.v if w.twodim else np.asarray(r.h)
        scen.close(ctx, got, want, 1e-8 * (1 + np.abs(want).max()), f"{what}, {key} edited")
        ctx.trace()

    for key, change in (("reftime", lambda a: a + 3.7), ("lat", lambda a: 17.0 if a > 0 else -61.0), ("frq", lambda a: a * 1.01 + 1e-4)):
        if key == "frq" and not rough:
            continue
        old = aux[key]
        aux[key] = change(old)
        compare(key)
        aux[key] = old
    if rough:
        f = aux["frq"].copy()
        aux["frq"] *= 0.97
        compare("frq in place")
        aux["frq"][:] = f


def same(ctx, a, b, what):
    for k in a:
        if a[k].shape != b[k].shape:
            ctx.fail(f"{what}: {k} reconstruction has shape {b[k].shape} instead of {a[k].shape}")
        s = max(1e-300, np.nanmax(np.abs(a[k])))
        ok = (np.abs(a[k] - b[k]) <= 1e-11 * s) | (np.isnan(a[k]) & np.isnan(b[k]))
        if not np.all(ok):
            i = np.unravel_index(int(np.argmax(~ok)), ok.shape)
            ctx.fail(f"{what}: {k} reconstruction is {b[k][i]!r} instead of {a[k][i]!r} at [{i}]")
        ctx.step()


def check(case, ctx):
    import utide

    s = {k: v for k, v in case.items() if k in scen.DIMS}
    w = scen.World(s, noise=0.2)
    opts = dict(w.opts)
    if case["infer"]:
        n = 2 if w.twodim else 1
        opts["infer"] = dict(inferred_names=["K2"], reference_names=[w.names[0]], amp_ratios=[0.3] * n, phase_offsets=[-20.0] * n)
        if opts["conf_int"] == "MC":
            return
    np.random.seed(0)
    t = w.t.copy()
    ep = case["epoch"]
    if ep == "matlab":
        t, ep = t + 366, "matlab"
    elif ep == "1990-02-03":
        t = t - 726501
    elif ep == "dt64":
        t, ep = np.round((t - 719163) * 86400000).astype("int64").astype("datetime64[ms]"), None
    opts["epoch"] = ep
    u, v = w.u.copy(), None if w.v is None else w.v.copy()
    names = list(opts["constit"])
    opts["constit"] = list(names)
    c = utide.solve(t, u, v, lat=w.lat, **opts)
    tt = np.concatenate([w.t[::37], [w.tref + 400.3, np.nan, w.tref - 50.2]])
    base = use(c, tt, names[-1:])
    ctx.trace()
    # the caller's own arguments may be overwritten afterwards
    for x in (t, u, v, opts["constit"], opts.get("infer")):
        ops.scribble(x)
    same(ctx, base, use(c, tt, names[-1:]), "after overwriting the arguments")
    acts = storage()
    frozen = ops.describe(plain(c))
    blobs = {}

    def walk(x, path, depth):
        for i, (k, f) in enumerate(acts.items()):
            if not path and case.get("first", i) != i:
                continue
            y = f(x)
            here = path + [k]
            same(ctx, base, use(y, tt, names[-1:]), " -> ".join(here))
            ctx.trace()
            ctx.state(case, here)
            if not path:
                blobs[k] = pickle.dumps(y)
                edited(ctx, y, base, tt, names[-1:], k)
                if not k.startswith("spoil"):
                    moved(ctx, y, w, tt[np.isfinite(tt)], k)
            if depth > 1:
                walk(y, here, depth - 1)

    walk(c, [], case["depth"])
    if ops.describe(plain(c)) != frozen:
        ctx.fail("the coefficient set itself has changed")
    for k, r in elsewhere(blobs, tt, names[-1:]).items():
        if isinstance(r, str):
            ctx.fail(f"{k}, in a new process: {r}")
        same(ctx, base, r, f"{k}, in a new process")
        ctx.trace()
    ctx.outcome("configurations")


HELPER = """
import os, pickle, sys
sys.path[:0] = [%r, %r]
import numpy as np
import core
core.bootstrap()
blobs, tt, names = pickle.load(open(sys.argv[1], "rb"))
from props import c29
out = {}
for k, b in blobs.items():
    try:
        out[k] = c29.use(pickle.loads(b), tt, names)
    except Exception as e:
        out[k] = f"{type(e).__name__}: {e}"
pickle.dump(out, open(sys.argv[2], "wb"))
"""


def elsewhere(blobs, tt, names):
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, "in"), os.path.join(d, "out")
        with open(a, "wb") as f:
            pickle.dump((blobs, tt, names), f)
        mc = os.path.join(core.VERIF, "mc")
        p = subprocess.run(
            [sys.executable, "-B", "-c", HELPER % (mc, core.VERIF), a, b],
            capture_output=True,
            text=True,
            timeout=300,
        )
        if p.returncode:
            return {"all": p.stderr[-800:]}
        with open(b, "rb") as f:
            return pickle.load(f)
