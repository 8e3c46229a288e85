"""C06: results do not depend on the container holding the data.

Space: every choice of container for (t, u, v) with at most k of them other than plain
float64 arrays (full product in thorough), sequence kinds for every option that takes
names, and containers for the times given to reconstruct.
Oracle: the solution for contiguous float64 arrays of the same values.
"""

import itertools

import numpy as np
import scen

ID = "C06"
LEVEL = "model_checking"
BOUND = {
    "quick": "all container pairs among t, u, v (<=2 of 3 unusual, 18 kinds each) for elevation and velocity, 9^2 kinds of whole numbers for times and data, 9 sequence kinds for each option taking names (inference with one and with two references, exact and approximate); 3 analyses",
    "thorough": "the full product of 18^2 and of 9^3 container kinds, 8 analyses",
}
ASSUMPTIONS = ["values are exactly representable in every container used (times and data are multiples of 1/64)"]

KINDS = [
    "array",
    "list",
    "tuple",
    "series",
    "series_str",
    "masked",
    "masked0",
    "readonly",
    "strided",
    "reversed",
    "column",
    "bigendian",
    "float32",
    "float16",
    "int64",
    "int16",
    "index",
    "list_np",
]
# of whole numbers, and of whole numbers that are not negative
WHOLE = ["int64", "int16", "list_int", "int32be", "uint16", "uint32", "uint64", "masked_uint", "series_int"]
SEQ = ["list", "tuple", "array", "object", "series", "dictkeys", "index", "readonly", "npstr"]
ANALYSES = [
    dict(),
    dict(conf_int="linear"),
    dict(method="robust", trend=False),
    dict(conf_int="MC", white=True),
    dict(conf_int="linear", white=True, order_constit="frequency"),
    dict(phase="raw", nodal=False),
    dict(phase="linear_time", nodal="linear_time"),
    dict(method="robust", conf_int="linear"),
]


def contain(a, kind):
    import pandas as pd

    n = len(a)
    if kind == "array":
        return a
    if kind == "list":
        return [float(x) for x in a]
    if kind == "list_np":
        return list(a)
    if kind == "tuple":
        return tuple(float(x) for x in a)
    if kind == "series":
        return pd.Series(a, index=np.arange(n)[::-1] * 3 + 5)
    if kind == "series_str":
        return pd.Series(a, index=[f"r{i * 37 % n}" for i in range(n)])
    if kind == "index":
        return pd.Index(a)
    if kind == "masked":
        return np.ma.array(a, mask=np.zeros(n, bool))
    if kind == "masked0":
        return np.ma.array(a)
    if kind == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == "strided":
        b = np.full(3 * n, 1e9)
        b[::3] = a
        return b[::3]
    if kind == "reversed":
        return a[::-1].copy()[::-1]
    if kind == "column":
        b = np.full((n, 4), -1e9)
        b[:, 2] = a
        return b[:, 2]
    if kind == "bigendian":
        return a.astype(">f8")
    if kind == "float16":
        return a.astype(np.float16)
    if kind == "float32":
        return a.astype(np.float32)
    if kind == "int64":
        return a.astype(np.int64)
    if kind == "int16":
        return a.astype(np.int16)
    if kind == "list_int":
        return [int(x) for x in a]
    if kind == "int32be":
        return a.astype(">i4")
    if kind == "masked_uint":
        return np.ma.array(a.astype(np.uint32), mask=np.zeros(n, bool))
    if kind == "series_int":
        return pd.Series(a.astype(int), index=np.arange(n) + 2)
    if kind.startswith("uint"):
        return a.astype(kind)
    raise KeyError(kind)


def sequence(names, kind):
    import pandas as pd

    if kind == "list":
        return list(names)
    if kind == "tuple":
        return tuple(names)
    if kind == "array":
        return np.array(names)
    if kind == "object":
        return np.array(names, dtype=object)
    if kind == "series":
        return pd.Series(list(names), index=np.arange(len(names)) + 4)
    if kind == "dictkeys":
        return dict.fromkeys(names).keys()
    if kind == "index":
        return pd.Index(list(names))
    if kind == "readonly":
        a = np.array(names)
        a.flags.writeable = False
        return a
    if kind == "npstr":
        return [np.str_(n) for n in names]
    raise KeyError(kind)


def data(integer_t, twodim):
    """Values exact in every container: the whole record is small integers or 1/64ths."""
    n = 240
    if integer_t:
        t = np.arange(n, dtype=float) + 100.0
        names = ["MM", "MSF"]
    else:
        t = 700.0 + np.arange(n) / 16.0
        names = ["M2", "K1", "MF"]
    k = np.arange(n)
    u = np.round(900 * np.cos(2 * np.pi * t / 0.5175) + 300 * np.sin(2 * np.pi * t / 27.5) + 60 * scen.lcg(n, 4) + 11)
    v = np.round(700 * np.sin(2 * np.pi * t / 0.5175 + 1) + 200 * np.cos(2 * np.pi * t / 13.7) + (k * 7) % 50) if twodim else None
    return t, u, v, names


TK = [k for k in KINDS if k not in ("int64", "int16")]


def cases(tier):
    ana = range(3) if tier == "quick" else range(len(ANALYSES))
    for a in ana:
        if tier == "quick":
            for tk, uk in itertools.product(KINDS, KINDS):
                yield dict(a=a, t=tk, u=uk)
                if a == 0:
                    yield dict(a=a, t=tk, u="array", v=uk)
                    yield dict(a=a, t="array", u=tk, v=uk)
        else:
            for tk, uk in itertools.product(KINDS, KINDS):
                yield dict(a=a, t=tk, u=uk)
                yield dict(a=a, t=tk, u="array", v=uk)
                yield dict(a=a, t="array", u=tk, v=uk)
    if tier != "quick":
        few = ["array", "list", "series", "masked", "strided", "reversed", "bigendian", "float32", "int64"]
        for tk, uk, vk in itertools.product(few, few, few):
            for a in range(3):
                yield dict(a=a, t=tk, u=uk, v=vk)
    for a in ana:
        for tk, uk in itertools.product(WHOLE, WHOLE):
            yield dict(a=a, t=tk, u=uk, whole=1)
            yield dict(a=a, t=tk, u="array", v=uk, whole=1)
    for k in WHOLE:
        for kind in ("1d", "2d"):
            yield dict(rec=k, kind=kind)
    # (half precision does not represent these times exactly)
    for opt in ("constit", "order", "both", "rconstit", "infer", "infer one", "approximate"):
        for k in SEQ:
            for kind in ("1d", "2d"):
                yield dict(seq=opt, k=k, kind=kind)
    for tk in KINDS:
        for kind in ("1d", "2d"):
            yield dict(rec=tk, kind=kind)


BASE = {}


def run(t, u, v, names, a, ctx):
    import utide

    np.random.seed(0)
    o = dict(conf_int="none", constit=names, verbose=False, epoch="python")
    o.update(ANALYSES[a])
    ctx.trace()
    return utide.solve(t, u, v, lat=40.0, **o)


def check(case, ctx):
    if case.get("t") == "float16" or case.get("rec") == "float16":
        return
    if "seq" in case:
        return seq(case, ctx)
    if "rec" in case:
        return rec(case, ctx)
    two = "v" in case
    integer_t = case["t"] in WHOLE
    t, u, v, names = data(integer_t, two)
    if "whole" in case:
        u, v = u + 2000, v + 2000 if two else None
    key = (integer_t, two, case["a"], "whole" in case)
    if key not in BASE:
        BASE[key] = scen.snapshot(run(t, u, v, names, case["a"], ctx))
    tc, uc = contain(t, case["t"]), contain(u, case["u"])
    vc = contain(v, case["v"]) if two else None
    c = run(tc, uc, vc, names, case["a"], ctx)
    got = scen.snapshot(c)
    mc = ANALYSES[case["a"]].get("conf_int") == "MC"
    scen.same_snapshot(ctx, BASE[key], got, f"t as {case['t']}, u as {case['u']}, v as {case.get('v')}", rtol=1e-6 if mc else 1e-9)
    for k in ("A", "g", "Lsmaj"):
        if k in c and (type(c[k]) is not np.ndarray or c[k].dtype != np.float64):
            ctx.fail(f"{case}: {k} is {type(c[k])} of {getattr(c[k], 'dtype', None)}")
    ctx.state(case)
    ctx.outcome("containers")


def seq(case, ctx):
    import utide

    w = scen.World(dict(kind=case["kind"]), noise=0.3)
    names = ["S2", "M2", "O1", "K1"]
    opts = dict(conf_int="linear", verbose=False, epoch="python", constit=names)
    w.opts = opts
    if case["k"] == "dictkeys" and case["seq"] in ("infer one", "approximate"):
        return  # no key twice
    arg = sequence(names, case["k"])
    inf = None
    if case["seq"] in ("infer", "infer one", "approximate"):
        n2 = 2 if case["kind"] == "2d" else 1
        inf = dict(inferred_names=["P1", "K2"], reference_names=["K1", "S2"], amp_ratios=[0.3, 0.2] * n2, phase_offsets=[10.0, -20.0] * n2)
        if case["seq"] != "infer":
            inf = dict(inferred_names=["P1", "K2", "S1"], reference_names=["K1", "S2", "K1"], amp_ratios=[0.3, 0.2, 0.1] * n2, phase_offsets=[10.0, -20.0, 50.0] * n2)
        if case["seq"] == "approximate":
            inf["approximate"] = True
        base = w.solve(infer=inf)
        got = w.solve(
            infer=dict(
                inf,
                inferred_names=sequence(inf["inferred_names"], case["k"]),
                reference_names=sequence(inf["reference_names"], case["k"]),
                amp_ratios=np.array(inf["amp_ratios"]) if case["k"] != "tuple" else tuple(inf["amp_ratios"]),
                phase_offsets=np.array(inf["phase_offsets"]) if case["k"] != "tuple" else tuple(inf["phase_offsets"]),
            ),
        )
    elif case["seq"] == "constit":
        base, got = w.solve(), w.solve(constit=arg)
    elif case["seq"] == "order":
        base, got = w.solve(order_constit=names), w.solve(order_constit=arg)
    elif case["seq"] == "both":
        base, got = w.solve(order_constit=names), w.solve(constit=arg, order_constit=arg)
    else:
        c = w.solve()
        t = w.t + 3
        sub = ["K1", "M2"]
        a = utide.reconstruct(t, c, epoch="python", constit=sub, verbose=False)
        b = utide.reconstruct(t, c, epoch="python", constit=sequence(sub, case["k"]), verbose=False)
        x = (a.h, b.h) if "h" in a else (a.u + 1j * a.v, b.u + 1j * b.v)
        scen.close(ctx, x[1], x[0], 1e-9, f"reconstruct constit as {case['k']}")
        ctx.trace(3)
        ctx.state(case)
        ctx.outcome("names")
        return
    ctx.trace(2)
    if [str(n) for n in base.name] != [str(n) for n in got.name]:
        ctx.fail(f"{case}: names {got.name} instead of {base.name}")
    scen.same_snapshot(ctx, scen.snapshot(base), scen.snapshot(got), f"{case['seq']} as {case['k']}")
    ctx.state(case)
    ctx.outcome("names")


def rec(case, ctx):
    import utide

    w = scen.World(dict(kind=case["kind"]), noise=0.3)
    c = w.solve()
    t = np.arange(40, dtype=float) * (1.0 if "int" in case["rec"] else 0.125) + (733000 if case["rec"] not in ("int16", "uint16") else 300)
    if case["rec"] == "float32":
        t = t - 733000 + 1000
    a = utide.reconstruct(t, c, epoch="python", verbose=False)
    b = utide.reconstruct(contain(t, case["rec"]), c, epoch="python", verbose=False)
    ctx.trace(2)
    x = (a.h, b.h) if "h" in a else (a.u + 1j * a.v, b.u + 1j * b.v)
    if type(x[1]) is not np.ndarray:
        ctx.fail(f"reconstruct with times as {case['rec']} returns {type(x[1])}")
    scen.close(ctx, x[1], x[0], 1e-8, f"reconstruct times as {case['rec']}")
    ctx.state(case)
    ctx.outcome("times")
