"""C02: reconstruct evaluates the coefficients pointwise at any time.

Space: (a) every scenario with at most k deviations x a set of time grids inside and far
outside the record; (b) every sequence of requested times over an alphabet of instants
and missing marks up to a length; (c) a ladder of numbers of requested times, in order, shuffled,
repeated and with missing marks.  Oracle: the sum over constituents written out by the
reference model from the numbers in the coefficient set, and, for (b), the value of each
time requested alone.
"""

import copy
import itertools
import math

import numpy as np
import ref
import scen

ID = "C02"
LEVEL = "model_checking"
BOUND = {
    "quick": "(a) <=2 deviations in 8 dimensions x 9 time grids; (b) all time sequences up to length 4 over 7 symbols, 4 coefficient sets; (c) 84 numbers of times up to 65537, 7 arrangements each; coefficient sets of 20-120 constituents and of 1-3; 15 shapes x 4 units x 4 options",
    "thorough": "(a) <=3 deviations in 8 dimensions x 9 time grids; (b) all time sequences up to length 5 over 7 symbols, 12 coefficient sets; (c) 99 numbers of times up to 262145, 7 arrangements each; coefficient sets of 20-120 constituents x 5 lengths and of 1-3 x 7 lengths; 15 shapes x 4 units x 4 options",
}
ASSUMPTIONS = ["tolerance 1e-7 of the signal range (1e-6 far outside the record)"]


def cases(tier):
    d = scen.dims(method=None, conf_int=None, white=None, order=None)
    k = 2 if tier == "quick" else 3
    for s in scen.deviations(d, k, fixed=("kind",)):
        yield dict(a=s)
    for n in ("list", "tuple", "scalar", "scalar64", "Series", "DatetimeIndex", "empty"):
        for kind in ("1d", "2d"):
            yield dict(c=n, kind=kind)
    confs = [
        dict(kind=kd, phase=ph, nodal=nd, trend=tr)
        for ph, nd, tr in (
            [("Greenwich", True, True), ("raw", False, False)]
            if tier == "quick"
            else [
                ("Greenwich", True, True),
                ("raw", False, False),
                ("linear_time", "linear_time", True),
                ("Greenwich", False, True),
                ("raw", True, True),
                ("linear_time", True, False),
            ]
        )
        for kd in ("1d", "2d")
    ]
    for k in (60, 20, 120) if tier == "quick" else (60, 20, 40, 80, 100, 120):
        for n in ((9000, 50000) if k == 60 else (9000,)) if tier == "quick" else (5000, 9000, 20000, 50000, 66000):
            yield dict(size=n, b=dict(confs[k % 3], samp=["even", 8790, 1.0]), many=k)
    for n in scen.sizes(tier):
        for cf in confs if n < 3000 or tier != "quick" else confs[:2]:
            yield dict(size=n, b=cf)
    for n in (1, 500, 2001, 9000, 33000) + ((65537, 140000) if tier != "quick" else ()):
        for m in (1, 2, 3):
            for cf in confs:
                yield dict(size=n, b=cf, few=m)
    for s in SHAPES:
        for unit in (1.0, 1e-9, 1e-13, 1e9):
            for cf in ({}, dict(phase="raw", nodal=False), dict(phase="raw"), dict(phase="linear_time", nodal="linear_time")):
                yield dict(shape=s, unit=unit, b=dict(cf, trend=False, kind="2d" if s in SHAPES2 else "1d"))
    L = 4 if tier == "quick" else 5
    syms = range(7)
    for cf in confs:
        for mode in ("float", "masked", "dt64"):
            for first in syms:
                for n in range(0, L):
                    yield dict(b=cf, mode=mode, first=first, rest=n)


def expected(coef, t, w, names=None):
    """Literal sum from the numbers in the coefficient set."""
    tref = coef["aux"]["reftime"]
    z = scen.phasors(coef)
    t = np.asarray(t, float)
    tr = (t - tref) if w.trend else np.zeros(len(t))
    if w.twodim:
        out = coef["umean"] + 1j * coef["vmean"] + 0j * t
        if w.trend:
            out = out + (coef["uslope"] + 1j * coef["vslope"]) * tr
        for n in names or z:
            E = ref.basis(t, n, tref, w.lat, w.phase, w.nodal)
            out = out + z[n][0] * E + z[n][1] * np.conj(E)
        return out
    out = coef["mean"] + 0.0 * t
    if w.trend:
        out = out + coef["slope"] * tr
    for n in names or z:
        E = ref.basis(t, n, tref, w.lat, w.phase, w.nodal)
        out = out + (z[n] * E).real
    return out


def value(out, w):
    return out.u + 1j * out.v if w.twodim else out.h


def grids(w):
    t0, t1 = w.t[0], w.t[-1]
    mid = 0.5 * (t0 + t1)
    yield "record", w.t
    yield "reversed", w.t[::-1]
    yield "one", np.array([mid + 0.123])
    yield "at reference", np.array([w.tref])
    yield "outside", t1 + np.linspace(0.01, 40, 23)
    yield "years away", np.array([t0 - 9.3 * 365.25, t0 - 365.25, t1 + 400.7, t1 + 18.6 * 365.25])
    yield "unsorted", np.array([t1 + 3, t0 - 2, mid, mid, t1 + 3, t0 - 2.5, mid + 0.1])
    yield "fine", mid + np.arange(-5, 6) / 86400.0
    yield "coarse", t0 + np.arange(0, 600, 37.5)


SYM = [0.0, 4.71, -300.2, 900.4]  # days from the reference time; then nan, inf, mask


def check(case, ctx):
    import utide

    if "a" in case:
        w = scen.World(case["a"], noise=0.2)
        c = w.solve(conf_int="none")
        ctx.state(case)
        scen.observe_coef(ctx, c)
        span = np.ptp(w.u) + w.scale
        sl = abs(np.asarray(scen.slope_of(c))).max() if w.trend else 0.0
        for name, t in grids(w):
            keep = t.copy()
            out = utide.reconstruct(t, c, epoch="python", verbose=False)
            ctx.trace()
            got = value(out, w)
            want = expected(c, t, w)
            if got.shape != t.shape:
                ctx.fail(f"{name}: {got.shape} values for {t.shape} times")
            far = np.abs(t - w.tref).max() + 1
            tol = 1e-7 * (span + 10 * w.scale) + 1e-12 * sl * far + 1e-10 * far * w.scale
            scen.close(ctx, got, want, tol, f"reconstruction at {name} times")
            if not np.array_equal(keep, t):
                ctx.fail(f"{name}: the requested times were modified")
            ctx.state(case, name)
        ctx.outcome("grid")
        return
    if "c" in case:
        return containers(case, ctx)
    if "size" in case:
        return sized(case, ctx)
    if "shape" in case:
        return shaped(case, ctx)
    w = scen.World(case["b"], noise=0.2)
    c = w.solve(conf_int="none")
    tref = c.aux.reftime
    mode = case["mode"]

    alone = []
    for d in SYM:
        o = utide.reconstruct(quant(tref, d, mode), c, verbose=False, epoch=None if mode == "dt64" else "python")
        ctx.trace()
        alone.append(complex(value(o, w)[0]))
        t = tval(tref, d, mode)
        scen.close(ctx, alone[-1], complex(expected(c, np.array([t]), w)[0]), 1e-5 if mode == "dt64" else 1e-7, "single time")
    for rest in itertools.product(range(7), repeat=case["rest"]):
        seq = (case["first"],) + rest
        t = build(seq, tref, mode)
        o = utide.reconstruct(t, c, verbose=False, epoch=None if mode == "dt64" else "python")
        ctx.trace()
        got = value(o, w)
        want = np.array([alone[k] if k < 4 else complex(np.nan, np.nan) for k in seq])
        if got.shape != want.shape:
            ctx.fail(f"times {seq}: shape {got.shape}")
        if np.ma.isMaskedArray(got):
            ctx.fail(f"times {seq}: masked result")
        for k, (g, x) in enumerate(zip(got, want)):
            if math.isnan(x.real):
                bad = not (np.isnan(np.real(g)) and (not w.twodim or np.isnan(np.imag(g))))
            else:
                bad = not abs(g - x) <= 1e-9 * (1 + abs(x))
            if bad:
                ctx.fail(f"{mode} times {seq} (symbols 0-3 instants, 4 nan, 5 inf, 6 masked): value [{k}] is {g!r}, alone {x!r}")
        ctx.step(len(seq))
        ctx.state(case["b"], mode, sorted(seq), len(seq))
    ctx.outcome("sequences", 7 ** case["rest"])


# constants written into a coefficient set: what each component does counts by itself
SHAPES2 = {
    "plain": ([1.0, 0.6, 0.3, 0.2], [0.5, -0.3, 0.1, 0.0], [20.0, 110.0, 0.0, 90.0], [10.0, 200.0, 90.0, 359.0]),
    "along x": ([1.0, 0.6, 0.3, 0.2], [0.0] * 4, [0.0] * 4, [10.0, 200.0, 90.0, 359.0]),
    "along y": ([1.0, 0.6, 0.3, 0.2], [0.0] * 4, [90.0] * 4, [10.0, 200.0, 90.0, 359.0]),
    "narrow x": ([1.0, 0.6, 0.3, 0.2], [1e-6, -1e-6, 2e-6, -3e-6], [0.0] * 4, [10.0, 200.0, 90.0, 359.0]),
    "narrow y": ([1.0, 0.6, 0.3, 0.2], [1e-6, -1e-6, 2e-6, -3e-6], [90.0] * 4, [10.0, 200.0, 90.0, 359.0]),
    "nearly along x": ([1.0, 0.6, 0.3, 0.2], [0.0] * 4, [1e-5, 0.0, 2e-4, 0.0], [10.0, 200.0, 90.0, 359.0]),
    "circles": ([1.0, 0.6, 0.3, 0.2], [1.0, -0.6, 0.3, -0.2], [0.0, 30.0, 60.0, 179.0], [10.0, 200.0, 90.0, 359.0]),
    "nearly circles": ([1.0, 0.6, 0.3, 0.2], [0.999999, -0.5999999, 0.299999, -0.1999999], [0.0, 30.0, 60.0, 179.0], [10.0, 200.0, 90.0, 359.0]),
    "one strong": ([1e6, 1e-3, 1e-3, 1e-3], [0.0, 5e-4, -5e-4, 0.0], [0.0, 10.0, 90.0, 170.0], [10.0, 200.0, 90.0, 0.0]),
    "still": ([0.0] * 4, [0.0] * 4, [0.0] * 4, [0.0] * 4),
}
SHAPES1 = {
    "heights": ([1.0, 0.6, 0.3, 0.2], [10.0, 200.0, 90.0, 359.0]),
    "one strong height": ([1e6, 1e-3, 1e-4, 1e-5], [10.0, 200.0, 90.0, 0.0]),
    "no phases": ([1.0, 0.6, 0.3, 0.2], [0.0] * 4),
    "opposite": ([1.0, 0.6, 0.3, 0.2], [180.0] * 4),
    "no height": ([0.0] * 4, [0.0] * 4),
}
SHAPES = {**SHAPES2, **SHAPES1}


def shaped(case, ctx):
    """Constants of every shape and unit: each component to its own accuracy."""
    import utide

    w = scen.World(case["b"], noise=0.1, names=["M2", "K1", "S2", "O1"])
    base = w.solve(conf_int="none", order_constit=w.names)
    x = [np.array(a) for a in SHAPES[case["shape"]]]
    f = case["unit"]
    keys = ("Lsmaj", "Lsmin", "theta", "g") if w.twodim else ("A", "g")
    # all together, and every constituent alone
    for only in (None, 0, 1, 2, 3):
        c = copy.deepcopy(base)
        for k, a in zip(keys, x):
            c[k] = a * (f if k in ("Lsmaj", "Lsmin", "A") else 1.0)
        if only is not None:
            c[keys[0]][np.arange(4) != only] = 0
            if w.twodim:
                c["Lsmin"][np.arange(4) != only] = 0
        for k in ("mean", "umean", "vmean"):
            if k in c:
                c[k] = 0.0
        for name, t in grids(w):
            o = utide.reconstruct(t, c, epoch="python", verbose=False)
            want = expected(c, t, w)
            ctx.trace()
            far = np.abs(t - w.tref).max() + 1
            size = np.abs(c[keys[0]]).max()
            for k in "uv" if w.twodim else "h":
                e = want.imag if k == "v" else want.real
                own = np.abs(e).max()
                # rounding: of the phases for the component itself, of the sum for the vector
                tol = (1e-10 + 1e-10 * far) * own + 1e-13 * size
                scen.close(ctx, o[k], e, tol, f"{case['shape']} in units of {f}, {'all' if only is None else only}: {k} at {name} times")
            ctx.state(case, only, name)
    ctx.outcome("shapes")


FEW = ["O1", "N2", "M4"]


def sized(case, ctx):
    """Many times at once, in order, shuffled, years around, with missing marks."""
    import utide

    n = case["size"]
    w = scen.World(case["b"], noise=0.2, names=FEW[: case["few"]] if "few" in case else scen.many(case["many"]) if "many" in case else None)
    c = w.solve(conf_int="none")
    t = w.t[0] - 30.0 + np.arange(n) / 24.0
    want = expected(c, t, w)
    p = scen.shuffled(n)
    wide = w.tref + (np.arange(n) - n / 3.0) * (20 * 365.25 / n)
    wide_want = expected(c, wide, w)
    holes = t.copy()
    holes[[0, n // 2, n - 1]] = np.nan
    holes_want = want.copy()
    holes_want[[0, n // 2, n - 1]] = complex(np.nan, np.nan) if w.twodim else np.nan
    for name, tt, x in (
        ("in order", t, want),
        ("reversed", t[::-1], want[::-1]),
        ("shuffled", t[p], want[p]),
        ("shuffled over 20 years", wide[p], wide_want[p]),
        ("with missing times", holes, holes_want),
        ("shuffled with missing times", holes[p], holes_want[p]),
        ("repeated", np.repeat(t[: n // 2 + 1], 2)[:n], np.repeat(want[: n // 2 + 1], 2)[:n]),
    ):
        got = value(utide.reconstruct(tt, c, epoch="python", verbose=False), w)
        ctx.trace()
        ctx.state(case, name)
        far = np.nanmax(np.abs(tt - w.tref)) + 1
        scen.close(ctx, got, x, 1e-7 + 1e-10 * far, f"{n} times {name}")
    ctx.outcome("many constituents" if "many" in case else "sizes")


def tval(tref, d, mode):
    t = tref + d
    if mode == "dt64":
        ms = int(round((t - 719163) * 86400000))
        return ms / 86400000 + 719163
    return t


def dt64(tref, d):
    return np.datetime64(int(round((tref + d - 719163) * 86400000)), "ms")


def quant(tref, d, mode):
    if mode == "dt64":
        return np.array([dt64(tref, d)])
    return np.array([tref + d])


def build(seq, tref, mode):
    if mode == "dt64":
        # NaT, NaT, masked (here also NaT): three spellings
        a = np.array([dt64(tref, SYM[k]) if k < 4 else np.datetime64("NaT", "ms") for k in seq])
        if 6 in seq:
            m = np.array([k == 6 for k in seq])
            a[m] = dt64(tref, 1.0)
            return np.ma.array(a, mask=m)
        return a
    a = np.array([tref + SYM[k] if k < 4 else (np.nan if k == 4 else np.inf if k == 5 else tref + 0.77) for k in seq])
    if mode == "masked":
        return np.ma.array(a, mask=[k == 6 for k in seq])
    a[[k == 6 for k in seq]] = -np.inf
    return a


def containers(case, ctx):
    import datetime

    import pandas as pd
    import utide

    w = scen.World(dict(kind=case["kind"]), noise=0.1)
    c = w.solve()
    base = [w.tref + d for d in (0.0, 0.25, -3.5)]
    dts = [datetime.datetime(1, 1, 1) + datetime.timedelta(days=x - 1) for x in base]
    n = case["c"]
    ep = "python"
    if n == "list":
        t = base
    elif n == "tuple":
        t = tuple(base)
    elif n == "scalar":
        t, base = base[1], base[1:2]
    elif n == "scalar64":
        t, base, ep = np.datetime64(dts[1]), base[1:2], None
    elif n == "Series":
        t = pd.Series(base, index=[5, 1, 9])
    elif n == "DatetimeIndex":
        t, ep = pd.DatetimeIndex(dts), None
    elif n == "empty":
        t, base = np.array([], dtype=float), []
    o = utide.reconstruct(t, c, epoch=ep, verbose=False)
    ctx.trace()
    ctx.state(case)
    scen.close(ctx, value(o, w), expected(c, np.array(base, float), w), 1e-5 if ep is None else 1e-7, f"times as {n}")
    ctx.outcome("container")
