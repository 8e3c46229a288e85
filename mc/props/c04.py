"""C04: missing samples are equivalent to absent samples.

Space: all sets of up to 2 (3 thorough) missing marks over 7 positions x the kinds of
mark applicable to t, u and v (NaN, +-inf, NaT, masked with garbage beneath), and all
subsets of 6 positions with uniform marks; elevation and velocity, model options.
Oracle: the solution for the arrays from which the marked samples were deleted.
"""

import itertools

import numpy as np
import ref
import scen

ID = "C04"
LEVEL = "model_checking"
BOUND = {
    "quick": "all sets of <=2 marks (7 positions x 8-12 kinds) for 2 kinds of record, and all 64 subsets of 6 positions x kinds x 8 model configurations; numbers of samples around powers of 2 and 10 up to 65537",
    "thorough": "all sets of <=2 marks for 12 configurations; all sets of 3 marks over 4 positions; all 256 subsets of 8 positions x kinds x 24 model configurations; numbers of samples around powers of 2 and 10 up to 262145",
}
ASSUMPTIONS = [
    "explicit constituents; marks at the ends only with options that do not use the reference date, which is a convention of the record",
]
POS = [0, 1, 2, 40, 71, 95, 96]
GARB = [1e30, np.nan, -9999.0, np.inf]

KINDS1 = ["t:nan", "t:inf", "t:mask", "u:nan", "u:inf", "u:-inf", "u:mask", "tu:mask"]
KINDS2 = KINDS1 + ["v:nan", "v:-inf", "v:mask", "uv:mask"]
KINDSDT = ["t:nat", "t:mask", "u:nan", "u:mask"]


def kinds(kind):
    return KINDS2 if kind == "2d" else KINDS1


def cases(tier):
    base = [dict(kind="1d"), dict(kind="2d")]
    more = [
        dict(kind=k, **o)
        for k in ("1d", "2d")
        for o in (
            dict(method="robust"),
            dict(trend=False),
            dict(samp2="irr"),
            dict(phase="linear_time"),
            dict(phase="raw", nodal=False),
            dict(nodal="linear_time", trend=False),
            dict(dt64=1),
        )
    ]
    for m in base + (more if tier != "quick" else []):
        ks = KINDSDT if m.get("dt64") else kinds(m["kind"])
        marks = [(p, k) for p in POS for k in ks]
        for a in marks:
            yield dict(m=m, marks=[a], rest=0)
        for i in range(len(marks)):
            yield dict(m=m, marks=[marks[i]], pairs=i)
    for m in base + more:
        ks = KINDSDT if m.get("dt64") else kinds(m["kind"])
        for k in ks:
            yield dict(m=m, subsets=k, npos=6 if tier == "quick" else 8)
    if tier != "quick":
        for m in base:
            marks = [(p, k) for p in (0, 1, 50, 96) for k in kinds(m["kind"])]
            for i, a in enumerate(marks):
                for b in marks[i + 1 :]:
                    yield dict(m=m, marks=[a, b], third=1)
    for n in scen.sizes(tier, 97):
        for m in base if n > 3000 and tier == "quick" else base + more:
            yield dict(m=dict(m, n=n), spread=1)
    # auto selection and intervals keep working with gaps
    for kind in ("1d", "2d"):
        for conf in ("linear", "MC"):
            for white in (True, False):
                yield dict(m=dict(kind=kind), ci=conf, white=white)
                for samp in ({}, dict(samp2="irr")):
                    for o in ({}, dict(trend=False), dict(method="robust"), dict(phase="raw", nodal=False), dict(phase="linear_time", nodal="linear_time")):
                        for auto in (False, True):
                            yield dict(m=dict(kind=kind, **samp, **o), whole=conf, white=white, auto=auto)


def record(m):
    s = {k: v for k, v in m.items() if k not in ("samp2", "dt64", "n")}
    s["samp"] = ["even", m["n"], 1.0] if "n" in m else "day4"
    w = scen.World(s, names=["M2", "K1", "M4"], noise=0.1)
    if m.get("samp2"):
        w.t = np.sort(w.t + 0.01 * scen.lcg(w.n, 5))
        ww = ref.velocity(w.t, w.truth, *(w.tref, w.lat, w.phase, w.nodal)) if w.twodim else None
        if w.twodim:
            w.u, w.v = ww[0] + 0.1 * scen.lcg(w.n, 8), ww[1] + 0.1 * scen.lcg(w.n, 9)
    return w


def interior_only(m):
    return bool(m.get("phase", "Greenwich") != "Greenwich" or m.get("nodal", True) == "linear_time" or m.get("nodal", True) is False)


def apply(w, m, marks):
    """Marked copies of t, u, v, and the boolean array of surviving samples."""
    n = w.n
    arr = dict(t=w.t.copy(), u=w.u.copy())
    if w.twodim:
        arr["v"] = w.v.copy()
    if m.get("dt64"):
        arr["t"] = to_dt(w.t)
    mask = {k: np.zeros(n, bool) for k in arr}
    good = np.ones(n, bool)
    for j, (p, k) in enumerate(marks):
        which, what = k.split(":")
        good[p] = False
        for a in which:
            if what == "mask":
                mask[a][p] = True
                if arr[a].dtype.kind == "M":
                    arr[a][p] = np.datetime64("1900-01-01")
                else:
                    arr[a][p] = GARB[(p + j) % 4] if a != "t" else GARB[(p + j) % 2]
            elif what == "nat":
                arr[a][p] = np.datetime64("NaT")
            else:
                arr[a][p] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[what]
    for a in arr:
        if mask[a].any():
            arr[a] = np.ma.array(arr[a], mask=mask[a])
    return arr, good


def to_dt(t):
    return (np.round((t - 719163) * 86400000)).astype("int64").astype("datetime64[ms]")


def run(w, m, arr, **over):
    import utide

    opts = dict(w.opts, conf_int="none")
    opts.update(over)
    if m.get("dt64"):
        opts["epoch"] = None
    if opts["conf_int"] == "MC":
        np.random.seed(0)
    return utide.solve(arr["t"], arr["u"], arr.get("v"), lat=w.lat, **opts)


def compare(ctx, w, m, marks, clean):
    arr, good = apply(w, m, marks)
    c = run(w, m, arr)
    key = tuple(np.nonzero(~good)[0])
    ctx.trace()
    ctx.state(m, key, sorted({k for _, k in marks}))
    if key not in clean:
        base = dict(t=to_dt(w.t) if m.get("dt64") else w.t, u=w.u)
        if w.twodim:
            base["v"] = w.v
        clean[key] = run(w, m, {a: x[good] for a, x in base.items()})
        ctx.trace()
    d = clean[key]
    what = f"marks {marks}"
    tol = 1e-6
    scen.compare_phasors(ctx, scen.phasors(c), scen.phasors(d), tol, what + ": amplitudes", names=w.model)
    # the mean line, whatever date the mean is referred to
    for days in (-2.0, 0.0, 2.0):
        def line(q):
            return np.ravel(scen.mean_of(q)) + np.ravel(scen.slope_of(q)) * (w.tref + days - q.aux.reftime)

        scen.close(ctx, line(c), line(d), tol, what + ": mean line")
    if np.shape(c.weights) != (int(good.sum()),):
        ctx.fail(f"{what}: {np.shape(c.weights)} weights for {good.sum()} used samples")
    scen.close(ctx, c.weights, d.weights, 1e-5, what + ": weights")


def check(case, ctx):
    m = case["m"]
    w = record(m)
    clean = {}
    edge = interior_only(m)

    def allowed(marks):
        return not (edge and any(p in (0, w.n - 1) for p, _ in marks))

    if "whole" in case:
        return whole(case, ctx, w, m)
    if "ci" in case:
        return intervals(case, ctx, w, m)
    if "spread" in case:
        # a mark of every kind, far apart, and a run of marks
        ks = KINDSDT if m.get("dt64") else kinds(m["kind"])
        lo = 1 if edge else 0
        pos = np.unique(np.linspace(lo, w.n - 1 - lo, 2 * len(ks)).astype(int))
        compare(ctx, w, m, [(int(p), ks[i % len(ks)]) for i, p in enumerate(pos)], clean)
        for k in ks[:: 2 if w.n > 3000 else 1]:
            compare(ctx, w, m, [(w.n // 3 + i, k) for i in range(7)] + [(w.n - 2, k)], clean)
        ctx.outcome("sizes")
        return
    if "subsets" in case:
        pos = [0, 1, 33, 34, 60, 96, 61, 95][: case["npos"]]
        if edge:
            pos = [3, 1, 33, 34, 60, 90, 61, 95][: case["npos"]]
        for r in range(len(pos) + 1):
            for sub in itertools.combinations(pos, r):
                compare(ctx, w, m, [(p, case["subsets"]) for p in sub], clean)
        ctx.outcome("subsets", 2 ** len(pos))
        return
    marks = [tuple(x) for x in case["marks"]]
    if "pairs" in case:
        ks = KINDSDT if m.get("dt64") else kinds(m["kind"])
        allm = [(p, k) for p in POS for k in ks]
        for b in allm[case["pairs"] + 1 :]:
            if b[0] == marks[0][0] and b[1][0] == marks[0][1][0]:
                continue
            if allowed(marks + [b]):
                compare(ctx, w, m, marks + [b], clean)
                ctx.outcome("pair")
        return
    if "third" in case:
        allm = [(p, k) for p in (0, 1, 50, 96) for k in kinds(m["kind"])]
        last = allm.index(marks[-1])
        for b in allm[last + 1 :]:
            if len({marks[0][0], marks[1][0], b[0]}) == 3:
                compare(ctx, w, m, marks + [b], clean)
                ctx.outcome("triple")
        return
    if allowed(marks):
        compare(ctx, w, m, marks, clean)
        ctx.outcome("single")


def intervals(case, ctx, w, m):
    """Values hidden under marks never matter to the intervals either."""
    pos = [0, 5, 6, 50, 96]
    res = []
    for k in ("u:nan", "u:inf", "u:mask", "tu:mask", "t:mask", "t:nan"):
        arr, good = apply(w, m, [(p, k) for p in pos])
        c = run(w, m, arr, conf_int=case["ci"], white=case["white"])
        ctx.trace()
        res.append((k, c))
    for group in (("u:nan", "u:inf", "u:mask"), ("tu:mask", "t:mask", "t:nan")):
        first = None
        for k, c in res:
            if k not in group:
                continue
            s = scen.snapshot(c)
            if first is None:
                first = s
            else:
                scen.same_snapshot(ctx, first, s, f"{k} versus {group[0]}", rtol=1e-7)
            if any(np.isnan(x).any() for x in (c.g, c.PE)):
                ctx.fail(f"{k}: NaN in the solution")
    ctx.state(case)
    ctx.outcome("intervals")


def whole(case, ctx, w, m):
    """Everything in the result, intervals and automatic choice included, is that of the
    record without the marked samples: marked times always; marked values where the
    times are irregular (else the gaps in an even record are interpolated to find
    spectra), or the noise is white."""
    over = dict(conf_int=case["whole"], white=case["white"])
    if case["auto"]:
        over["constit"] = "auto"
    irregular = "samp2" in m
    for pos in ([0, 5, 6, 50, 96], [1, 2, 3, 30, 31, 32, 33, 34, 35, 70], list(range(20, 45))):
        clean = None
        if pos[0] == 0 and not irregular and interior_only(m):
            continue
        for k in kinds(m["kind"]):
            if not irregular and "t" not in k.split(":")[0] and (not case["white"] or 0 in pos):
                continue
            arr, good = apply(w, m, [(p, k) for p in pos])
            if clean is None:
                base = dict(t=w.t, u=w.u, **(dict(v=w.v) if w.twodim else {}))
                clean = scen.snapshot(run(w, m, {a: x[good] for a, x in base.items()}, **over))
                ctx.trace()
            got = scen.snapshot(run(w, m, arr, **over))
            ctx.trace()
            scen.same_snapshot(ctx, clean, got, f"{k} at {pos[:3]}...: whole result", rtol=1e-6)
            ctx.state(case, pos, k)
    ctx.outcome("whole results")
