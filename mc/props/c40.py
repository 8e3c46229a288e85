"""C40: the order in which the samples are given does not matter.

Space: all orders of the samples of short records; all orders of the blocks of longer
ones, with each block forwards or backwards; all exchanges of two samples; reversal,
rotation, interleaving; over elevation and velocity, even, irregular and gappy sampling,
missing samples, repeated instants, methods, noise models and model options.
Oracle: the result for the samples in the order of time.
"""

import itertools

import numpy as np
import scen

ID = "C40"
LEVEL = "model_checking"
BOUND = {
    "quick": "all 720 orders of 6 samples x 16 configurations; all orders of 3 blocks x reversed or not, of 4 blocks, and exchanges among 9 positions for scenarios with <=1 deviation in 10 dimensions; numbers of samples around powers of 2 and 10 up to 65537",
    "thorough": "all 5040 orders of 7 samples x 48 configurations; all orders of 4 blocks x reversed or not, of 5 blocks, and exchanges among about 20 positions for scenarios with <=1 deviation in 10 dimensions, of 3 and 4 blocks and 9 positions for those with 2; numbers of samples around powers of 2 and 10 up to 262145",
}
ASSUMPTIONS = [
    "Monte-Carlo intervals are compared to within sampling variation (a factor of 2)",
    "colored intervals are compared where no instant is repeated",
]
SMALL = ["M2"]


def cases(tier):
    n = 6 if tier == "quick" else 7
    for kind in ("1d", "2d"):
        for samp in ("even", "irr") if tier == "quick" else ("even", "irr", "twice"):
            for method in ("ols", "robust") if tier == "quick" else ("ols", "robust", "huber"):
                for nodal, phase in ((True, "Greenwich"), ("linear_time", "linear_time"), (False, "raw"), (False, "Greenwich"))[: 2 if tier == "quick" else 4]:
                    for first in range(n):
                        yield dict(small=n, kind=kind, samp=samp, method=method, nodal=nodal, phase=phase, first=first)
    d = scen.dims(conf_int=["linear", "none", "MC"], cons=None, lat=[45.0, -33.3], start=[733000.0, 719163.4], signal=None, white=[False, True])
    d["samp"] = ["h361", "irr", "gap", "20m", "long"]
    d["marks"] = [0, 1]
    d["auto"] = [0, 1]
    d["again"] = [0, 1]
    one = [repr(sorted(s.items())) for s in scen.deviations(d, 1, fixed=("kind", "samp"))]
    for s in scen.deviations(d, 1 if tier == "quick" else 2, fixed=("kind", "samp")):
        deep = tier != "quick" and repr(sorted(s.items())) in one
        if s["auto"] and s.get("order") == "list":
            continue  # the list would have to name all of them
        if s["again"] and not s["white"]:
            s["conf_int"] = "none"
        for what in ("blocks", "turned", "swaps", "named"):
            yield dict(s, what=what, deep=int(deep))
    for n in scen.sizes(tier, 97):
        for kind in ("1d", "2d"):
            yield dict(n=n, kind=kind)


def named(n):
    i = np.arange(n)
    h = n // 2
    yield "reversed", i[::-1]
    yield "rotated", np.roll(i, n // 3)
    yield "rotated by one", np.roll(i, 1)
    yield "last first", np.r_[n - 1, i[: n - 1]]
    yield "even then odd", np.r_[i[::2], i[1::2]]
    yield "odd backwards then even", np.r_[i[1::2][::-1], i[::2]]
    yield "halves exchanged", np.r_[i[h:], i[:h]]
    yield "middle reversed", np.r_[i[:h // 2], i[h // 2 : n - 3][::-1], i[n - 3 :]]
    yield "every seventh", np.argsort(i % 7, kind="stable")
    yield "scattered", np.argsort(scen.lcg(n, 11), kind="stable")


def blocks(n, k, turned):
    """All orders of k blocks of unequal lengths, each as it is or backwards."""
    cuts = [0] + [int(n * x) for x in np.cumsum(np.arange(2, k + 2) / sum(range(2, k + 2)))[:-1]] + [n]
    parts = [np.arange(a, b) for a, b in zip(cuts, cuts[1:])]
    for order in itertools.permutations(range(k)):
        for turn in itertools.product((1, -1), repeat=k) if turned else [(1,) * k]:
            yield f"blocks {order} {turn}", np.concatenate([parts[j][:: turn[j]] for j in order])


def swaps(n, m):
    pos = sorted({0, 1, 2, n // 2, n // 2 + 1, n - 3, n - 2, n - 1} | set(np.linspace(0, n - 1, m, dtype=int).tolist()))
    for a, b in itertools.combinations(pos, 2):
        i = np.arange(n)
        i[[a, b]] = b, a
        yield f"samples {a} and {b} exchanged", i


def differ(ctx, base, got, perm, what, rtol, loose):
    a, b = base["snap"], scen.snapshot(got)
    skip = {k for k in a if k.endswith("_ci") or k == "SNR"} if loose else set()
    scen.same_snapshot(ctx, a, b, what, rtol=rtol, skip=skip)
    for k in skip:
        for n in a[k]:
            p, q = a[k][n], b[k][n]
            f = 4.0 if k == "SNR" else 2.0
            if np.isnan(p) != np.isnan(q) or p > f * q or q > f * p:
                ctx.fail(f"{what}: {k}[{n}] is {q!r} instead of {p!r}")
    w = np.full(len(perm), np.nan)
    used = base["used"]
    if np.shape(got.weights) != (int(used.sum()),):
        ctx.fail(f"{what}: {np.shape(got.weights)} weights for {used.sum()} used samples")
    w[perm[used[perm]]] = got.weights
    scen.close(ctx, w[used], base["weights"], 1e-5, what + ": weights")
    ctx.trace()


def small(case, ctx):
    """All orders of a handful of samples that begin with the given one."""
    import utide

    n = case["small"]
    t = 733000.0 + 0.11 * np.arange(n)
    if case["samp"] == "irr":
        t = t + 0.03 * scen.lcg(n, 6)
    elif case["samp"] == "twice":
        t[3] = t[2]
    u = np.cos(2 * np.pi * t / 0.5175) + 0.3 * scen.lcg(n, 7)
    v = 0.4 * np.sin(2 * np.pi * t / 0.5175) + 0.2 * scen.lcg(n, 8) if case["kind"] == "2d" else None
    if case["method"] != "ols":
        u[2] += 4.0
    o = dict(
        constit=SMALL,
        trend=False,
        nodal=case["nodal"],
        phase=case["phase"],
        conf_int="linear",
        white=True,
        method="ols" if case["method"] == "ols" else "robust",
        epoch="python",
        verbose=False,
        lat=45.0,
    )
    if case["method"] == "huber":
        o["robust_kw"] = dict(weight_function="huber")
    c = utide.solve(t, u, v, **o)
    base = dict(snap=scen.snapshot(c), used=np.ones(n, bool), weights=c.weights)
    scen.observe_coef(ctx, c)
    first = case["first"]
    rest = [i for i in range(n) if i != first]
    for p in itertools.permutations(rest):
        perm = np.array((first,) + p)
        got = utide.solve(t[perm], u[perm], None if v is None else v[perm], **o)
        differ(ctx, base, got, perm, f"order {perm.tolist()}", 1e-6, False)
    ctx.state(case)
    ctx.outcome("short records")


def check(case, ctx):
    import utide

    if "small" in case:
        return small(case, ctx)
    extra = ("what", "marks", "auto", "again", "n", "deep")
    s = {k: v for k, v in case.items() if k not in extra}
    what = case.get("what", "named")
    if "n" in case:
        s = dict(kind=case["kind"], samp=["even", case["n"], 1.0], white=False, conf_int="linear")
    w = scen.World(s, names=["M2", "K1", "O1"], noise=0.2)
    t, u, v = w.t, w.u.copy(), None if w.v is None else w.v.copy()
    if case.get("again"):
        # some instants are recorded twice
        t = t.copy()
        t[[7, 50, 51]] = t[[6, 53, 53]]
        order = np.argsort(t, kind="stable")
        t, u, v = t[order], u[order], None if v is None else v[order]
    if case.get("marks"):
        u[[0, 5, 6, 100, 101, 102, len(t) - 2]] = np.nan
        if v is not None:
            v[[6, 40]] = np.nan
    if s.get("method") == "robust":
        u[[13, 77]] += 5.0
    used = ~np.isnan(u) if v is None else ~(np.isnan(u) | np.isnan(v))
    over = dict(constit="auto") if case.get("auto") else {}

    def run(perm):
        w.t, w.u, w.v = t[perm], u[perm], None if v is None else v[perm]
        return w.solve(**over)

    n = len(t)
    c = run(np.arange(n))
    base = dict(snap=scen.snapshot(c), used=used, weights=c.weights)
    scen.observe_coef(ctx, c)
    ctx.trace()
    deep = case.get("deep")
    if what == "named":
        perms = named(n)
    elif what == "turned":
        perms = blocks(n, 4 if deep else 3, True)
    elif what == "blocks":
        perms = blocks(n, 5 if deep else 4, False)
    else:
        perms = swaps(n, 15 if deep else 2)
    for j, (name, perm) in enumerate(perms):
        if n > 3000 and ctx.tier == "quick" and j not in (0, 6, 9):
            continue
        differ(ctx, base, run(perm), perm, name, 1e-6, w.opts["conf_int"] == "MC")
        ctx.state(case, name)
    ctx.outcome(what if "n" not in case else "sizes")
