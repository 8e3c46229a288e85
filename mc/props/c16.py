"""C16: solutions scale with the units and shift with offset and trend.

Space: every scenario with at most k deviations, with noise, x factors over 65 (thorough: 100)
orders of magnitude, negation, offsets and added trends.
Oracle: the transformed solution of the untransformed record.
"""

import copy

import numpy as np
import scen

ID = "C16"
LEVEL = "model_checking"
BOUND = {
    "quick": "scenarios with <=2 deviations in 9 dimensions (elevation and velocity) x 5 factors, negation, 2 offsets, 2 added trends",
    "thorough": "scenarios with <=3 deviations in 9 dimensions (elevation and velocity) x 8 factors, negation, 4 offsets, 3 added trends",
}
ASSUMPTIONS = [
    "Monte-Carlo intervals of amplitudes and semi-axes are compared to within a factor of two under a fixed random seed (the"
    " factorization of a nearly isotropic covariance decides which realizations are drawn), and not under negation",
]
FACTORS = [1e-9, 0.37, 12.0, 1e25, 1e-40, 2.0**-30, 1e60, 1e-4]
OFFSETS = [-3.7, 2e4, 0.5, -1e3]
SLOPES = [0.21, -4.0, 1e-3]
SIZES = ("A", "A_ci", "Lsmaj", "Lsmaj_ci", "Lsmin", "Lsmin_ci")
LINES = ("mean", "slope", "umean", "vmean", "uslope", "vslope")


def cases(tier):
    d = scen.dims(start=None, order=None, signal=None, conf_int=["linear", "none", "MC"], lat=[45.0, -10.0])
    d["samp"] = ["h361", "irr", "gap", "h360"]
    d["infer"] = [0, 1]
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind",)):
        if s["infer"] and s["conf_int"] == "MC":
            continue
        yield s


def scaled(snap, f):
    out = copy.deepcopy(snap)
    for k in SIZES:
        if k in out:
            out[k] = {n: x * f for n, x in out[k].items()}
    for k in LINES:
        if k in out:
            out[k] *= f
    return out


def check(case, ctx):
    w = scen.World({k: v for k, v in case.items() if k != "infer"}, noise=0.3)
    over = {}
    if case["infer"]:
        k = 2 if w.twodim else 1
        over["infer"] = dict(inferred_names=["K2"], reference_names=[w.names[0]], amp_ratios=[0.3, 0.2][:k], phase_offsets=[10.0, -40.0][:k])
    u, v = w.u, w.v

    def sol(uu, vv):
        w.u, w.v = uu, vv
        ctx.trace()
        return scen.snapshot(w.solve(**over))

    mc = case["conf_int"] == "MC"
    skip = tuple(k for k in ("A_ci", "Lsmaj_ci", "Lsmin_ci", "g_ci", "theta_ci", "SNR")) if mc else ()

    def same(want, got, what, rtol, also=()):
        scen.same_snapshot(ctx, want, got, what, rtol=rtol, skip=skip + tuple(also))
        for k in ("A_ci", "Lsmaj_ci", "Lsmin_ci") if mc else ():
            for n, x in want.get(k, {}).items():
                if not (x / 2 <= got[k][n] <= 2 * x):
                    ctx.fail(f"{what}: {k}[{n}] is {got[k][n]!r} instead of about {x!r}")

    base = sol(u, v)
    robust = case["method"] == "robust"
    rt = 1e-6 if case["conf_int"] == "MC" or robust else 1e-8
    deep = ctx.tier != "quick"
    for f in FACTORS if deep else FACTORS[:5]:
        got = sol(u * f, None if v is None else v * f)
        same(scaled(base, f), got, f"data multiplied by {f}", rt)
        ctx.state(case, "factor", f)
    # negation: 180 degrees of phase (elevation) or of the vectors
    got = sol(-u, None if v is None else -v)
    neg = copy.deepcopy(base)
    for k in LINES:
        if k in neg:
            neg[k] = -neg[k]
    neg["g"] = {n: (x + 180.0) % 360.0 for n, x in base["g"].items()}
    scen.same_snapshot(ctx, neg, got, "negated data", rtol=rt, skip=skip)
    one = np.ones(w.n)
    for i, o in enumerate(OFFSETS if deep else OFFSETS[:2]):
        got = sol(u + o, None if v is None else v - 2 * o * one)
        want = copy.deepcopy(base)
        for k, x in (("mean", o), ("umean", o), ("vmean", -2 * o)):
            if k in want:
                want[k] += x
        lines(ctx, want, got, f"offset {o}", 1e-9 * (1 + abs(o)))
        same(want, got, f"data offset by {o}", max(rt, 1e-11 * abs(o)), LINES)
        ctx.state(case, "offset", o)
    if case["trend"]:
        for s in SLOPES if deep else SLOPES[:2]:
            x = s * (w.t - w.tref)
            got = sol(u + x + 0.5, None if v is None else v - 0.5 * x)
            want = copy.deepcopy(base)
            for k, y in (("slope", s), ("uslope", s), ("vslope", -0.5 * s), ("mean", 0.5), ("umean", 0.5)):
                if k in want:
                    want[k] += y
            lines(ctx, want, got, f"trend {s}", 1e-8 * (1 + abs(s)))
            same(want, got, f"trend {s} added", max(rt, 1e-8), LINES)
            ctx.state(case, "trend", s)
    ctx.state(case)
    ctx.outcome("scenario")


def lines(ctx, want, got, what, tol):
    for k in LINES:
        if k in want:
            scen.close(ctx, got[k], want[k], tol, f"{what}: {k}")
