"""C01: solve recovers the constants of a signal made of tides.

Space: every scenario with at most k deviations (2 quick, 3 thorough) from the base
elevation and velocity records, and the full product of the model options.
Oracle: the constants the record was synthesized from by the reference model.
"""

import numpy as np
import ref
import scen

ID = "C01"
LEVEL = "model_checking"
BOUND = {
    "quick": "all scenarios with <=2 deviations in 12 dimensions, elevation and velocity; plus the full product phase x nodal x trend x method x lat x kind; numbers of samples around powers of 2 and 10 up to 65537",
    "thorough": "all scenarios with <=3 deviations in 12 dimensions, elevation and velocity; plus the full product phase x nodal x trend x method x lat x start x kind; every constituent alone; numbers of samples around powers of 2 and 10 up to 262145",
}
ASSUMPTIONS = [
    "signals synthesized by the independent reference model with the pinned tables",
    "recovery within 1e-7 of the largest amplitude",
]


def cases(tier):
    seen = set()
    d = scen.dims()
    k = 2 if tier == "quick" else 3

    def fresh(s):
        key = tuple(sorted((a, str(b)) for a, b in s.items()))
        if key in seen:
            return False
        seen.add(key)
        return True

    for s in scen.deviations(d, k, fixed=("kind",)):
        if fresh(s):
            yield s
    fixed = ["kind", "phase", "nodal", "trend", "method", "lat"]
    if tier != "quick":
        fixed.append("start")
    for s in scen.deviations(d, 0, fixed=tuple(fixed)):
        if fresh(s):
            yield s
    for n in scen.sizes(tier, 360):
        for kind in ("1d", "2d"):
            for method in ("ols", "robust") if n < 3000 or tier != "quick" else ("ols",):
                yield dict(kind=kind, samp=["even", n, 1.0], method=method)
    # every tabulated constituent alone (long enough record), and with auto selection
    opts = [(True, "Greenwich"), (False, "Greenwich"), (True, "raw"), ("linear_time", "linear_time")]
    for n in ref.NAMES:
        if n in ("Z0",) or n in ref.FRACTIONAL:
            continue
        for nodal, phase in opts if tier != "quick" else opts[:1]:
            for kind in ("1d", "2d"):
                yield dict(kind=kind, single=n, nodal=nodal, phase=phase)
    for kind in ("1d", "2d"):
        for nodal, phase in opts:
            for method in ("ols", "robust"):
                for samp in ("h361", "irr", "2h", "gap"):
                    for conf in ("none", "linear"):
                        yield dict(kind=kind, auto=1, nodal=nodal, phase=phase, method=method, samp=samp, conf_int=conf)


def check(case, ctx):
    case = dict(case)
    single = case.pop("single", None)
    auto = case.pop("auto", None)
    if single:
        f = ref.FREQ[ref.INDEX[single]]
        case["samp"] = ("even", 301, 2.0) if f > 0.03 else ("even", 401, 24 * 2.0)
        w = scen.World(case, names=[single])
    else:
        w = scen.World(case)
    over = {}
    if auto:
        over["constit"] = "auto"
    c = w.solve(**over)
    ctx.trace()
    ctx.state(case, single, auto)
    scen.observe_coef(ctx, c)
    amp = max(abs(p[0]) for p in w.truth.values())
    tol = 1e-7 * amp
    got = scen.phasors(c)
    want = scen.truth_phasors(w.truth)
    if auto:
        zero = (0.0, 0.0) if w.twodim else 0.0
        if not set(want) <= set(got):
            ctx.fail(f"auto selection lacks {sorted(set(want) - set(got))}")
        want = {n: want.get(n, zero) for n in got}
    scen.compare_phasors(ctx, got, want, tol, "constants")
    # the separate parameters, where they are well defined
    for i, n in enumerate(c.name):
        if n not in w.truth:
            continue
        p = w.truth[n]
        if w.twodim:
            scen.close(ctx, c.Lsmaj[i], p[0], tol, "Lsmaj")
            scen.close(ctx, c.Lsmin[i], p[1], tol, "Lsmin")
            at = np.degrees(2 * tol / (p[0] - abs(p[1])))
            dth = abs(c.theta[i] - p[2])
            scen.angle_close(ctx, c.theta[i], p[2], at, "theta", 180.0)
            # an orientation may come out on the other side of 0/180
            g = p[3] + (180.0 if dth > 90 else 0.0)
            scen.angle_close(ctx, c.g[i], g, at, "g")
        else:
            scen.close(ctx, c.A[i], p[0], tol, "A")
            scen.angle_close(ctx, c.g[i], p[1], np.degrees(tol / p[0]), "g")
    scen.close(ctx, scen.mean_of(c), w.mean, tol, "mean")
    if w.trend:
        scen.close(ctx, scen.slope_of(c), w.slope, tol, "slope per day")
    elif "slope" in c or "uslope" in c:
        ctx.fail("a slope is reported without a trend")
    scen.close(ctx, c.aux.reftime, w.tref, 1e-8, "reference time")
    ctx.outcome("recovered")
