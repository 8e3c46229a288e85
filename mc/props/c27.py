"""C27: Monte-Carlo intervals estimate the same errors as linearized ones.

Space: every scenario with at most k deviations x a grid of phases, orientations and
shapes that contains the branch points (0/360, 0/180, rectilinear, both senses), each
constituent in turn at each grid point; the random numbers are those of 8 seeds.
Oracle: the linearized intervals, which C19 and C20 compare with first principles;
bounds on the ratio of their mean over the seeds, and of each seed.
"""

import itertools

import numpy as np
import ref
import scen

ID = "C27"
LEVEL = "model_checking"
BOUND = {
    "quick": "<=1 deviation in 10 dimensions (elevation and velocity) x 8 phases (x 6 orientations x 4 shapes) x 8 seeds",
    "thorough": "<=2 deviations in 10 dimensions (elevation and velocity) x 8 phases (x 6 orientations x 4 shapes) x 8 seeds",
}
ASSUMPTIONS = [
    "noise of u and v uncorrelated, signals at least 8 times their standard error",
    "mean over 8 seeds of 200 realizations within a factor 1.25 (velocity with colored noise 1.6) of the linearized interval (one seed: 2.2)",
]
G = [0.0, 1e-7, 359.9999, 37.0, 90.0, 180.0, 270.0, 300.0]
TH = [0.0, 1e-6, 179.9999, 45.0, 90.0, 128.0]
SHAPE = [0.5, -0.4, 0.0, -1e-7]
SEEDS = range(8)


def cases(tier):
    d = scen.dims(conf_int=None, cons=None, signal=None)
    d["samp"] = ["h361", "irr", "2h", "gap", "long"]
    d["order"] = [None, "frequency", "SNR"]
    d["noise"] = [0.15, 0.01, 1e-6]
    d["units"] = [1.0, 1e-5, 1e4]
    d["uv"] = [1.0, 0.2, 5.0]
    d["part"] = list(range(8))
    for s in scen.deviations(d, 1 if tier == "quick" else 2, fixed=("kind", "part", "white")):
        if s["kind"] == "1d" and (s["part"] or s["uv"] != 1.0):
            continue
        yield s


def points(twodim):
    if not twodim:
        return [(g,) for g in G]
    return list(itertools.product(G, TH, SHAPE))


def check(case, ctx):
    s = {k: v for k, v in case.items() if k in scen.DIMS}
    w = scen.World(s, names=["M2", "K1", "M4"])
    pts = points(w.twodim)[case["part"] :: 8 if w.twodim else 1]
    pts = [pts[i : i + 3] for i in range(0, len(pts), 3)]
    args = (w.tref, w.lat, w.phase, w.nodal)
    amp = [1.0, 0.6, 0.8]
    nu = scen.lcg(w.n, 11) * case["noise"]
    nv = scen.lcg(w.n, 12) * case["noise"] * case["uv"]
    # uncorrelated: v's noise is made orthogonal to u's
    nv = nv - nu * (nu @ nv) / (nu @ nu)
    q = case["units"]
    for group in pts:
        truth = {}
        for n, a, p in zip(w.names, amp, group):
            truth[n] = (a, p[0]) if not w.twodim else (a, a * p[2], p[1], p[0])
        if w.twodim:
            u, v = ref.velocity(w.t, truth, *args)
            w.u, w.v = q * (u + nu), q * (v + nv)
        else:
            w.u = q * (ref.elevation(w.t, truth, *args) + nu)
        w.model = w.opts["constit"] = list(truth)
        if case["order"] == "list":
            w.opts["order_constit"] = list(truth)[::-1]
        keys = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if w.twodim else ("A_ci", "g_ci")
        lin = w.solve(conf_int="linear")
        idx = {str(n): i for i, n in enumerate(lin.name)}
        runs = {k: {n: [] for n in truth} for k in keys}
        for seed in SEEDS:
            c = solve_mc(w, seed)
            ctx.trace()
            for k in keys:
                x = np.asarray(c[k], float)
                # a band without a usable frequency has no estimate, by either method
                none = np.isnan([lin[k][idx[str(n)]] for n in c.name])
                if x.shape != (len(truth),) or np.any(np.isfinite(x) == none) or np.any(x < 0):
                    ctx.fail(f"{k} is {x} with seed {seed}")
                for n, y in zip(map(str, c.name), x):
                    runs[k][n].append(y)
            if seed == 1:
                again = solve_mc(w, seed)
                for k in keys:
                    if not np.array_equal(np.asarray(c[k]), np.asarray(again[k]), equal_nan=True):
                        ctx.fail(f"{k} differs in a second run with the same seed: {c[k]} and {again[k]}")
        for k in keys:
            for n in truth:
                want = float(lin[k][idx[n]])
                if np.isnan(want):
                    ctx.outcome("no estimate in the band")
                    continue
                r = np.array(runs[k][n]) / want
                m = r.mean()
                ctx.margin(f"{k} mean {'white' if case['white'] else 'colored'}", abs(np.log(m)))
                ctx.margin(f"{k} seed", float(np.max(np.abs(np.log(r))) / np.log(2.2)))
                where = f"{k} of {n} {truth[n]}"
                # the sample co-spectrum of a band, which only the simulation uses, is
                # not zero even for uncorrelated noise
                top = 1.25 if case["white"] or not w.twodim else 1.6
                if not 1 / top <= m <= top:
                    ctx.fail(f"{where}: mean of Monte-Carlo intervals {np.mean(runs[k][n])!r}, linearized {want!r} (ratio {m:.3f})")
                if not (r.min() >= 1 / 2.2 and r.max() <= 2.2):
                    ctx.fail(f"{where}: Monte-Carlo intervals {runs[k][n]}, linearized {want!r}")
                ctx.step(len(SEEDS))
                ctx.state(case, n, truth[n], k)
    ctx.outcome("white" if case["white"] else "colored")


def solve_mc(w, seed):
    import utide

    opts = dict(w.opts)
    opts["conf_int"] = "MC"
    np.random.seed(seed)
    return utide.solve(w.t, w.u, w.v, lat=w.lat, **opts)
