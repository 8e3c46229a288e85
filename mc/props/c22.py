"""C22: robust fitting resists outliers and is consistent with its weights.

Space: every weight function x elevation and velocity x (every single position of a
gross outlier, every pair of positions of a grid, runs and sparse sets) x sizes and
signs, and every scenario with at most k deviations (tuning, tolerance, iteration limit,
missing samples, inference, intervals).
Oracle: the reference least-squares fit of the rows scaled by the reported weights, its
residual, the OLS fit, and the true constants.
"""

import itertools

import numpy as np
import ref
import scen

ID = "C22"
LEVEL = "model_checking"
BOUND = {
    "quick": "9 weight functions x elevation/velocity x all 97 single positions, all pairs of 12 positions, 6 sets, 2 sizes; robustfit itself x 4 models x 6 sizes x all single positions and pairs of 14 positions of 40; scenarios with <=2 deviations in 11 dimensions; numbers of samples around powers of 2 and 10 up to 65537",
    "thorough": "9 weight functions x elevation/velocity x all 97 single positions x 4 sizes, all pairs of 25 positions, 6 sets x 4 sizes; robustfit itself x 4 models x 6 sizes x all single positions and pairs of 40; scenarios with <=3 deviations in 11 dimensions; numbers of samples around powers of 2 and 10 up to 262145",
}
ASSUMPTIONS = ["the noise is not exactly zero; at most one outlier in ten samples; resistance is asked of the default tuning"]
FUNCS = ["cauchy", "andrews", "bisquare", "fair", "huber", "logistic", "ols", "talwar", "welsch"]
N = 97
SETS = {"none": [], "run": [40, 41, 42], "ends": [0, 96], "sparse": [7, 23, 39, 55, 71, 87], "start": [0, 1], "end": [95, 96]}
# How far convex weight functions are disturbed depends on the size of the outlier.
FACTOR = {"fair": 0.7, "huber": 0.5, "logistic": 0.5}


def cases(tier):
    deep = tier != "quick"
    grid = range(0, N, 8) if not deep else range(0, N, 4)
    for f in FUNCS:
        for kind in ("1d", "2d"):
            for size in (3.0, -50.0, 1e4, 1.0)[: 4 if deep else 2]:
                for name in SETS:
                    yield dict(f=f, kind=kind, out=SETS[name], size=size)
                for i in range(N) if deep or size == 3.0 else ():
                    yield dict(f=f, kind=kind, out=[i], size=size)
            for i, j in itertools.combinations(grid, 2):
                yield dict(f=f, kind=kind, out=[i, j], size=3.0)
                if deep:
                    yield dict(f=f, kind=kind, out=[i, j], size=-50.0)
    for f in FUNCS:
        for kind in ("1d", "2d"):
            for at in ([], [50], [0, 60, 96]):
                yield dict(still=at, kind=kind, f=f)
    for f in FUNCS:
        for model in ("mean", "line", "wave", "complex"):
            for size in (3.0, -3.0, 50.0, -1e3, 1e5, -1e8):
                yield dict(direct=model, f=f, size=size)
    d = scen.dims(conf_int=["none", "linear", "MC"], method=None, order=None, white=None)
    d["f"] = FUNCS
    d["tune"] = [None, 0.5, 2.0, 30.0]
    d["tol"] = [0.001, 1e-9, 0.3]
    d["maxit"] = [50, 1, 2, 3]
    d["missing"] = [0, 1]
    d["infer"] = [0, 1]
    del d["start"], d["lat"]
    for n in scen.sizes(tier, 361):
        for kind in ("1d", "2d"):
            for f in FUNCS if n < 600 or tier != "quick" else FUNCS[:1]:
                yield dict(kind=kind, samp=["even", n, 1.0], f=f, tune=None, tol=0.001, maxit=50, missing=0, infer=0)
    for s in scen.deviations(d, 3 if deep else 2, fixed=("kind",)):
        if s["infer"] and s["conf_int"] == "MC":
            continue
        yield dict(s)


def still(case, ctx):
    """A record that is zero, or zero except in a few places."""
    w = scen.World(dict(kind=case["kind"], samp="day4"), names=["M2", "K1"])
    w.u = np.zeros(w.n)
    w.u[case["still"]] = 1.0
    w.v = -w.u if w.twodim else None
    c = w.solve(method="robust", robust_kw=dict(weight_function=case["f"]), conf_int="none")
    ctx.trace()
    ctx.state(case)
    ctx.outcome("still")
    W = np.asarray(c.weights)
    if W.shape != (w.n,) or not np.isfinite(W).all():
        ctx.fail(f"{case['f']}: weights of a still record: {W}")
    size = max(abs(x) for z in [*scen.phasors(c).values(), scen.mean_of(c)] for x in np.ravel(z))
    # ols is no robust fit; the others of unbounded influence resist partly
    bound = 1e-14 if not case["still"] else 0.2 if case["f"] == "ols" else 0.1
    ctx.margin("still", size)
    if not size <= bound:
        ctx.fail(f"{case['f']}: still record with impulses at {case['still']} gives terms of {size}")


def direct(case, ctx):
    """robustfit itself, for real and complex models and all pairs of outliers."""
    from utide.robustfit import robustfit

    n = 40
    x = np.arange(n) / n
    cols = dict(
        mean=[np.ones(n)],
        line=[np.ones(n), x - 0.5],
        wave=[np.ones(n), np.cos(9 * x), np.sin(9 * x)],
        complex=[np.ones(n), np.exp(9j * x), np.exp(-9j * x)],
    )[case["direct"]]
    X = np.column_stack(cols)
    true = np.array([1.0, 2.0, -0.5][: X.shape[1]])
    clean = X @ true + 0.05 * scen.lcg(n, 5)
    f, size = case["f"], case["size"]
    step = 1 if ctx.tier != "quick" else 3
    for out in [[i] for i in range(n)] + [[i, j] for i in range(0, n, step) for j in range(i + 1, n, step)] + [[3, 4, 20], [0, 1, n - 1]]:
        y = clean.copy()
        y[out] += size
        what = f"{f}: {case['direct']} with {size} at {out}"
        rf = robustfit(X, y, weight_function=f)
        ctx.trace()
        w = np.asarray(rf.w)
        if not (w.shape == (n,) and (w >= 0).all() and (w <= 1).all()):
            ctx.fail(f"{what}: weights {w}")
        V = w[:, None]
        tol = 1e-8 * (1 + abs(size))
        scen.close(ctx, rf.b, np.linalg.lstsq(V * X, w * y, rcond=None)[0], tol, f"{what}: weighted solution")
        b0 = np.linalg.lstsq(X, y, rcond=None)[0]
        scen.close(ctx, rf.ols_b, b0, tol, f"{what}: OLS solution")
        scen.close(ctx, rf.rms_resid, np.sqrt(np.mean(np.abs(y - X @ rf.b) ** 2)), tol, f"{what}: rms residual")
        if f != "ols":
            rest = np.setdiff1d(np.arange(n), out)
            if not w[out].max() <= w[rest].min():
                ctx.fail(f"{what}: outliers have weights {w[out]}, others down to {w[rest].min()}")
            bc = np.linalg.lstsq(X[rest], y[rest], rcond=None)[0]
            er, eo, ec = (np.abs(b - true).max() for b in (rf.b, b0, bc))
            lim = FACTOR.get(f, 0.3) * eo + 3 * ec
            ctx.margin("resistance of robustfit " + f, er / lim)
            if not er <= lim:
                ctx.fail(f"{what}: error {er:.3g}, by OLS {eo:.3g}, without the outliers {ec:.3g}")
        ctx.state(case, out)
    ctx.outcome("robustfit")


def check(case, ctx):
    if "direct" in case:
        return direct(case, ctx)
    if "still" in case:
        return still(case, ctx)
    wide = "tune" in case
    extra = ("f", "tune", "tol", "maxit", "missing", "infer", "out", "size")
    base = {k: v for k, v in case.items() if k not in extra}
    if not wide:
        base["samp"] = "day4"
    w = scen.World(base, noise=0.05, names=None if wide else ["M2", "K1"])
    out = case["out"] if not wide else [5, w.n // 2, w.n - 8]
    size = case.get("size", 7.0) * w.scale
    w.u = w.u.copy()
    for k, i in enumerate(out):
        w.u[i] += size * (1 - 0.1 * k)
        if w.twodim:
            w.v[i] -= 0.7 * size
    gone = np.arange(w.n) < 0
    if case.get("missing"):
        gone = np.arange(w.n) % 19 == 4
        for i in out:
            gone[i] = False
    kw = dict(weight_function=case["f"])
    default = True
    for k in ("tol", "maxit"):
        if case.get(k) is not None:
            kw[k] = case[k]
    if case.get("tune"):
        from utide.robustfit import tune_defaults

        kw["tune"] = case["tune"] * tune_defaults[case["f"]]
        default = False
    infer = None
    over = dict(method="robust", robust_kw=kw, conf_int=w.s["conf_int"] if wide else "none")
    if case.get("infer"):
        m = 2 if w.twodim else 1
        infer = dict(inferred_names=["K2"], reference_names=[w.names[0]], amp_ratios=[0.3, 0.2][:m], phase_offsets=[10.0, -40.0][:m])
        over["infer"] = infer
    full = (w.u, w.v)
    w.u = np.where(gone, np.nan, w.u)
    c = w.solve(**over)
    o = w.solve(**dict(over, method="ols", conf_int="none"))
    ctx.trace(2)
    t = w.t[~gone]
    u = full[0][~gone]
    v = full[1][~gone] if w.twodim else None
    tref, lor = float(c.aux.reftime), w.lor
    W = np.asarray(c.weights, float)
    what = case["f"]
    if W.shape != (len(t),) or not np.array_equal(W, np.asarray(c.rf.w)):
        ctx.fail(f"{what}: weights of shape {W.shape} for {len(t)} samples, or other ones in coef.rf")
    if not np.all((W >= 0) & (W <= 1)):
        ctx.fail(f"{what}: weights from {W.min()!r} to {W.max()!r}")
    # least squares of the scaled rows
    args = (w.model, tref, w.lat, w.phase, w.nodal, w.trend, lor, infer)
    V = np.concatenate([W, W]) if w.twodim else W
    cols, D = (ref.real_design2 if w.twodim else ref.real_design1)(t, *args)
    y = np.concatenate([u, v]) if w.twodim else u
    tol = 1e-7 * w.scale * (1 + abs(case.get("size", 7.0)) / 50)

    def unpack(q):
        n = len(cols)
        if w.twodim:
            z = {k: (q[4 * i] + 1j * q[4 * i + 1], q[4 * i + 2] + 1j * q[4 * i + 3]) for i, k in enumerate(cols)}
            mean = (q[4 * n], q[4 * n + 1])
        else:
            z = {k: q[2 * i] - 1j * q[2 * i + 1] for i, k in enumerate(cols)}
            mean = q[2 * n]
        return z, mean

    q = np.linalg.lstsq(D * V[:, None], y * V, rcond=None)[0]
    q0 = np.linalg.lstsq(D, y, rcond=None)[0]
    for name, coef, qq in (("robust", c, q), ("ols", o, q0)):
        z, mean = unpack(qq)
        scen.compare_phasors(ctx, scen.phasors(coef), z, tol, f"{what}: {name} amplitudes", names=cols)
        scen.close(ctx, scen.mean_of(coef), mean, tol, f"{what}: {name} mean")
    zr, zo = unpack(q)[0], unpack(q0)[0]

    def rms(qq):
        r = y - D @ qq
        return np.sqrt(np.sum(r**2) / len(t))

    # the reported numbers
    rf = c.rf
    scen.close(ctx, float(rf.rms_resid), rms(q), 1e-6 * rms(q), f"{what}: rms residual")
    scen.close(ctx, float(rf.ols_rms_resid), rms(q0), 1e-6 * rms(q0), f"{what}: OLS rms residual")
    b = np.sort(np.abs(rf.ols_b))
    zz = [abs(x) for p in zo.values() for x in (p if w.twodim else (p / 2, p / 2))]
    tail = q0[4 * len(cols) :].reshape(-1, 2) if w.twodim else q0[2 * len(cols) :].reshape(-1, 1)
    zz += [float(np.hypot(*r)) if len(r) == 2 else abs(float(r[0])) for r in tail]
    scen.close(ctx, b, np.sort(zz), tol, f"{what}: ols_b")
    if case["f"] == "ols":
        if not np.all(W == 1):
            ctx.fail("ols: weights differ from 1")
        scen.compare_phasors(ctx, scen.phasors(c), scen.phasors(o), tol, "ols weight function")
    elif case.get("maxit", 50) > 1 and len(out) and default:
        keep = np.flatnonzero(~gone)
        pos = [int(np.flatnonzero(keep == i)[0]) for i in out]
        rest = np.setdiff1d(np.arange(len(t)), pos)
        if not W[pos].max() <= W[rest].min():
            ctx.fail(f"{what}: outliers have weights {W[pos]}, others down to {W[rest].min()}")
        truth = scen.truth_phasors(w.truth)
        if not infer:
            er = max(scen.pdist(zr[n], truth[n]) for n in cols)
            eo = max(scen.pdist(zo[n], truth[n]) for n in cols)
            # the error of a fit without the outliers is unavoidable
            M = np.setdiff1d(np.arange(len(t)), pos)
            M = np.concatenate([M, M + len(t)]) if w.twodim else M
            zc = unpack(np.linalg.lstsq(D[M], y[M], rcond=None)[0])[0]
            ec = max(scen.pdist(zc[n], truth[n]) for n in cols)
            lim = FACTOR.get(case["f"], 0.3) * eo + 3 * ec
            if not er <= lim:
                ctx.fail(f"{what}: error of the constants {er:.3g}, by OLS {eo:.3g}, without the outliers {ec:.3g}")
            ctx.margin("resistance " + what, er / lim)
        ctx.step()
    ctx.state(case, W.round(6).tolist())
    ctx.outcome(what)
