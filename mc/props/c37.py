"""C37: robust weights follow the chosen function, tuning and stopping rule.

Space: every record of n small integers for several small models (a mean, a line, a
harmonic, complex data, samples that alone determine a parameter) x every weight function
x tuning x tolerance x iteration limit, fitted by robustfit directly; and tidal records of
all kinds fitted by solve.
Oracle: the documented iteration written out again: least squares of the rows scaled by
the weights, weights from the residuals over tuning constant, robust scale and leverage.
"""

import itertools

import numpy as np
import scen

ID = "C37"
LEVEL = "model_checking"
BOUND = {
    "quick": "7 small models x all records of 6 values out of 3 (complex: 4 values out of 4) x 9 weight functions x 3 tunings x 3 iteration limits x 2 tolerances; tidal scenarios with <=2 deviations in 11 dimensions; 2100 samples",
    "thorough": "7 small models x all records of 6 values out of 4 (complex: 5 values out of 4) x 9 weight functions x 4 tunings x 5 iteration limits x 3 tolerances; tidal scenarios with <=3 deviations in 11 dimensions; 2100 and 9000 samples",
}
ASSUMPTIONS = ["records are skipped and counted where rounding decides (equal mean squares, residuals at a cut-off, exact fits, iterations that amplify rounding by more than 1e7, no spread of the residuals) or too few samples keep a weight"]

W = {
    "andrews": lambda r: np.where(r < np.pi, np.sinc(r / np.pi), 0.0),
    "bisquare": lambda r: np.where(r < 1, (1 - r * r) ** 2, 0.0),
    "cauchy": lambda r: 1 / (1 + r * r),
    "fair": lambda r: 1 / (1 + r),
    "huber": lambda r: np.where(r > 1, 1 / np.maximum(r, 1), 1.0),
    "logistic": lambda r: np.where(r > 1e-8, np.tanh(r) / np.maximum(r, 1e-300), 1.0),
    "ols": lambda r: np.ones_like(r),
    "talwar": lambda r: np.where(r < 1, 1.0, 0.0),
    "welsch": lambda r: np.exp(-r * r),
}
# 95 % efficiency for Gaussian errors
TUNE = dict(andrews=1.339, bisquare=4.685, cauchy=2.385, fair=1.4, huber=1.345, logistic=1.205, ols=1, talwar=2.795, welsch=2.985)
CUT = {"talwar": 1.0}


class Tie(Exception):
    pass


def iterate(X, y, f, tune, tol, maxit, jitter=0.0):
    """The documented iteration; raises Tie(state so far) where rounding decides."""
    n = len(y)
    X = X.reshape(n, -1)
    q = np.linalg.qr(X)[0]
    lev = np.sum(np.abs(q) ** 2, axis=1)
    if np.any(lev > 0.99989):
        raise Tie("leverage")
    tune = TUNE[f] if tune is None else tune
    size = np.abs(y).max()
    w = np.ones(n)
    last = None
    for i in range(1, maxit + 1):
        b, _, rank, s = np.linalg.lstsq(w[:, None] * X, w * y, rcond=None)
        if rank < X.shape[1] or s[-1] < 1e-6 * s[0]:
            raise Tie("rank")
        r = y - X @ b
        if jitter:
            r = r + jitter * size * np.sin(2.7 * np.arange(n) + i)
        ms = np.sum((w * np.abs(r)) ** 2) / w.sum()
        if ms <= 1e-18 * size**2:
            raise Tie("exact fit")
        if last is not None:
            gain = (last[2] - ms) / last[2]
            if abs(gain) < 1e-9 and f != "ols" or abs(gain - tol) < 1e-9:
                raise Tie("stopping")
            if f == "ols" or 0 <= gain < tol:
                return b, w, i, lev, s
            if gain < 0:
                return last[0], last[1], i - 1, lev, last[3]
        last = b, w, ms, s
        sigma = np.median(np.abs(r)) / 0.6745
        if sigma <= 1e-9 * np.abs(r).max():
            raise Tie("scale")
        z = np.abs(r) / (sigma * tune * np.sqrt(1 - lev))
        if f in CUT and np.abs(z - CUT[f]).min() < 1e-9:
            raise Tie("cut-off")
        w = W[f](z)
    return last[0], last[1], maxit, lev, last[3]


def settled(X, y, *args):
    """The documented iteration, where it does not amplify rounding by more than 1e7."""
    want = iterate(X, y, *args)
    for e in (1e-12, -1e-12, 1e-10, -1e-10):
        near = iterate(X, y, *args, jitter=e)
        if near[2] != want[2] or np.abs(near[1] - want[1]).max() > 1e7 * abs(e) or np.abs(near[0] - want[0]).max() > 1e8 * abs(e):
            raise Tie("sensitive")
    return want


def models():
    t = np.arange(6.0)
    yield "mean", np.ones((6, 1))
    yield "one column", np.ones(6)
    yield "line", np.column_stack([np.ones(6), t - 2.5])
    yield "uneven", np.column_stack([np.ones(6), [0, 1, 1, 2, 3, 20.0]])
    yield "harmonic", np.column_stack([np.exp(0.9j * t), np.exp(-0.9j * t), np.ones(6)])
    yield "almost alone", np.column_stack([np.ones(6), [0, 0, 0, 0.1, 0, 1.0]])
    yield "complex data", np.column_stack([np.ones(6), t - 2.5])


MODELS = dict(models())


def cases(tier):
    deep = tier != "quick"
    tunes = [None, 0.3, 8.0] + ([1.0] if deep else [])
    its = [50, 1, 2] + ([3, 4] if deep else [])
    for m in MODELS:
        for f in W:
            for tune in tunes:
                for it in its:
                    for tol in [0.001, 0.2] + ([1e-7] if deep else []):
                        if tol != 0.001 and (it < 3 or tune is not None):
                            continue
                        yield dict(model=m, f=f, tune=tune, maxit=it, tol=tol, deep=deep)
    d = scen.dims(conf_int=["none", "linear"], method=None, order=None, white=None)
    d["f"] = [f for f in W if f != "ols"]
    d["tune"] = [None, 0.5, 2.0, 30.0]
    d["tol"] = [0.001, 1e-7, 0.3]
    d["maxit"] = [50, 1, 2, 3]
    del d["start"], d["lat"]
    for s in scen.deviations(d, 3 if deep else 2, fixed=("kind",)):
        yield dict(s)
    for n in (2100, 9000)[: 2 if deep else 1]:
        for kind in ("1d", "2d"):
            for f in d["f"]:
                yield dict(kind=kind, samp=["even", n, 1.0], f=f, tune=None, tol=0.001, maxit=50)


def records(m, deep):
    if m == "complex data":
        v = [0, 1, 3j, -1 - 1j]
        k = 5 if deep else 4
        for y in itertools.product(v, repeat=k):
            yield np.array((y + (2, 1j, -1))[:6], complex)
    else:
        for y in itertools.product([0, 1, 3, -7][: 4 if deep else 3], repeat=6):
            yield np.array(y, float)


def compare(ctx, what, rf, want, maxit, size):
    b, w, it, lev, s = want
    if not np.allclose(rf.leverage, lev, rtol=0, atol=1e-9):
        ctx.fail(f"{what}: leverage {np.asarray(rf.leverage)[:6]} instead of {lev[:6]}")
    if rf.iterations != it:
        ctx.fail(f"{what}: {rf.iterations} iterations instead of {it}")
    d = np.abs(rf.w - w).max()
    ctx.margin("weights", d)
    if not d < 1e-6:
        k = np.abs(rf.w - w).argmax()
        ctx.fail(f"{what}: weight {rf.w[k]} of sample {k} instead of {w[k]}")
    if not np.abs(rf.b - b).max() <= 1e-5:
        ctx.fail(f"{what}: coefficients {rf.b} instead of {b}")
    # singular values change by no more than the weights, times the size of the model
    if not np.allclose(rf.s, s, rtol=0, atol=1e-9 * s[0] + 2 * d * size):
        ctx.fail(f"{what}: singular values {rf.s} instead of {s}")
    ctx.outcome("stopped by the limit" if it == maxit else "stopped by itself")


def small(case, ctx):
    from utide.robustfit import robustfit

    X = MODELS[case["model"]]
    f = case["f"]
    tune = case["tune"] if case["tune"] is None else case["tune"] * TUNE[f]
    n = 0
    for y in records(case["model"], case["deep"]):
        X0, y0 = X.copy(), y.copy()
        args = (f, tune, case["tol"], case["maxit"])
        n += 1
        try:
            want = settled(X, y, *args)
        except Tie as e:
            # too few samples keep any weight, or the result is decided by rounding
            ctx.outcome(f"rounding decides: {e}")
            continue
        kw = dict(weight_function=f, tune=tune, tol=case["tol"], maxit=case["maxit"])
        if (tune, case["tol"], case["maxit"]) == (None, 0.001, 50):
            # the defaults are left out
            kw = {} if f == "bisquare" else dict(weight_function=f)
        rf = robustfit(X0, y0, **kw)
        what = f"{case['model']}, {f}, y = {y.tolist()}"
        if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
            ctx.fail(f"{what}: arguments changed")
        w = np.asarray(rf.w)
        if w.shape != y.shape or not np.all((w >= 0) & (w <= 1)):
            ctx.fail(f"{what}: weights {w}")
        if not np.isfinite(rf.b).all():
            ctx.fail(f"{what}: coefficients {rf.b}")
        if (rf.weight_function, rf.tol, rf.maxit) != (f, case["tol"], case["maxit"]) or rf.tune != (TUNE[f] if tune is None else tune):
            ctx.fail(f"{what}: recorded settings {rf.weight_function, rf.tune, rf.tol, rf.maxit}")
        compare(ctx, what, rf, want, case["maxit"], np.linalg.norm(X))
    ctx.state(case)
    ctx.states.update(hash((str(case), i)) for i in range(n))
    ctx.trace(n)
    ctx.step(5 * n)


def check(case, ctx):
    if "model" in case:
        return small(case, ctx)
    import ref

    extra = ("f", "tune", "tol", "maxit")
    w = scen.World({k: v for k, v in case.items() if k not in extra}, noise=0.05)
    w.u = w.u.copy()
    for k, i in enumerate([5, w.n // 2, w.n - 8]):
        w.u[i] += 7 * w.scale * (1 - 0.1 * k)
    f = case["f"]
    tune = case["tune"] if case["tune"] is None else case["tune"] * TUNE[f]
    kw = dict(weight_function=f, tol=case["tol"], maxit=case["maxit"])
    if tune is not None:
        kw["tune"] = tune
    c = w.solve(method="robust", robust_kw=kw)
    ctx.trace()
    _, D = ref.real_design1(w.t, w.model, float(c.aux.reftime), w.lat, w.phase, w.nodal, w.trend, w.lor, None)
    y = w.u + 1j * w.v if w.twodim else w.u
    X = D.astype(complex)
    # b and s refer to the complex columns of the model
    rf = dict(c.rf)
    try:
        b, wt, it, lev, _ = settled(X, y.astype(complex) if w.twodim else y, f, tune, case["tol"], case["maxit"])
    except Tie as e:
        ctx.outcome(f"rounding decides: {e}")
        return
    if rf["iterations"] != it:
        ctx.fail(f"{f}: {rf['iterations']} iterations instead of {it}")
    d = np.abs(np.asarray(c.weights) - wt).max()
    ctx.margin("weights", d)
    if not d < 1e-6:
        ctx.fail(f"{f}: weights differ by {d}")
    if not np.allclose(rf["leverage"], lev, rtol=0, atol=1e-9):
        ctx.fail(f"{f}: leverage differs by {np.abs(rf['leverage'] - lev).max()}")
    ctx.step(3)
    ctx.state(case, np.round(wt, 6).tolist())
    ctx.outcome("tidal record")
