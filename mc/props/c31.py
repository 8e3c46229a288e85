"""C31: prediction at the analysed times is the fit, and analysing it changes nothing.

Space: every scenario with at most k deviations - model options, missing samples, exact
inference, intervals, order, weights of a robust fit, form of the times - for tidal,
noisy and arbitrary data.
Oracle: fitted values of the reference least squares (with the reported weights) at all
times, the missing ones included; the second analysis must return the coefficients of
the first, and the second prediction the first.
"""

import datetime

import numpy as np
import ref
import scen

ID = "C31"
LEVEL = "model_checking"
BOUND = {
    "quick": "scenarios with <=2 deviations in 16 dimensions (elevation and velocity)",
    "thorough": "scenarios with <=3 deviations in 16 dimensions (elevation and velocity)",
}
ASSUMPTIONS = [
    "exact inference only (approximate inference is no least-squares fit)",
    "records whose samples outnumber the unknowns and that resolve the constituents",
]
DATA = ["noisy", "tidal", "arbitrary", "zero", "constant", "still", "spikes"]
MISSING = [None, "sparse", "block", "ends"]
FORM = ["python", "matlab", "datetime64", "datetime", "2000-01-01"]
RECON = ["inside", "subset", "one by one"]


def space():
    d = scen.dims(order=[None, "frequency", "list", "SNR"])
    d["data"] = DATA
    d["missing"] = MISSING
    d["infer"] = [0, 1, 2]
    d["form"] = FORM
    d["recon"] = RECON
    return d


def cases(tier):
    for s in scen.deviations(space(), 2 if tier == "quick" else 3, fixed=("kind",)):
        if s["order"] == "SNR" and (s["conf_int"] == "none" or s["data"] == "tidal"):
            continue
        if s["infer"] and (s["conf_int"] == "MC" or s["order"] == "list"):
            continue
        if s["form"] in ("datetime64", "datetime") and s["start"] < 600000:
            s = dict(s, start=733000.37)
        yield s
    # the shortest records that determine the unknowns, and a little longer
    for kind in scen.DIMS["kind"]:
        for cons in ("one", "basic", "pair"):
            for trend in (True, False):
                p = 2 * len(scen.CONS[cons]) + 1 + trend
                for n in range(p, p + (14 if tier == "quick" else 60)):
                    for span in [19.3, 31.0] if cons == "one" else [355.3, 700.9]:
                        dt = span / (n - 1)
                        yield dict(short=n, samp=["even", n, dt], kind=kind, cons=cons, trend=trend, missing="ends" if n > p + 5 and cons == "one" else None, data="arbitrary", infer=0, form="python", recon="inside")


def holes(n, missing):
    i = np.arange(n)
    if missing == "ends":
        return (i < 3) | (i >= n - 2)
    if missing == "block":
        return (i > n // 3) & (i < n // 3 + 9)
    if missing == "sparse":
        return i % 13 == 5
    return i < 0


def express(t, form):
    """The same times in another form, and the epoch that goes with it."""
    if form == "python":
        return t, "python"
    if form == "matlab":
        return t + 366, "matlab"
    if form == "2000-01-01":
        return t - datetime.date(2000, 1, 1).toordinal(), form
    ms = np.round((t - 719163) * 86400000).astype("int64").astype("datetime64[ms]")
    return (ms if form == "datetime64" else ms.astype(datetime.datetime)), None


def check(case, ctx):
    import utide

    case = dict(case)
    short = case.pop("short", None)
    extra = ("data", "missing", "infer", "form", "recon")
    w = scen.World({k: v for k, v in case.items() if k not in extra})
    if case["form"] in ("datetime64", "datetime"):
        w.t = np.round((w.t - 719163) * 86400000) / 86400000 + 719163
    a, b = scen.lcg(w.n, 3), scen.lcg(w.n, 4)
    if case["data"] == "noisy":
        w.u = w.u + 0.2 * w.scale * a
        w.v = w.v + 0.1 * w.scale * b if w.twodim else None
    elif case["data"] == "arbitrary":
        i = np.arange(w.n)
        w.u = w.scale * (a + 3.0 * (i > w.n // 4) - 1e-3 * i)
        w.v = w.scale * (2 * b**3 + np.cos(i / 9.0)) if w.twodim else None
    elif case["data"] in ("zero", "constant"):
        w.u = np.full(w.n, 0.0 if case["data"] == "zero" else -3.25 * w.scale)
        w.v = w.u * 2 if w.twodim else None
    elif case["data"] == "still":
        w.u, w.v = (w.u * 0, w.u) if w.twodim else (w.u * 0, None)
    elif case["data"] == "spikes":  # nearly everything vanishes
        w.u = np.where(np.arange(w.n) % 97 == 40, 7.0 * w.scale, 0.0)
        w.v = -w.u if w.twodim else None
    gone = holes(w.n, case["missing"])
    infer = None
    if case["infer"]:
        m = 2 if w.twodim else 1
        inf, refs = [["K2"], ["K2", "P1"]][case["infer"] - 1], [w.names[0], w.names[-1]]
        infer = dict(
            inferred_names=inf,
            reference_names=refs[: len(inf)],
            amp_ratios=[0.3, 0.15, 0.2, 0.25][: len(inf)] + ([0.2, 0.4] if m == 2 else [])[: len(inf)],
            phase_offsets=[10.0, -40.0][: len(inf)] + ([170.0, 300.0] if m == 2 else [])[: len(inf)],
        )
    tt, epoch = express(w.t, case["form"])
    opts = dict(w.opts, epoch=epoch)
    if infer:
        opts["infer"] = infer
    if opts["conf_int"] == "MC":
        np.random.seed(0)
    u = np.where(gone, np.nan, w.u)
    v = np.where(gone, np.nan, w.v) if w.twodim else None
    c = utide.solve(tt, u, v, lat=w.lat, **opts)
    ctx.trace()
    ctx.state(case)

    def predict(coef):
        o = dict(epoch=epoch, verbose=False, min_SNR=0)
        if case["recon"] == "subset":
            parts = [utide.reconstruct(tt[s], coef, **o) for s in (slice(0, None, 2), slice(1, None, 2))]
            out = np.empty(w.n, complex if w.twodim else float)
            for k, r in enumerate(parts):
                out[k::2] = r.u + 1j * r.v if w.twodim else r.h
            return out
        if case["recon"] == "one by one":
            rs = [utide.reconstruct(tt[i : i + 1], coef, **o) for i in range(0, w.n, 40)]
            out = utide.reconstruct(tt, coef, **o)
            out = out.u + 1j * out.v if w.twodim else out.h
            for k, r in enumerate(rs):
                out[40 * k] = (r.u + 1j * r.v if w.twodim else r.h)[0]
            return out
        r = utide.reconstruct(tt, coef, **o)
        return r.u + 1j * r.v if w.twodim else r.h

    # fitted values of the reference
    t = w.t[~gone]
    W = np.asarray(c.weights, float)
    tref = float(c.aux.reftime)
    if not t[0] <= tref <= t[-1]:
        ctx.fail(f"reference time {tref} outside the record")
    args = (w.model, tref, w.lat, w.phase, w.nodal, w.trend, infer, W)
    if w.twodim:
        f = ref.fit2(t, w.u[~gone], w.v[~gone], *args)
    else:
        f = ref.fit1(t, w.u[~gone], *args)
    if short:
        if np.linalg.cond(f.D) > 1e5:
            ctx.outcome("hardly determined")
            return
        ctx.outcome("short")
    m, s = (complex(*f.mean), complex(*f.slope)) if w.twodim else (f.mean, f.slope)
    want = m + s * (w.t - tref)
    for n, z in f.z.items():
        E = ref.basis(w.t, n, tref, w.lat, w.phase, w.nodal)
        want = want + (z[0] * E + z[1] * np.conj(E) if w.twodim else (z * E).real)
    got = predict(c)
    ctx.trace()
    scale = np.abs(want).max() + np.abs(w.u).max()
    if short:  # hardly determined: large terms that cancel
        scale += max(abs(x) for z in scen.phasors(c).values() for x in np.ravel(z))
    # intervals of rounded milliseconds
    tol = 1e-9 * scale if epoch in ("python", "matlab") else 1e-6 * scale
    scen.close(ctx, got, want, tol, "prediction at the analysed times")
    if case["data"] == "tidal" and not infer:
        x = w.u + 1j * w.v if w.twodim else w.u
        scen.close(ctx, got, x, tol, "prediction of a tidal record")
    # again
    g = np.where(gone, np.nan, got)
    if opts["conf_int"] == "MC":
        np.random.seed(0)
    c2 = utide.solve(tt, g.real if w.twodim else g, g.imag if w.twodim else None, lat=w.lat, **dict(opts, conf_int="none", order_constit=None))
    ctx.trace()
    if short:
        scen.close(ctx, predict(c2), got, 1e-9 * scale, "second prediction")
        return
    scen.compare_phasors(ctx, scen.phasors(c2), scen.phasors(c), 1e-9 * scale, "analysis of the prediction")
    scen.close(ctx, scen.mean_of(c2), scen.mean_of(c), 1e-9 * scale, "mean of the prediction")
    if w.trend:
        scen.close(ctx, scen.slope_of(c2), scen.slope_of(c), 1e-9 * scale, "slope of the prediction")
    scen.close(ctx, predict(c2), got, 1e-9 * scale, "second prediction")
    ctx.trace()
    scen.observe_coef(ctx, c)
    ctx.outcome(case["data"])
