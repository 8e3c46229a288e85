"""C32: results have the documented form and describe the request.

Space: every scenario with at most k deviations (model options, constituents, inference,
missing samples, order, intervals, form of the times), each with all forms of
requested times x selections of reconstruct.
Oracle: the documented fields, one value per constituent, the tables, the calendar.
"""

import datetime
import warnings

import numpy as np
import ref
import scen
from props.c31 import express, holes

ID = "C32"
LEVEL = "model_checking"
BOUND = {
    "quick": "scenarios with <=2 deviations in 16 dimensions (elevation and velocity) x 8 requests x 5 selections of reconstruct",
    "thorough": "scenarios with <=3 deviations in 16 dimensions (elevation and velocity) x 8 requests x 5 selections of reconstruct",
}
ASSUMPTIONS = ["intervals are required to be finite for white noise, and where the band has an estimate"]
FORM = ["python", "matlab", "datetime64", "datetime", "2000-01-01"]


def cases(tier):
    d = scen.dims()
    d["order"] = [None, "frequency", "list", "SNR", "PE"]
    d["cons"] = d["cons"] + ["auto"]
    d["conf_int"] = ["linear", "none", "MC"]
    d["missing"] = [None, "sparse", "block", "ends"]
    d["infer"] = [0, 1, 2]
    d["form"] = FORM
    d["signal"] = ["plain", "line", "tiny"]
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind",)):
        if s["order"] == "SNR" and s["conf_int"] == "none":
            continue
        if s["infer"] and (s["conf_int"] == "MC" or s["cons"] == "auto"):
            continue
        if s["order"] == "list" and s["cons"] == "auto":
            continue
        if s["form"] in ("datetime64", "datetime") and s["start"] < 600000:
            s = dict(s, start=733000.37)
        yield s


def same_times(a, b):
    ma, mb = np.ma.getmaskarray(np.ma.asarray(a)), np.ma.getmaskarray(np.ma.asarray(b))
    a, b = np.ma.getdata(a)[~ma], np.ma.getdata(b)[~mb]
    return np.array_equal(ma, mb) and bool(np.all((a == b) | ((a != a) & (b != b))))


def vector(ctx, c, key, n, finite=True):
    x = c[key]
    if not (isinstance(x, np.ndarray) and x.dtype == np.float64 and x.shape == (n,)):
        ctx.fail(f"coef.{key} is a {type(x).__name__} {getattr(x, 'dtype', '')} {getattr(x, 'shape', '')}, not a float array of {n} values")
    if np.ma.isMaskedArray(x):
        ctx.fail(f"coef.{key} is masked")
    if finite and not np.all(np.isfinite(x)):
        ctx.fail(f"coef.{key} is not finite: {x}")
    if getattr(c, key) is not x:
        ctx.fail(f"coef.{key} and coef['{key}'] differ")
    ctx.step()


def check(case, ctx):
    import utide

    extra = ("missing", "infer", "form")
    s = {k: v for k, v in case.items() if k not in extra}
    auto = s["cons"] == "auto"
    if auto:
        s["cons"] = "basic"
    w = scen.World(s, noise=0.1)
    if case["form"] in ("datetime64", "datetime"):
        w.t = np.round((w.t - 719163) * 86400000) / 86400000 + 719163
    gone = holes(w.n, case["missing"])
    tt, epoch = express(w.t, case["form"])
    opts = dict(w.opts, epoch=epoch)
    if auto:
        opts["constit"] = "auto"
    inferred = []
    if case["infer"]:
        m = 2 if w.twodim else 1
        inferred = ["P1", "NU2"]
        if set(inferred) & set(w.names):
            inferred = ["SK4", "2SM6"]
        opts["infer"] = dict(
            inferred_names=inferred,
            reference_names=[w.names[0], w.names[0]],
            amp_ratios=[0.3, 0.15] * m,
            phase_offsets=[10.0, -40.0] * m,
            approximate=case["infer"] == 2,
        )
        if opts["order_constit"] not in (None, "PE", "SNR", "frequency"):
            opts["order_constit"] = opts["order_constit"] + inferred
    ci = opts["conf_int"]
    if ci == "MC":
        np.random.seed(0)
    u = np.where(gone, np.nan, w.u)
    v = np.where(gone, np.nan, w.v) if w.twodim else None
    c = utide.solve(tt, u, v, lat=w.lat, **opts)
    ctx.trace()
    ctx.state(case)

    # ---- coefficients
    names = list(c["name"])
    n = len(names)
    if not all(isinstance(x, str) for x in names) or np.shape(c["name"]) != (n,) or len(set(names)) != n:
        ctx.fail(f"coef.name is {c['name']!r}")
    if auto:
        if not set(names) <= set(ref.INDEX):
            ctx.fail(f"auto selection {names}")
    elif set(names) != set(w.names) | set(inferred):
        ctx.fail(f"constituents {sorted(names)} for the request {sorted(w.names)} and inferred {inferred}")
    o = opts["order_constit"]
    if isinstance(o, list) and names != o:
        ctx.fail(f"order {names} for order_constit={o}")
    par = ["Lsmaj", "Lsmin", "theta", "g"] if w.twodim else ["A", "g"]
    other = ["A", "A_ci", "mean", "slope"] if w.twodim else ["Lsmaj", "Lsmin", "theta", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "umean", "vmean", "uslope", "vslope"]
    for k in par:
        vector(ctx, c, k, n)
    have = [k for k in other if k in c]
    if have:
        ctx.fail(f"fields {have} in a {w.s['kind']} result")
    if ci == "none":
        have = [k for k in c if k.endswith("_ci")]
        if have or "SNR" in c:
            ctx.fail(f"fields {have} or SNR without intervals")
        if "PE" in c:
            vector(ctx, c, "PE", n)
    else:
        for k in par:
            vector(ctx, c, k + "_ci", n, finite=bool(w.s["white"]) and not inferred)
            if np.any(c[k + "_ci"] < 0):
                ctx.fail(f"negative {k}_ci {c[k + '_ci']}")
        vector(ctx, c, "PE", n)
        vector(ctx, c, "SNR", n, finite=bool(w.s["white"]) and not inferred)
        scen.close(ctx, c["PE"].sum(), 100.0, 1e-9, "sum of PE")
    for k in ("umean", "vmean") if w.twodim else ("mean",):
        if np.ndim(c[k]) or not np.isfinite(c[k]) or np.iscomplexobj(c[k]):
            ctx.fail(f"coef.{k} is {c[k]!r}")
    for k in ("uslope", "vslope") if w.twodim else ("slope",):
        if (k in c) != w.trend:
            ctx.fail(f"coef.{k} is {'present' if k in c else 'absent'} with trend={w.trend}")
        if w.trend and (np.ndim(c[k]) or not np.isfinite(c[k]) or np.iscomplexobj(c[k])):
            ctx.fail(f"coef.{k} is {c[k]!r}")
    W = c["weights"]
    if np.shape(W) != (int((~gone).sum()),) or np.asarray(W).dtype != np.float64:
        ctx.fail(f"weights of shape {np.shape(W)} for {(~gone).sum()} used samples")
    if w.s["method"] == "ols" and not np.all(W == 1):
        ctx.fail("weights differ from 1 in least squares")
    if ("rf" in c) != (w.s["method"] == "robust"):
        ctx.fail(f"coef.rf is {'present' if 'rf' in c else 'absent'} with method={w.s['method']}")
    if "rf" in c:
        rf, used = c["rf"], int((~gone).sum())
        p = len(rf["b"])
        shapes = dict(w=(used,), leverage=(used,), b=(p,), ols_b=(p,), s=(p,), rms_resid=(), ols_rms_resid=(), iterations=())
        got = {k: np.shape(rf[k]) if k in rf else None for k in shapes}
        if got != shapes or not all(np.all(np.isfinite(rf[k])) for k in shapes):
            ctx.fail(f"coef.rf has {got}")
        if not (np.all(rf["leverage"] >= 0) and np.all(rf["leverage"] <= 1 + 1e-9) and rf["iterations"] >= 1 and rf["rms_resid"] >= rf["ols_rms_resid"] * (1 - 1e-9)):
            ctx.fail("coef.rf is not consistent")
        if not np.array_equal(rf["w"], W):
            ctx.fail("weights are not those of coef.rf")
    aux = c["aux"]
    if aux["lat"] != w.lat:
        ctx.fail(f"aux.lat is {aux['lat']!r} for lat={w.lat!r}")
    good = w.t[~gone]
    mids = [0.5 * (w.t[0] + w.t[-1]), 0.5 * (good[0] + good[-1])]
    if min(abs(aux["reftime"] - x) for x in mids) > 1e-8:
        ctx.fail(f"aux.reftime is {aux['reftime']!r}, the middle of the record {mids}")
    idx = [ref.INDEX[x] for x in names]
    if list(aux["lind"]) != idx:
        ctx.fail(f"aux.lind is {list(aux['lind'])} for {names}, rows {idx}")
    scen.close(ctx, aux["frq"], np.array(ref.freqs(aux["reftime"]))[idx], 1e-13, "aux.frq")
    scen.observe_coef(ctx, c)

    # ---- reconstruction
    lists = [w.names[0]], w.names[::-1]
    sel = [{}, dict(constit=lists[0]), dict(constit=tuple(lists[1])), dict(min_SNR=0), dict(min_SNR=1.5, min_PE=0.1)]
    if case["infer"] or ci == "none":
        sel = sel[1:3] if ci != "none" else sel
    for what, r in requests(tt, w.t, epoch):
        rt, day = r
        for kw in sel:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = utide.reconstruct(rt, c, epoch=epoch, verbose=False, **kw)
            ctx.trace()
            fields = ("u", "v") if w.twodim else ("h",)
            absent = ("h",) if w.twodim else ("u", "v")
            if any(k in out for k in absent) or not all(k in out for k in fields):
                ctx.fail(f"{what}: fields {sorted(out)}")
            for k in fields:
                x = out[k]
                if not isinstance(x, np.ndarray) or np.ma.isMaskedArray(x) or x.dtype != np.float64 or x.shape != day.shape:
                    ctx.fail(f"{what} {kw}: {k} is a {type(x).__name__} {getattr(x, 'dtype', '')} of shape {np.shape(x)} for {day.shape} times")
                if not np.array_equal(np.isnan(x), np.isnan(day)):
                    ctx.fail(f"{what} {kw}: {k} is nan at {np.flatnonzero(np.isnan(x))[:5]}, missing times at {np.flatnonzero(np.isnan(day))[:5]}")
                if not np.all(np.isfinite(x) | np.isnan(day)):
                    ctx.fail(f"{what} {kw}: {k} is infinite")
                if getattr(out, k) is not x:
                    ctx.fail(f"{what}: {k} as item and attribute differ")
            if out["t_in"] is not rt and not (np.shape(out["t_in"]) == np.shape(rt) and same_times(out["t_in"], rt)):
                ctx.fail(f"{what}: t_in is not the argument")
            want = dict(epoch=epoch, constit=None, min_SNR=2, min_PE=0)
            want.update(kw)
            for k, x in want.items():
                if k not in out or not (out[k] is x or out[k] == x):
                    ctx.fail(f"{what} {kw}: {k} is given back as {out.get(k)!r}")
            tm = np.ma.filled(np.ma.array(np.atleast_1d(out["t_mpl"]), dtype=float), np.nan)
            ok = ~np.isnan(day)
            scen.close(ctx, tm[ok], day[ok], 1e-8, f"{what}: t_mpl")
            ctx.step()
    ctx.outcome(f"{w.s['kind']} {ci}")


def requests(tt, day, epoch):
    part, d = tt[5:60:7], day[5:60:7]
    yield "array", (part, d)
    yield "list", (list(part), d)
    yield "scalar", (tt[17], day[17:18])
    yield "reversed", (part[::-1], d[::-1])
    yield "empty", (tt[:0], day[:0])
    holes = np.array(part)
    hd = d.copy()
    if holes.dtype.kind == "f":
        holes[2] = np.nan
        holes[5] = np.inf
        hd[[2, 5]] = np.nan
    elif holes.dtype.kind == "M":
        holes[2] = np.datetime64("NaT")
        hd[2] = np.nan
    yield "with missing", (holes, hd)
    if holes.dtype.kind in "fM":
        nothing = np.full(4, np.nan if holes.dtype.kind == "f" else np.datetime64("NaT", "ms"))
        yield "all missing", (nothing, np.full(4, np.nan))
    if holes.dtype.kind != "O":
        m = np.zeros(len(part), bool)
        m[3] = True
        md = d.copy()
        md[3] = np.nan
        yield "masked", (np.ma.array(part, mask=m), md)
    else:
        yield "date alone", (datetime.datetime(2007, 3, 4), np.array([float(datetime.date(2007, 3, 4).toordinal())]))
