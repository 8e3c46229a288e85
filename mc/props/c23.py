"""C23: invalid requests are rejected, never silently reinterpreted.

Space: every invalid request of the alphabet below x every background of valid options
with at most k deviations x elevation and velocity; every pair of invalid requests.
Oracle: an exception of the documented kinds; the background itself succeeds.
"""

import numpy as np
import scen

ID = "C23"
LEVEL = "model_checking"
BOUND = {
    "quick": "133 invalid requests x backgrounds with <=2 deviations in 13 dimensions (elevation and velocity); all pairs of invalid requests on the plain background",
    "thorough": "133 invalid requests x backgrounds with <=3 deviations in 13 dimensions (elevation and velocity); all pairs of invalid requests on the plain background",
}
ASSUMPTIONS = ["unknown keyword arguments of reconstruct and of the robust fit raise TypeError"]

INF = dict(inferred_names=["K2"], reference_names=["S2"], amp_ratios=[0.3], phase_offsets=[10.0])
INF2 = dict(inferred_names=["K2"], reference_names=["S2"], amp_ratios=[0.3, 0.2], phase_offsets=[10.0, 5.0])


def inf(two, drop=None, **kw):
    d = dict(INF2 if two else INF)
    d.update(kw)
    d.pop(drop, None)
    return d


class Weird:
    pass


# name: function (two-dimensional?, t, u, v) -> (changes of the options, changes of data)
def bad():
    out = {}

    def opt(name, **kw):
        out[name] = lambda two, t, u, v: (kw, {})

    def data(name, f):
        out[name] = lambda two, t, u, v: ({}, f(t, u, v))

    def infer(name, **kw):
        out[name] = lambda two, t, u, v: (dict(infer=inf(two, **kw), _noinfer=1), {})

    for k in ("foo", "Constit", "conf_ints", "Method", "weights", "latitude", "nodal_corrections", "min_SNR", "strict"):
        if k != "strict":
            opt(f"unknown option {k}", **{k: 1})
    for x in ("Linear", "mc", "", "LINEAR", "None", None, True, 0):
        opt(f"conf_int={x!r}", conf_int=x)
    for x in ("snr", "pe", "Frequency", "", "energy", "none", 5, 0, True):
        opt(f"order_constit={x!r}", order_constit=x)
    opt("order by an unknown constituent", order_constit=["M2", "S2", "K1", "XX"])
    opt("order by an absent constituent", order_constit=["M2", "SA"])
    opt("order by SNR without intervals", order_constit="SNR", conf_int="none")
    for x in ("OLS", "Robust", "cauchy", "", "wls", None):
        opt(f"method={x!r}", method=x)
    for x in ("greenwich", "RAW", "", "linear", None, True):
        opt(f"phase={x!r}", phase=x)
    for x in ("linear", "Linear_time", "none", ""):
        opt(f"nodal={x!r}", nodal=x)
    for x in ("M2", "AUTO", ["M2", "XX"], ["m2"], ["M2 "], ["M2", ""], ["M2", None], [1], ["XX", "M2", "S2"], np.array(["M2", "m2"])):
        opt(f"constit={x!r}", constit=x, order_constit=None, infer=None)
    for x in ("foo", "2000-13-45", "Python", "MATLAB", "2000-01-01T25", "1st of May"):
        opt(f"epoch={x!r}", epoch=x)
    opt("epoch object", epoch=Weird())
    out["lat"] = lambda two, t, u, v: (dict(lat=None), {})
    for k in INF:
        infer(f"infer without {k}", drop=k)
        out[f"infer with empty {k}"] = lambda two, t, u, v, k=k: (dict(infer=inf(two, **{k: []}), _noinfer=1), {})
        out[f"infer with longer {k}"] = lambda two, t, u, v, k=k: (dict(infer=inf(two, **{k: list(inf(two)[k]) + [inf(two)[k][0]]}), _noinfer=1), {})
    out["infer empty"] = lambda two, t, u, v: (dict(infer={}, _noinfer=1), {})
    infer("infer of an unknown constituent", inferred_names=["XX"])
    infer("infer from an unknown constituent", reference_names=["XX"])
    infer("infer from itself", reference_names=["K2"])
    for k in (False, True):
        out[f"infer a name twice, approximate={k}"] = lambda two, t, u, v, k=k: (
            dict(
                infer=dict(
                    inferred_names=["K2", "K2"],
                    reference_names=["S2", "M2"],
                    amp_ratios=[0.3, 0.2] * (1 + two),
                    phase_offsets=[1.0, 2.0] * (1 + two),
                    approximate=k,
                ),
                _noinfer=1,
            ),
            {},
        )
        out[f"infer chain, approximate={k}"] = lambda two, t, u, v, k=k: (
            dict(
                infer=dict(
                    inferred_names=["K2", "S2"],
                    reference_names=["S2", "M2"],
                    amp_ratios=[0.3, 0.2] * (1 + two),
                    phase_offsets=[1.0, 2.0] * (1 + two),
                    approximate=k,
                ),
                _noinfer=1,
            ),
            {},
        )
    out["infer for the other kind of record"] = lambda two, t, u, v: (dict(infer=inf(not two), _noinfer=1), {})
    out["infer with Monte-Carlo intervals"] = lambda two, t, u, v: (dict(infer=inf(two), conf_int="MC", order_constit=None, _noinfer=1), {})
    data("t shorter", lambda t, u, v: dict(t=t[:-1]))
    data("t longer", lambda t, u, v: dict(t=np.append(t, t[-1] + 1)))
    data("u shorter", lambda t, u, v: dict(u=u[1:]))
    data("t and u 2-D", lambda t, u, v: dict(t=t[:, None], u=u[:, None], v=None if v is None else v[:, None]))
    data("u 2-D", lambda t, u, v: dict(u=np.array([u, u])))
    data("u transposed", lambda t, u, v: dict(u=u[:, None]))
    data("scalars", lambda t, u, v: dict(t=t[0], u=u[0], v=None if v is None else v[0]))
    data("v shorter", lambda t, u, v: dict(v=u[:-1]))
    data("v 2-D", lambda t, u, v: dict(v=u[:, None]))
    data("v scalar", lambda t, u, v: dict(v=1.0))
    data("v of one sample", lambda t, u, v: dict(v=u[:1]))
    data("times as text", lambda t, u, v: dict(t=[str(x) for x in t]))
    data("datetimes with epoch", lambda t, u, v: dict(t=(t - 719163).astype("datetime64[D]")))
    return out


BAD = bad()
KINDS = (ValueError, KeyError, NotImplementedError)


def backgrounds(tier):
    d = scen.dims(samp=None, start=None, cons=None, signal=None)
    d["lat"] = [45.0, 0.0]
    d["verbose"] = [False, True]
    d["constit"] = ["list", "auto", "array"]
    d["infer"] = [0, 1]
    d["robust_kw"] = [None, {"weight_function": "huber"}]
    d["box"] = ["array", "list", "masked", "missing"]
    d["Rayleigh_min"] = [1, 0.5]
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind",)):
        if s["infer"] and s["conf_int"] == "MC":
            continue
        if s["order"] == "list" and (s["infer"] or s["constit"] == "auto"):
            continue
        yield s


def cases(tier):
    for s in backgrounds(tier):
        yield dict(back=s)
    for kind in ("1d", "2d"):
        yield dict(pairs=kind)


def call(w, back, changes):
    import utide

    two = w.twodim
    opts = dict(w.opts)
    for k in ("verbose", "Rayleigh_min"):
        opts[k] = back.get(k, opts.get(k, 1))
    if back.get("constit") == "auto":
        opts["constit"] = "auto"
    elif back.get("constit") == "array":
        opts["constit"] = np.array(w.names)
    if back.get("robust_kw"):
        opts["robust_kw"] = back["robust_kw"]
    if back.get("infer"):
        opts["infer"] = inf(two)
    opts["lat"] = w.lat
    dat = dict(t=w.t, u=w.u, v=w.v)
    for f in changes:
        o, d = f(two, w.t, w.u, w.v)
        o = dict(o)
        o.pop("_noinfer", None)
        opts.update(o)
        dat.update(d)
    box = back.get("box", "array")
    if box == "list":
        dat = {k: x if x is None or np.isscalar(x) else list(x) for k, x in dat.items()}
    elif box == "masked":
        dat = {k: x if x is None or np.isscalar(x) or isinstance(x, list) else np.ma.masked_array(x) for k, x in dat.items()}
    elif box == "missing" and np.ndim(dat["u"]) == 1:
        dat["u"] = np.array(dat["u"], float)
        dat["u"][3:20:4] = np.nan
    return utide.solve(dat["t"], dat["u"], dat["v"], **opts)


def check(case, ctx):
    back = case.get("back") or dict(kind=case["pairs"])
    w = scen.World({k: v for k, v in back.items() if k in scen.DIMS}, noise=0.1)
    np.random.seed(0)
    if "pairs" in case:
        names = list(BAD)
        for i, a in enumerate(names):
            for b in names[i + 1 :]:
                fa, fb = BAD[a], BAD[b]
                # the second must not undo the first
                ka, kb = fa(w.twodim, w.t, w.u, w.v), fb(w.twodim, w.t, w.u, w.v)
                if set(ka[0]) & set(kb[0]) or set(ka[1]) & set(kb[1]) or (ka[1] and kb[1]):
                    continue
                expect(ctx, w, back, [fa, fb], f"{a} and {b}")
        ctx.outcome("pairs")
        return
    call(w, back, [])
    ctx.trace()
    ctx.outcome("valid background")
    for name, f in BAD.items():
        if name == "order by SNR without intervals" and back["infer"] and False:
            continue
        expect(ctx, w, back, [f], name)
        ctx.state(back, name)
    robust(ctx, w, back)
    recon(ctx, w, back)


def robust(ctx, w, back):
    """Settings of the robust fit that do not exist."""
    back = dict(back, robust_kw=None, method="robust")
    for name in ("caucy", "Cauchy", "", "CAUCHY", "t", "leastsq", None, 1):
        for more in ({}, dict(tune=2.0), dict(maxit=3)):
            reject(ctx, w, back, dict(more, weight_function=name))
    for key in ("foo", "weight", "wfunc", "Tune", "max_iter", "weights"):
        reject(ctx, w, back, {key: 1})
        reject(ctx, w, back, {key: 1, "weight_function": "huber"})


def reject(ctx, w, back, kw):
    try:
        call(w, back, [lambda two, t, u, v: (dict(method="robust", robust_kw=kw), {})])
    except (ValueError, KeyError, TypeError) as e:
        ctx.outcome(type(e).__name__)
    else:
        ctx.fail(f"robust_kw={kw}: accepted")
    ctx.state(back, kw)
    ctx.trace()


def expect(ctx, w, back, changes, name):
    try:
        call(w, back, changes)
    except np.linalg.LinAlgError as e:
        ctx.fail(f"{name}: failed in the numerics ({e}) instead of being rejected")
    except KINDS as e:
        ctx.outcome(type(e).__name__)
    except Exception as e:
        ctx.fail(f"{name}: {type(e).__name__}: {e}")
    else:
        ctx.fail(f"{name}: accepted")
    ctx.step()
    ctx.trace()


def recon(ctx, w, back):
    import utide

    c = call(w, back, [])
    t = w.t[:7]
    utide.reconstruct(t, c, epoch="python", verbose=False)
    tests = [
        ("epoch", t, dict(epoch="foo")),
        ("epoch name", t, dict(epoch="Python")),
        ("impossible date", t, dict(epoch="2000-13-45")),
        ("epoch object", t, dict(epoch=Weird())),
        ("2-D times", t[:, None], {}),
        ("3-D times", t.reshape(1, 7, 1), {}),
        ("times as text", ["a", "b"], {}),
        ("times as text without epoch", ["a", "b"], dict(epoch=None)),
        ("datetimes with epoch", (t - 719163).astype("datetime64[D]"), {}),
        ("unknown option", t, dict(foo=1)),
    ]
    for name, tt, kw in tests:
        try:
            utide.reconstruct(tt, c, **dict(dict(epoch="python", verbose=False), **kw))
        except KINDS as e:
            ctx.outcome(type(e).__name__)
        except TypeError:
            if name != "unknown option":
                ctx.fail(f"reconstruct, {name}: TypeError")
        else:
            ctx.fail(f"reconstruct, {name}: accepted")
        ctx.state(back, "reconstruct", name)
        ctx.trace()
