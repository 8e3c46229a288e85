"""C20: coloured intervals use the local residual spectrum of each constituent.

Space: every scenario with at most k deviations: kinds of sampling (even, odd, gaps of
absent and of missing samples, irregular, drifting), noise confined to one band, to one
component, correlated noise, ordering, inference, robust weights.
Oracle: the white-noise shares of the real normal matrix times the band mean of the
directly summed periodogram of the residual, propagated to first order.
"""

import numpy as np
import ref
import scen

ID = "C20"
LEVEL = "model_checking"
BOUND = {
    "quick": "scenarios with <=2 deviations in 14 dimensions (elevation and velocity); numbers of samples around powers of 2 and 10 up to 65537 (irregular: 1025, 2600, 4700)",
    "thorough": "scenarios with <=3 deviations in 14 dimensions (elevation and velocity); numbers of samples around powers of 2 and 10 up to 262145 (irregular: 2049, 8 lengths to 6100)",
}
ASSUMPTIONS = [
    "with inference only constituents that are not inferred are compared, for elevation",
    "intervals of ellipses rounder than 1e-3, and bands without any usable frequency, are not compared",
    "with robust fitting the residual is the weighted one",
]
# No frequency of these records coincides with an edge of a band.
SAMP = [
    ["even", 363, 1.0],
    ["even", 362, 1.0],
    "irr",
    "gap",
    ["even", 511, 0.3337],
    ["even", 330, 1.9873],
    ["even", 97, 1.0],
    "drift",
    ["even", 1450, 0.5],
]
NOISE = ["white", "low", "D1", "D2", "D4", "high", "quiet D2", "tiny"]
UV = ["independent", "v small", "v large", "v other band", "equal", "v exact", "v zero"]
MISSING = [None, "start", "end", "block", "sparse"]
BAND = {"low": 0, "D1": 1, "D2": 2, "D4": 4, "high": 8}


def cases(tier):
    d = scen.dims(conf_int=None, white=None)
    d["samp"] = SAMP
    d["start"] = [733000.0, 733000.37, 580000.125]
    d["lat"] = [45.0, -33.3]
    d["noise"] = NOISE
    d["uv"] = UV
    d["missing"] = MISSING
    d["infer"] = [0, 1]
    for n in (2600, 4700) if tier == "quick" else (2498, 2501, 2504, 2507, 2600, 3000, 3700, 4700, 5200, 6100):
        for kind in ("1d", "2d"):
            for noise in ("white", "high", "D2"):
                yield dict(kind=kind, cons="high", samp=["jitter", n, 1.0003], method="ols", noise=noise, uv=UV[0], missing=None, infer=0)
    for n in scen.sizes(tier, 360):
        for kind in ("1d", "2d"):
            for noise in ("white", "D1", "quiet D2") if n < 3000 else ("white",):
                for samp in ("even", "jitter") if n < (1100 if tier == "quick" else 2100) else ("even",):
                    for missing in (None, "block") if samp == "even" else (None,):
                        yield dict(kind=kind, samp=[samp, n, 1.0003], method="ols", noise=noise, uv=UV[0], missing=missing, infer=0)
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind",)):
        if s["kind"] == "1d" and s["uv"] != UV[0]:
            continue
        if s["kind"] == "2d" and s["infer"]:
            continue
        if s["infer"] and s["order"] == "list":
            continue
        yield s


def noise(w, kind, seed):
    """Deterministic noise: white, or sinusoids off the tidal lines in one band."""
    h = 24.0 * (w.t - w.t[0])
    x = 0.05 * scen.lcg(w.n, seed)
    if kind == "white":
        return 6 * x
    if kind == "tiny":
        return 1e-6 * x
    bands = [BAND[kind]] if kind in BAND else [0, 1, 4, 5, 8]
    ph = scen.lcg(40, seed + 9) * np.pi
    for b in bands:
        lo, hi = ref.BANDS[b]
        for k in range(4):
            f = lo + (hi - lo) * (0.13 + 0.21 * k + 0.01 * (seed % 5))
            x = x + 0.4 * np.cos(2 * np.pi * f * h + ph[4 * (b % 9) + k])
    return x


def holes(w, missing):
    i = np.arange(w.n)
    if missing == "start":
        return i < 5
    if missing == "end":
        return i >= w.n - 4
    if missing == "block":
        return (i > w.n // 3) & (i < w.n // 3 + 11)
    if missing == "sparse":
        return i % 17 == 5
    return i < 0


def check(case, ctx):
    extra = ("noise", "uv", "missing", "infer")
    w = scen.World({k: v for k, v in case.items() if k not in extra})
    w.u = w.u + w.scale * noise(w, case["noise"], 3)
    if w.twodim:
        uv = case["uv"]
        b = noise(w, "D1" if uv == "v other band" else case["noise"], 3 if uv == "equal" else 6)
        w.v = w.v + w.scale * {"v small": 0.03, "v large": 20.0, "v exact": 0.0, "v zero": 0.0}.get(uv, 1.0) * b
        if uv == "v zero":
            w.v = np.zeros(w.n)
    gone = holes(w, case["missing"])
    infer = None
    if case["infer"]:
        infer = dict(inferred_names=["K2"], reference_names=[w.names[0]], amp_ratios=[0.3], phase_offsets=[-20.0])
    over = dict(conf_int="linear", white=False)
    if infer:
        over["infer"] = infer
    u = np.where(gone, np.nan, w.u)
    full, w.u = w.u, u
    c = w.solve(**over)
    ctx.trace()
    w.u = full
    t = w.t[~gone]
    even = case["samp"][0] == "even"
    # Evenly sampled: the record is that of all times; irregular: of the valid ones.
    tt = w.t if even else t
    tref = 0.5 * (tt[0] + tt[-1])
    lor = tt[-1] - tt[0]
    elor = lor * len(tt) / (len(tt) - 1)
    robust = case["method"] == "robust"
    W = np.asarray(c.weights, float) if robust else np.ones(len(t))
    cols, D = ref.real_design1(t, w.model, tref, w.lat, w.phase, w.nodal, w.trend, lor=lor, infer=infer)
    N = np.diag(np.linalg.inv(D.T @ (W[:, None] * D)))
    sols, e = [], []
    for y in (w.u, w.v) if w.twodim else (w.u,):
        y = y[~gone]
        q = np.linalg.lstsq(D * W[:, None], y * W, rcond=None)[0]
        sols.append(q)
        e.append(W * (y - D @ q))
    e = e[0] + 1j * e[1] if w.twodim else e[0]
    if even and len(tt) > len(t):
        re = np.interp(tt, t, np.real(e))
        e = re + 1j * np.interp(tt, t, np.imag(e)) if w.twodim else re
    frq = [ref.freqs(tref)[ref.INDEX[str(n)]] for n in c.name]
    ties = []
    S = ref.band_spectra(tt, e, frq, even, ties=ties)
    if ties:
        ctx.outcome("rounding decides: skipped")
        return
    tol = 1e-4 if robust else 2e-5
    if case["noise"] == "tiny" or w.s["signal"] == "huge":
        tol = max(tol, 1e-3)
    for i, n in enumerate(map(str, c.name)):
        if n not in cols:
            continue  # inferred
        b = ref.nearest_band(ref.freqs(tref)[ref.INDEX[n]])
        k = cols.index(n)
        P = S[:2, b] / (24.0 * elor)
        if np.isnan(P[0]):
            ctx.outcome("no estimate in the band")
            continue
        share = N[2 * k] / (N[2 * k] + N[2 * k + 1])
        v = [(sols[j][2 * k], sols[j][2 * k + 1], P[j] * share, P[j] * (1 - share)) for j in range(len(sols))]
        if w.twodim:
            (Xu, Yu, a, b_), (Xv, Yv, p, q) = v
            el = ref.ellipse(Xu, Yu, Xv, Yv)
            if el[0] - abs(el[1]) < 1e-3 * el[0]:
                continue
            want = ref.sigma_ellipse((Xu, Yu, Xv, Yv), (a, b_, p, q))
            got = [c.Lsmaj_ci[i], c.Lsmin_ci[i], c.theta_ci[i], c.g_ci[i]]
            lab = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci")
        else:
            want = ref.sigma_ag(*v[0])
            got = [c.A_ci[i], c.g_ci[i]]
            lab = ("A_ci", "g_ci")
        want = 1.96 * np.asarray(want)
        # a component without residual has errors of rounding only
        small = (1e-5 if case["uv"] in UV[5:] else 0.0) * want
        small = np.repeat([small[:2].max(), small[2:].max()], 2) if w.twodim else small
        for lb, x, y, sm in zip(lab, got, want, small):
            if not abs(x - y) <= tol * y + sm:
                ctx.fail(f"{lb} of {n} is {x!r}, its band gives {y!r}")
            ctx.margin(lb, abs(x - y) / (tol * y + sm) if y else 0.0)
            ctx.step()
        ctx.state(case, n)
    ctx.outcome("even" if even else "irregular")
