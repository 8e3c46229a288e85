"""C19: linearized white-noise intervals are first-order error propagation.

Space: every scenario with at most k deviations, including noise levels and shapes,
missing samples, inference (of the other constituents), ordering and robust weights.
Oracle: the real normal matrix of the reference model, its residual variance per
component, and first-order propagation (numerical differentiation for ellipses).
"""

import itertools

import numpy as np
import ref
import scen

ID = "C19"
LEVEL = "model_checking"
BOUND = {
    "quick": "ut_linci on 5^4 coefficients x 3^4 standard errors; scenarios with <=2 deviations in 14 dimensions (elevation and velocity); numbers of samples around powers of 2 and 10 up to 65537",
    "thorough": "ut_linci on 5^4 coefficients x 3^4 standard errors; scenarios with <=3 deviations in 14 dimensions (elevation and velocity); numbers of samples around powers of 2 and 10 up to 262145",
}
ASSUMPTIONS = [
    "with inference only constituents that are not inferred are compared, for elevation",
    "with robust fitting the reported weights are inverse variances, up to a factor",
    "orientation and phase of ellipses rounder than 1e-3 are not compared",
]
NOISE = [0.3, 1e-4, 5.0]
UV = ["independent", "v small", "v large", "equal", "opposite", "v exact", "v zero", "v constant"]
GRID = [0.0, 1.0, -1.0, 0.25, -3.0]
SIGMAS = [0.1, 1.0, 0.0]
MISSING = [None, "ends", "block", "sparse"]


def cases(tier):
    d = scen.dims(conf_int=None, white=None)
    d["method"] = ["ols", "robust"]
    d["noise"] = NOISE
    d["uv"] = UV
    d["missing"] = MISSING
    d["infer"] = [0, 1, 2]
    for Xu, Yu in itertools.product(GRID, repeat=2):
        yield dict(linci=[Xu, Yu])
    for n in scen.sizes(tier, 361):
        for kind in ("1d", "2d"):
            for method in ("ols", "robust") if n < 3000 or tier != "quick" else ("ols",):
                yield dict(kind=kind, samp=["even", n, 1.0], method=method, noise=0.3, uv=UV[0], missing=None, infer=0)
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind",)):
        if s["kind"] == "1d" and s["uv"] != UV[0]:
            continue
        if s["kind"] == "2d" and s["infer"]:
            continue
        if s["infer"] and s["order"] == "list":
            continue
        yield s


def linci(case, ctx):
    """The propagation itself, on a grid of coefficients and standard errors."""
    from utide.confidence import ut_linci

    Xu, Yu = case["linci"]
    for sX, sY in itertools.product(SIGMAS, repeat=2):
        if Xu or Yu:
            got = ut_linci(Xu, Yu, sX, sY)
            ctx.trace()
            ctx.step(2)
            for k, a, b in zip(("A", "g"), got, ref.sigma_ag(Xu, Yu, sX**2, sY**2)):
                if np.iscomplexobj(a) or not abs(a - b) <= 1e-9 * b:
                    ctx.fail(f"ut_linci({Xu}, {Yu}, {sX}, {sY}): {k} {a!r}, error propagation gives {b!r}")
    for Xv, Yv in itertools.product(GRID, repeat=2):
        Lsmaj, Lsmin = ref.ellipse(Xu, Yu, Xv, Yv)[:2]
        if not Lsmaj - abs(Lsmin) > 1e-3 * Lsmaj:
            continue
        ctx.state(case, Xv, Yv)
        for s in itertools.product(SIGMAS, repeat=4):
            s1, s2 = ut_linci(Xu + 1j * Xv, Yu + 1j * Yv, s[0] + 1j * s[2], s[1] + 1j * s[3])
            ctx.trace()
            ctx.step(4)
            want = ref.sigma_ellipse((Xu, Yu, Xv, Yv), np.array(s) ** 2)
            for k, a, b in zip(("Lsmaj", "Lsmin", "theta", "g"), (np.real(s1), np.imag(s1), np.imag(s2), np.real(s2)), want):
                if not abs(a - b) <= 1e-6 * (b + max(s) * (1 if k[0] == "L" else 100 / Lsmaj)):
                    ctx.fail(f"ut_linci of {Xu, Yu, Xv, Yv} with {s}: {k} {a!r}, error propagation gives {b!r}")
    ctx.outcome("ut_linci")


def holes(w, missing):
    i = np.arange(w.n)
    if missing == "ends":
        return (i < 3) | (i >= w.n - 2)
    if missing == "block":
        return (i > w.n // 3) & (i < w.n // 3 + 9)
    if missing == "sparse":
        return i % 13 == 5
    return i < 0


def check(case, ctx):
    if "linci" in case:
        return linci(case, ctx)
    extra = ("noise", "uv", "missing", "infer")
    w = scen.World({k: v for k, v in case.items() if k not in extra})
    a = case["noise"] * w.scale * scen.lcg(w.n, 3)
    w.u = w.u + a
    if w.twodim:
        b = case["noise"] * w.scale * scen.lcg(w.n, 4)
        b = {"independent": b, "v small": 0.03 * b, "v large": 20 * b, "equal": a, "opposite": -a + 1e-3 * b}.get(case["uv"], 0 * b)
        w.v = w.v + b
        if case["uv"] in ("v zero", "v constant"):
            w.v = np.full(w.n, 0.0 if case["uv"] == "v zero" else 0.2 * w.scale)
    gone = holes(w, case["missing"])
    infer = None
    if case["infer"]:
        infer = dict(inferred_names=["K2", "P1"], reference_names=["M2", "M2"], amp_ratios=[0.3, 0.1], phase_offsets=[-20.0, 100.0])
        if case["infer"] == 2 and "K1" in w.names:
            infer["reference_names"] = ["M2", "K1"]
        if not set(infer["reference_names"]) <= set(w.names):
            infer = None
    over = dict(conf_int="linear", white=True)
    if infer:
        over["infer"] = infer
    u = np.where(gone, np.nan, w.u)
    t = w.t[~gone]
    full, w.u = w.u, u
    c = w.solve(**over)
    ctx.trace()
    w.u = full
    # The reference time of an evenly sampled record is that of all times.
    tref = float(c.aux.reftime)
    W = np.ones(len(t))
    if case["method"] == "robust":
        W = np.asarray(c.weights, float)
    names = w.model
    a1 = (names, tref, w.lat, w.phase, w.nodal, w.trend)
    cols, D = ref.real_design1(t, *a1, lor=w.lor, infer=infer)
    nt, nm = len(t), D.shape[1]
    N = np.linalg.inv(D.T @ (W[:, None] * D))
    var = {}
    # The solution whose residual counts is the reported one.
    fits = []
    for y in (w.u, w.v) if w.twodim else (w.u,):
        y = y[~gone]
        V = W if case["method"] == "robust" else np.ones(len(t))
        q = np.linalg.lstsq(D * V[:, None], y * V, rcond=None)[0]
        r = y - D @ q
        fits.append((q, np.sum(W * r**2) / (nt - nm) * np.diag(N)))
    for i, n in enumerate(cols):
        var[n] = [(q[2 * i], q[2 * i + 1], d[2 * i], d[2 * i + 1]) for q, d in fits]
    tol = 1e-4 if case["method"] == "robust" else 2e-5
    inferred = set(infer["inferred_names"]) if infer else set()
    for i, n in enumerate(map(str, c.name)):
        if n in inferred:
            continue
        if w.twodim:
            (Xu, Yu, vXu, vYu), (Xv, Yv, vXv, vYv) = var[n]
            want = ref.sigma_ellipse((Xu, Yu, Xv, Yv), (vXu, vYu, vXv, vYv))
            got = np.array([c.Lsmaj_ci[i], c.Lsmin_ci[i], c.theta_ci[i], c.g_ci[i]])
            e = ref.ellipse(Xu, Yu, Xv, Yv)
            if e[0] - abs(e[1]) < 1e-3 * e[0]:
                want, got = want[:0], got[:0]
            lab = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci")
        else:
            want = np.array(ref.sigma_ag(*var[n][0]))
            got = np.array([c.A_ci[i], c.g_ci[i]])
            lab = ("A_ci", "g_ci")
        # a component without residual has errors of rounding only
        small = (1e-6 if case["uv"] in UV[5:] else 0.0) * 1.96 * want
        small = np.repeat([small[:2].max(initial=0.0), small[2:].max(initial=0.0)], 2) if w.twodim else small
        for k, x, y, sm in zip(lab, got, 1.96 * want, small):
            if not abs(x - y) <= tol * y + sm:
                ctx.fail(f"{k} of {n} is {x!r}, error propagation gives {y!r}")
            ctx.margin(k, abs(x - y) / (tol * y + sm) if y else 0.0)
            ctx.step()
        ctx.state(case, n)
    ctx.outcome("robust" if case["method"] == "robust" else "ols")
