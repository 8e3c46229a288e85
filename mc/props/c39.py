"""C39: intervals of inferred constituents are carried over from their references.

Space: groups of inferred constituents x ratios and offsets (the same or different for
the two directions of rotation) x elevation and velocity x exact and approximate
inference x white and colored noise x methods, samplings and model options, and noise of
u and v of different sizes.
Oracle: the variances of the coefficients of a reference, recovered from its own reported
intervals, propagated through the defining relation of the inferred constituent.
"""

import numpy as np
import ref
import scen

ID = "C39"
LEVEL = "model_checking"
BOUND = {
    "quick": "scenarios with <=2 deviations in 12 dimensions, for elevation and velocity, exact and approximate inference, white and colored noise",
    "thorough": "scenarios with <=3 deviations in 13 dimensions, for elevation and velocity, exact and approximate inference, white and colored noise",
}
ASSUMPTIONS = [
    "linearized intervals: the coefficients of the reference are taken as independent, as in the intervals of the reference itself",
    "ellipses and phases whose intervals do not determine the variances of the coefficients (condition above 1e6) are counted and skipped",
]
FREE = ["M2", "K1", "S2", "O1", "M4"]
GROUPS = [
    (["P1"], ["K1"]),
    (["P1", "K2"], ["K1", "S2"]),
    (["K2", "NU2"], ["S2", "S2"]),
    (["NU2", "P1", "K2"], ["M2", "K1", "S2"]),
    (["K2", "P1", "NU2"], ["S2", "K1", "S2"]),
]
RATIOS = [
    ([0.33, 0.27, 0.19, 0.3, 0.21, 0.14], [-7.0, 33.0, 170.0, 12.0, -95.0, 250.0]),
    ([0.33, 0.27, 0.19, 0.33, 0.27, 0.19], [5.0, 40.0, 100.0, 5.0, 40.0, 100.0]),
    ([1.5, 0.02, 0.6, 0.7, 1.1, 0.01], [180.0, 90.0, -179.5, 0.0, 359.0, -45.0]),
    ([1.0, 1.0, 1.0, 1.0, 1.0, 1.0], [0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
    ([0.5, 0.4, 0.3, 0.5, 0.4, 0.3], [90.0, 45.0, -30.0, -90.0, -45.0, 30.0]),
    ([-0.33, 1, -0.19, 0.3, -2, -0.14], [-367, 33.0, 750.5, 12.0, -95, 400.0]),
]
KEYS = {True: ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci"), False: ("A_ci", "g_ci")}


def cases(tier):
    d = scen.dims(
        conf_int=["linear"],
        cons=None,
        samp=["h361", "irr", "gap", "20m", "long"],
        white=[True, False],
        start=[733000.0, 733000.37] if tier != "quick" else None,
        lat=[45.0, -33.3, 90.0],
    )
    del d["conf_int"]
    if d.get("start") is None:
        d.pop("start", None)
    d["approximate"] = [False, True]
    d["group"] = range(len(GROUPS))
    d["r"] = range(len(RATIOS))
    d["noise"] = [(1.0, 1.0), (0.2, 1.0), (1.0, 0.1)]
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind", "white", "approximate")):
        if s["kind"] == "2d" or s["noise"] == (1.0, 1.0):
            yield dict(s)


def infer_of(case):
    names, refs = GROUPS[case["group"]]
    k = len(names)
    R, P = RATIOS[case["r"]]
    idx = list(range(k)) + ([3 + i for i in range(k)] if case["kind"] == "2d" else [])
    return dict(
        inferred_names=list(names),
        reference_names=list(refs),
        amp_ratios=[R[i] for i in idx],
        phase_offsets=[P[i] for i in idx],
        approximate=case["approximate"],
    )


def squares(x):
    """Squared derivatives of the reported parameters by the coefficients."""
    if len(x) == 2:
        e = np.eye(2)
        return np.array([np.square(ref.sigma_ag(*x, *e[k])) for k in range(2)]).T
    return np.array([np.square(ref.sigma_ellipse(x, e)) for e in np.eye(4)]).T


def coefficients(z):
    """(Xu, Yu, Xv, Yv), or (X, Y), from the phasors."""
    if isinstance(z, tuple):
        a, b = z
        return np.array([(a + b).real, -(a - b).imag, (a + b).imag, (a - b).real])
    return np.array([z.real, -z.imag])


def phasors_of(x):
    if len(x) == 4:
        return ref.phasors_of_cs(*x)
    return x[0] - 1j * x[1]


def check(case, ctx):
    two = case["kind"] == "2d"
    extra = ("approximate", "group", "r", "noise")
    w = scen.World({k: v for k, v in case.items() if k not in extra}, names=FREE)
    nu, nv = (0.3 * w.scale * x for x in case["noise"])
    w.u = w.u + nu * scen.lcg(w.n, 3)
    if two:
        w.v = w.v + nv * scen.lcg(w.n, 4)
    inf = infer_of(case)
    c = w.solve(constit=FREE + inf["inferred_names"], infer=inf, conf_int="linear", order_constit=None if case["order"] == "list" else case["order"])
    ctx.trace()
    scen.observe_coef(ctx, c)
    at = {str(n): i for i, n in enumerate(c.name)}
    z = scen.phasors(c)
    keys = KEYS[two]
    for i, (n, r) in enumerate(zip(inf["inferred_names"], inf["reference_names"])):
        what = f"{n} inferred from {r}"
        ci = np.array([c[k][at[r]] for k in keys])
        got = np.array([c[k][at[n]] for k in keys])
        if not np.isfinite(ci).all():
            if not np.isnan(got).all():
                ctx.fail(f"{what}: intervals {got.tolist()}, but {ci.tolist()} for the reference")
            ctx.outcome("no estimate for the reference")
            continue
        x = coefficients(z[r])
        A = squares(x)
        # balance the units of lengths and angles
        row, = (1 / np.linalg.norm(A, axis=1)[None, :],)
        B = A * row.T
        cond = np.linalg.cond(B)
        if cond > 1e6:
            ctx.outcome("variances not determined")
            continue
        var = np.linalg.solve(B, row.T[:, 0] * (ci / 1.96) ** 2)
        if not (var > -1e-7 * cond * np.abs(var).max()).all():
            ctx.fail(f"{what}: intervals {ci.tolist()} of {r} do not follow from variances: {var.tolist()}")
        # the inferred coefficients are linear in those of the reference
        Rp, Rm = ref.ratios(inf, i, two)
        L = np.zeros((len(x), len(x)))
        for k, e in enumerate(np.eye(len(x))):
            p = phasors_of(e)
            L[:, k] = coefficients((Rp * p[0], Rm * p[1]) if two else Rp * p)
        xi = L @ x
        want = 1.96 * np.sqrt(np.maximum(squares(xi) @ (L**2 @ var), 0))
        tol = 1e-8 * cond + 1e-5
        for k, g, v in zip(keys, got, want):
            ctx.margin(k, abs(g - v) / (tol * v))
            if not abs(g - v) <= tol * v:
                ctx.fail(f"{what}: {k} {g!r}, carried over from {r}: {v!r}")
        ctx.step(len(keys))
        ctx.state(case, n)
        ctx.outcome("carried over")
        if not two and abs(np.sin(2 * np.angle(Rp))) < 1e-9 and abs(np.cos(np.angle(Rp))) > 0.5:
            # in or opposite to phase with the reference: the same phase error, amplitude in proportion
            if not (abs(got[0] - abs(Rp) * ci[0]) <= 1e-9 * ci[0] and abs(got[1] - ci[1]) <= 1e-9 * ci[1]):
                ctx.fail(f"{what}: intervals {got.tolist()}, of {r} {ci.tolist()}, ratio {abs(Rp)}")
