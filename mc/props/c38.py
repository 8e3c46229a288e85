"""C38: Monte-Carlo intervals include the correlations of the estimates.

Space: samplings that correlate the estimates (parts of the day only, records of little
more than a cycle, gaps), model options, methods, and noise of u and v with every sign
and size of correlation and ratio x ellipses x 8 seeds of the random numbers.
Oracle: first-order propagation of the full covariance of the estimates, from the real
design matrix (weighted by the reported weights) and the covariance of the residuals of
u and v, into amplitudes, axes, orientations and phases.
"""

import numpy as np
import ref
import scen

ID = "C38"
LEVEL = "model_checking"
BOUND = {
    "quick": "scenarios with <=2 deviations in 9 dimensions (elevation and velocity) x 8 seeds",
    "thorough": "scenarios with <=3 deviations in 9 dimensions (elevation and velocity) x 8 seeds",
}
ASSUMPTIONS = [
    "signals at least 10 times their standard errors; mean over 8 seeds of 200 realizations within a factor of 1.22, single seeds 2",
    "with colored noise the band's power and co-spectrum are shared in proportion to the white-noise covariance, and the covariance made positive semidefinite; not for records of a day",
]
SEEDS = range(8)
SAMP = {
    "morning": lambda h, t: (h >= 1) & (h <= 9),
    "afternoon": lambda h, t: (h >= 12) & (h <= 21),
    "day": lambda h, t: (h >= 5) & (h <= 18),
    "all": lambda h, t: h >= 0,
    "alternate": lambda h, t: ((h >= 1) & (h <= 9)) ^ (t - t[0] > 9),
    "short": lambda h, t: t - t[0] < 1.4,
}
SHAPES = {
    "plain": ((1.0, 0.4, 30.0, 70.0), (0.8, -0.3, 100.0, 20.0)),
    "turned": ((0.9, -0.5, 120.0, 160.0), (0.8, 0.5, 45.0, 250.0)),
    "narrow": ((1.0, 0.05, 75.0, 310.0), (0.8, -0.06, 10.0, 100.0)),
    "branch": ((1.0, 0.4, 0.0, 0.0), (0.8, -0.3, 179.999, 359.999)),
    "upright": ((1.0, -0.4, 90.0, 180.0), (0.8, 0.3, 90.0, 90.0)),
}


def cases(tier):
    d = dict(
        kind=["2d", "1d"],
        samp=list(SAMP),
        shape=list(SHAPES),
        rho=[0.6, -0.6, 0.0, 0.95, -0.95],
        ratio=[1.0, 0.3, 3.0],
        opts=[dict(), dict(phase="raw"), dict(phase="raw", nodal=False), dict(phase="linear_time", nodal="linear_time"), dict(nodal=False)],
        trend=[False, True],
        method=["ols", "robust"],
        lat=[45.0, -30.0],
        units=[1.0, 1e-6],
    )
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind", "samp")):
        if s["kind"] == "1d" and (s["rho"] != 0.6 or s["ratio"] != 1.0):
            continue
        yield dict(s, white=True)
        if s["samp"] != "short":
            yield dict(s, white=False)


def check(case, ctx):
    import utide

    t = 730120.0 + np.arange(0, 16.0, 1 / 24.0)
    h = np.round((t % 1) * 24)
    t = t[SAMP[case["samp"]](h, t)]
    n = len(t)
    two = case["kind"] == "2d"
    names = ["K1", "M2"]
    tref = 0.5 * (t[0] + t[-1])
    o = dict(phase=case["opts"].get("phase", "Greenwich"), nodal=case["opts"].get("nodal", True))
    args = (tref, case["lat"], o["phase"], o["nodal"])
    shape = SHAPES[case["shape"]]
    size = 0.004 if case["samp"] == "short" else 0.02
    nu = scen.lcg(n, 5) * size
    nv = scen.lcg(n, 6) * size
    nu, nv = nu - nu.mean(), nv - nv.mean()
    nv = nv - nu * (nu @ nv) / (nu @ nu)
    nv = case["ratio"] * (case["rho"] * nu / np.linalg.norm(nu) + np.sqrt(1 - case["rho"] ** 2) * nv / np.linalg.norm(nv)) * np.linalg.norm(nu)
    q = case["units"]
    if two:
        u, v = ref.velocity(t, dict(zip(names, shape)), *args)
        u, v = q * (u + nu), q * (v + nv)
    else:
        u = q * (ref.elevation(t, {k: (s[0], s[3]) for k, s in zip(names, shape)}, *args) + nu)
        v = None
    kw = dict(lat=case["lat"], constit=names, white=case["white"], verbose=False, epoch="python", order_constit=names, trend=case["trend"], method=case["method"], **o)
    runs = []
    for s in SEEDS:
        np.random.seed(s)
        runs.append(utide.solve(t, u, v, conf_int="MC", **kw))
        ctx.trace()
    c = runs[0]
    wt = np.asarray(c.weights, float)
    cols, D = ref.real_design1(t, names, tref, case["lat"], o["phase"], o["nodal"], case["trend"], t[-1] - t[0])
    N = np.linalg.inv(D.T @ (wt[:, None] * D))
    dof = n - D.shape[1]

    def coefs(y):
        b = N @ (D.T @ (wt * y))
        b = b + N @ (D.T @ (wt * (y - D @ b)))
        return b, y - D @ b

    if case["method"] == "robust":
        # the robust solution minimizes with squared weights, its covariance uses them once
        def coefs(y):
            b = np.linalg.lstsq(wt[:, None] * D, wt * y, rcond=None)[0]
            return b, y - D @ b

    bu, ru = coefs(u)
    R = [ru]
    if two:
        bv, rv = coefs(v)
        R.append(rv)
    S = np.array([[a @ (wt * b) for b in R] for a in R]) / dof
    if not case["white"]:
        # spectra of the weighted residuals in the bands of the constituents
        even = case["samp"] == "all"
        e = wt * (R[0] + 1j * R[1] if two else R[0])
        frq = [ref.freqs(tref)[ref.INDEX[k]] for k in names]
        ties = []
        spectra = ref.band_spectra(t, e, frq, even, ties=ties) / (24.0 * (t[-1] - t[0]) * n / (n - 1))
        if ties:
            ctx.outcome("rounding decides: skipped")
            return
    keys = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if two else ("A_ci", "g_ci")
    for k, name in enumerate(names):
        block = N[2 * k : 2 * k + 2, 2 * k : 2 * k + 2]
        V = np.kron(S, block)
        x = bu[2 * k : 2 * k + 2]
        if two:
            x = np.r_[x, bv[2 * k : 2 * k + 2]]
        if not case["white"]:
            P = spectra[:, ref.nearest_band(frq[k])]
            if np.isnan(P[0]):
                if not all(np.isnan(r[key][k]) for r in runs for key in keys):
                    ctx.fail(f"intervals of {name} without frequencies in its band")
                ctx.outcome("no estimate in the band")
                continue
            B = block / np.trace(block)
            V = P[0] * B
            if two:
                C = P[2] * block / np.abs(block).sum()
                V = np.block([[P[0] * B, C], [C.T, P[1] * B]])
                lam, Q = np.linalg.eigh(V)
                V = (Q * np.maximum(lam, 0)) @ Q.T
        J = jacobian(x, q)
        want = 1.96 * np.sqrt(np.diag(J @ V @ J.T))
        for i, key in enumerate(keys):
            got = np.array([r[key][k] for r in runs])
            f = got / want[i]
            ctx.margin(f"{key} mean", abs(np.log(f.mean())) / np.log(1.22))
            ctx.margin(f"{key} seed", np.abs(np.log(f)).max() / np.log(2.0))
            what = f"{key} of {name}"
            if not 1 / 1.22 <= f.mean() <= 1.22:
                ctx.fail(f"{what}: mean of Monte-Carlo intervals {got.mean()!r}, propagated covariance gives {want[i]!r}")
            if not (f.min() >= 0.5 and f.max() <= 2):
                ctx.fail(f"{what}: Monte-Carlo intervals {got.tolist()}, propagated covariance gives {want[i]!r}")
            ctx.step(len(SEEDS))
            ctx.state(case, name, key)
    ctx.outcome("white" if case["white"] else "colored")


def jacobian(x, q):
    """Derivatives of (A, g) or of axes, orientation and phase, in degrees."""
    if len(x) == 2:
        X, Y = x
        A = np.hypot(X, Y)
        return np.array([[X / A, Y / A], [-Y / A**2, X / A**2]]) * np.array([[1.0], [180 / np.pi]])
    out = []
    for i in range(4):
        e = np.zeros(4)
        e[i] = 1e-6 * q
        a, b = (np.array(ref.ellipse(*(x + s * e))[:4]) for s in (1, -1))
        d = a - b
        d[2] = ref.angle_diff(a[2], b[2], 180.0)
        d[3] = ref.angle_diff(a[3], b[3], 360.0)
        if abs(abs(d[3]) - 180) < 90:
            # orientation jumped by 180 degrees, and the phase with it
            d[3] = ref.angle_diff(a[3] + 180, b[3], 360.0)
        out.append(d / (2e-6 * q))
    return np.array(out).T
