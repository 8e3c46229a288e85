"""C17: velocity analysis is independent of the frame and agrees with 1-D.

Space: every scenario with at most k deviations, with noise, x 12 rotation angles, 3
reflections, the two elevation-type analyses, and quarter turns for the intervals.
Oracle: the rotated complex amplitudes; the 1-D solutions; the untouched intervals.
"""

import numpy as np
import scen

ID = "C17"
LEVEL = "model_checking"
BOUND = {
    "quick": "velocity scenarios with <=2 deviations in 9 dimensions x 12 angles, 3 reflections, 1-D analyses, 3 quarter turns with white and coloured intervals",
    "thorough": "velocity scenarios with <=3 deviations in 9 dimensions x 12 angles, 3 reflections, 1-D analyses, 3 quarter turns with white and coloured intervals",
}
ASSUMPTIONS = ["orientation and phase may turn by 180 degrees together, which describes the same motion"]
ANGLES = [1e-4, 30.0, 45.0, 89.9999, 90.0, 137.2, 179.9999, 180.0, 225.0, 270.0, 300.0, 359.9]


def cases(tier):
    d = scen.dims(kind=None, method=None, conf_int=None, white=None, order=None)
    d["infer"] = [0, 1]
    d["samp"] = ["h361", "h360", "irr", "gap", "day4", "20m"]
    d["lat"] = [45.0, -33.3, 0.0, 90.0]
    d["robust"] = [None, "cauchy", "bisquare", "huber", "talwar", "andrews", "fair", "logistic", "welsch"]
    for s in scen.deviations(d, 2 if tier == "quick" else 3):
        yield dict(s, kind="2d")


def check(case, ctx):
    w = scen.World({k: v for k, v in case.items() if k not in ("infer", "robust")}, noise=0.2)
    over = dict(conf_int="none")
    two = dict(inferred_names=["K2"], reference_names=[w.names[0]], amp_ratios=[0.3, 0.3], phase_offsets=[10.0, 10.0])
    if case["infer"]:
        over["infer"] = two
    x = w.u + 1j * w.v
    scale = w.scale
    if case["robust"]:
        over.update(method="robust", robust_kw=dict(weight_function=case["robust"]))
        # noise of different size and mean in the two directions, and outliers
        x = x + 0.6j * scale * scen.lcg(w.n, 8) ** 3
        x[5::37] += (2 - 0.5j) * scale

    def sol(y, **kw):
        w.u, w.v = y.real.copy(), y.imag.copy()
        ctx.trace()
        return w.solve(**{**over, **kw})

    base = sol(x)
    z = scen.phasors(base)
    m = base.umean + 1j * base.vmean
    tol = 1e-8 * scale
    byname = {str(n): i for i, n in enumerate(base.name)}
    for a in ANGLES:
        r = np.exp(1j * np.radians(a))
        c = sol(x * r)
        scen.compare_phasors(ctx, scen.phasors(c), {n: (p * r, q * r) for n, (p, q) in z.items()}, tol, f"turned by {a}: amplitudes")
        scen.close(ctx, c.umean + 1j * c.vmean, m * r, tol, f"turned by {a}: mean")
        for i, n in enumerate(map(str, c.name)):
            j = byname[n]
            scen.close(ctx, c.Lsmaj[i], base.Lsmaj[j], tol, f"turned by {a}: major axis")
            scen.close(ctx, c.Lsmin[i], base.Lsmin[j], tol, f"turned by {a}: minor axis")
            if base.Lsmaj[j] - abs(base.Lsmin[j]) > 1e-2 * scale * (1e-4 if case["signal"] == "weak" else 1):
                scen.angle_close(ctx, c.theta[i], base.theta[j] + a, 1e-5, f"turned by {a}: orientation", 180.0)
                scen.angle_close(ctx, c.g[i], base.g[j], 1e-5, f"turned by {a}: phase", 180.0)
        ctx.state(case, a)
    for name, y in (("u axis", np.conj(x)), ("v axis", -np.conj(x)), ("diagonal", 1j * np.conj(x))):
        k = {"u axis": 1, "v axis": -1, "diagonal": 1j}[name]
        c = sol(y)
        want = {n: (k * np.conj(q), k * np.conj(p)) for n, (p, q) in z.items()}
        scen.compare_phasors(ctx, scen.phasors(c), want, tol, f"reflected at {name}: amplitudes")
        for i, n in enumerate(map(str, c.name)):
            scen.close(ctx, c.Lsmin[i], -base.Lsmin[byname[n]], tol, f"reflected at {name}: minor axis")
        ctx.state(case, name)
    if case["robust"]:
        ctx.outcome("frames, robust")
        return intervals(case, ctx, sol, x)
    # the two elevation analyses
    import utide

    opts = dict(w.opts, **over)
    if case["infer"]:
        opts["infer"] = dict(two, amp_ratios=[0.3], phase_offsets=[10.0])
    cu = utide.solve(w.t, x.real.copy(), lat=w.lat, **opts)
    cv = utide.solve(w.t, x.imag.copy(), lat=w.lat, **opts)
    ctx.trace(2)
    zu, zv = scen.phasors(cu), scen.phasors(cv)
    for n, (p, q) in z.items():
        scen.close(ctx, zu[n], p + np.conj(q), tol, "ellipse and analysis of u")
        scen.close(ctx, zv[n], -1j * (p - np.conj(q)), tol, "ellipse and analysis of v")
    scen.close(ctx, (cu.mean, cv.mean), (base.umean, base.vmean), tol, "means of u and v")
    if w.trend:
        scen.close(ctx, (cu.slope, cv.slope), (base.uslope, base.vslope), tol, "slopes of u and v")
    ctx.outcome("frames")
    intervals(case, ctx, sol, x)


def intervals(case, ctx, sol, x):
    if case["infer"]:
        return
    for white in (True, False):
        b = sol(x, conf_int="linear", white=white)
        sb = scen.snapshot(b)
        for k in (1, 2, 3):
            c = scen.snapshot(sol(x * 1j**k, conf_int="linear", white=white))
            for f in ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci"):
                for n in sb[f]:
                    p, q = sb[f][n], c[f][n]
                    if not (abs(p - q) <= 1e-6 * abs(p) or (p != p and q != q)):
                        ctx.fail(f"{f} of {n} is {q} after {k} quarter turns, {p} before (white={white})")
                ctx.step()
            ctx.state(case, white, k)
    ctx.outcome("intervals")
