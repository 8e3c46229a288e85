"""C18: amplitudes, axes and angles are reported in canonical ranges.

Space: (a) all ellipses of a grid rotation sense/eccentricity x orientation x phase with
the branch points and their neighbours, through solve on synthetic records; (b) all 4-
tuples of cosine/sine coefficients over signed, zero, tiny and large values through the
parameter conversion itself; (c) all amplitude/phase grids of elevations.
Oracle: ranges; the motion rebuilt from the reported parameters; singular values.
"""

import itertools
import math

import numpy as np
import ref
import scen

ID = "C18"
LEVEL = "model_checking"
BOUND = {
    "quick": "13 axis ratios x 13 orientations x 15 phases through solve (3 constituents at a time, 2 phase options); 12^4 coefficient tuples through ut_cs2cep; 5 x 15 elevations; inference with 13 offsets x 15 phases of the reference",
    "thorough": "19 axis ratios x 25 orientations x 29 phases through solve (4 option sets); 16^4 coefficient tuples; 5 x 29 elevations; inference with 13 offsets x 29 phases of the reference",
}
RATIO = [-1.0, -1 + 1e-9, -0.999, -0.5, -1e-9, 0.0, 1e-9, 0.3, 0.5, 0.999, 1 - 1e-9, 1.0, -0.1]
TH = [0.0, 1e-9, 1e-4, 30.0, 45.0, 90 - 1e-9, 90.0, 90 + 1e-9, 135.0, 150.0, 180 - 1e-4, 180 - 1e-9, 179.0]
G = [0.0, 1e-9, 1e-4, 30.0, 90 - 1e-9, 90.0, 135.0, 180 - 1e-9, 180.0, 180 + 1e-9, 225.0, 270.0, 315.0, 360 - 1e-4, 360 - 1e-9]
MORE_R = [-0.9, -0.25, 1e-5, -1e-5, 0.7, 0.9]
MORE_T = [15.0, 60.0, 75.0, 89.0, 91.0, 105.0, 120.0, 165.0, 1.0, 1e-6, 180 - 1e-6, 44.999999]
MORE_G = [15.0, 45.0, 60.0, 75.0, 120.0, 179.9, 180.1, 200.0, 250.0, 269.9, 300.0, 340.0, 359.9, 1.0]
NUM = [-2.0, -1.0, -1e-8, -1e-17, -1e-300, -0.0, 0.0, 1e-17, 1e-9, 1.0, 1.0 + 1e-15, 3.0]
NUM2 = NUM + [-1.0 - 1e-15, 1e150, 0.5, -3.0]
NAMES = ["M2", "K1", "M4"]


def cases(tier):
    deep = tier != "quick"
    R, T, GG = (RATIO + MORE_R, TH + MORE_T, G + MORE_G) if deep else (RATIO, TH, G)
    oo = [{}, dict(phase="raw", nodal=False)] + ([dict(trend=False, samp="irr"), dict(start=580000.2, lat=-60.0)] if deep else [])
    for r in R:
        for t in T:
            for o in oo:
                yield dict(ratio=r, theta=t, o=o, gs=GG)
    for a in NUM2 if deep else NUM:
        for b in NUM2 if deep else NUM:
            yield dict(Xu=a, Yu=b, nums=NUM2 if deep else NUM)
    for A in (1.0, 1e-8, 1e6, 0.0, 1e-300):
        for o in oo:
            yield dict(A=A, gs=GG, o=o)
    yield dict(zero=1)
    # inferred constituents, whose phases are carried over from others
    off = [-360.0, -190.0, -180.0, -90.0, -1e-9, 0.0, 33.0, 90.0, 180.0, 270.0, 359.0, 360.0, 400.0]
    for kind in ("1d", "2d"):
        for approx in (False, True):
            for o in oo + [dict(method="robust"), dict(conf_int="linear", order="frequency")]:
                for p in off:
                    yield dict(kind=kind, approx=approx, o=o, offset=p, gs=GG)


def ranges(ctx, c, what):
    for k in ("A", "Lsmaj"):
        if k in c and not np.all(c[k] >= 0):
            ctx.fail(f"{what}: negative {k} {c[k]}")
    if "Lsmaj" in c:
        if not np.all(np.abs(c.Lsmin) <= c.Lsmaj):
            ctx.fail(f"{what}: semi-minor {c.Lsmin} exceeds semi-major {c.Lsmaj}")
        if not np.all((c.theta >= 0) & (c.theta < 180)):
            ctx.fail(f"{what}: orientation {c.theta} outside [0, 180)")
    if not np.all((c.g >= 0) & (c.g < 360)):
        ctx.fail(f"{what}: phase {c.g} outside [0, 360)")
    ctx.step()


def check(case, ctx):
    if "ratio" in case:
        return ellipses(case, ctx)
    if "Xu" in case:
        return tuples(case, ctx)
    if "A" in case:
        return elevations(case, ctx)
    if "offset" in case:
        return inferred(case, ctx)
    for kind in ("1d", "2d"):
        w = scen.World(dict(kind=kind))
        w.u = np.zeros(w.n)
        w.v = np.zeros(w.n) if w.twodim else None
        for phase in ("Greenwich", "raw"):
            c = w.solve(phase=phase)
            ctx.trace()
            ranges(ctx, c, "zero record")
            if np.any(c["A" if kind == "1d" else "Lsmaj"] > 1e-300):
                ctx.fail("a record of zeros has amplitudes")
            ctx.state(kind, phase)
    ctx.outcome("zero")


def ellipses(case, ctx):
    gs = case["gs"]
    for i in range(0, len(gs), len(NAMES)):
        w = scen.World(dict(kind="2d", samp="day4", **{k: v for k, v in case["o"].items() if k != "samp"}), names=NAMES)
        tr = {}
        for k, n in enumerate(NAMES):
            if i + k < len(gs):
                tr[n] = (1.0, case["ratio"], case["theta"], gs[i + k])
            else:
                tr[n] = (0.0, 0.0, 0.0, 0.0)
        if case["o"].get("samp") == "irr":
            w.t = w.t + 0.01 * np.abs(scen.lcg(w.n, 3))
            w.tref = ref.reftime(w.t) if hasattr(ref, "reftime") else 0.5 * (w.t[0] + w.t[-1])
        w.u, w.v = ref.velocity(w.t, tr, w.tref, w.lat, w.phase, w.nodal, (0.1, 0.2))
        c = w.solve(conf_int="none")
        ctx.trace()
        what = f"ellipse ratio {case['ratio']} at {case['theta']}"
        ranges(ctx, c, what)
        scen.compare_phasors(ctx, scen.phasors(c), scen.truth_phasors(tr), 1e-8, what + ": motion")
        for n, a, b, th, g in zip(c.name, c.Lsmaj, c.Lsmin, c.theta, c.g):
            # the vector at phase g points along the orientation
            Xu, Yu, Xv, Yv = ref.cs_of_ellipse(*tr[str(n)])
            ph = math.radians(g)
            vec = complex(Xu * math.cos(ph) + Yu * math.sin(ph), Xv * math.cos(ph) + Yv * math.sin(ph))
            scen.close(ctx, vec, a * np.exp(1j * math.radians(th)), 1e-7, what + ": vector at phase g")
            scen.close(ctx, b, tr[str(n)][1], 1e-8, what + ": signed minor axis")
            ctx.state(str(n), tr[str(n)])
    ctx.outcome("ellipses", len(gs))


def tuples(case, ctx):
    try:
        from utide.ellipse_params import ut_cs2cep
    except ImportError:
        ctx.outcome("conversion not exposed")
        return
    a = np.array([(case["Xu"], case["Yu"], p, q) for p, q in itertools.product(case["nums"], repeat=2)])
    L, l, th, g = ut_cs2cep(a)
    L2, l2, th2, g2 = ut_cs2cep(*a.T)
    ctx.trace(2)

    class C(dict):
        __getattr__ = dict.__getitem__

    ranges(ctx, C(Lsmaj=L, Lsmin=l, theta=th, g=g), f"coefficients Xu={case['Xu']}, Yu={case['Yu']}")
    for x, y in ((L, L2), (l, l2), (th, th2), (g, g2)):
        scen.close(ctx, x, y, 1e-9, "columns and separate arrays")
    for i, row in enumerate(a):
        s = np.abs(row).max()
        back = ref.cs_of_ellipse(L[i], l[i], th[i], g[i])
        scen.close(ctx, np.array(back) / (s or 1.0), row / (s or 1.0), 1e-9, f"motion of {row.tolist()}")
        e = ref.ellipse(*(row / (s or 1.0)))
        scen.close(ctx, np.array([L[i], l[i]]) / (s or 1.0), e[:2], 1e-9, f"axes of {row.tolist()}")
        ctx.state(row.tolist())
    r = ut_cs2cep(a[:, :2])
    ctx.trace()
    ranges(ctx, C(A=r[0], g=r[3]), "elevation coefficients")
    scen.close(ctx, r[0] * np.exp(-1j * np.radians(r[3])), a[:, 0] - 1j * a[:, 1], 1e-9 * (1 + np.abs(a).max()), "elevation")
    ctx.outcome("tuples", len(a))


def elevations(case, ctx):
    gs = case["gs"]
    for i in range(0, len(gs), len(NAMES)):
        w = scen.World(dict(samp="day4", **{k: v for k, v in case["o"].items() if k != "samp"}), names=NAMES)
        tr = {n: (case["A"], gs[(i + k) % len(gs)]) for k, n in enumerate(NAMES)}
        w.u = ref.elevation(w.t, tr, w.tref, w.lat, w.phase, w.nodal)
        c = w.solve(conf_int="none")
        ctx.trace()
        ranges(ctx, c, f"elevation {tr}")
        scen.compare_phasors(ctx, scen.phasors(c), scen.truth_phasors(tr), 1e-8 * case["A"] + 1e-300, "elevation")
        for n in NAMES:
            ctx.state(n, tr[n])
    ctx.outcome("elevations", len(gs))


def inferred(case, ctx):
    two = case["kind"] == "2d"
    for j, g in enumerate(case["gs"]):
        w = scen.World(dict(kind=case["kind"], samp="day4", **{k: v for k, v in case["o"].items() if k != "samp"}), names=["K1", "M2"], noise=0.01)
        a = (w.tref, w.lat, w.phase, w.nodal)
        if two:
            r, th = RATIO[j % len(RATIO)], TH[(2 * j) % len(TH)]
            w.u, w.v = ref.velocity(w.t, dict(K1=(1.0, r, th, g), M2=(1.0, 0.2, th, 5.0)), *a)
            w.v = w.v + 0.01 * scen.lcg(w.n, 3)
        else:
            w.u = ref.elevation(w.t, dict(K1=(1.0, g), M2=(0.5, 5.0)), *a)
        w.u = w.u + 0.01 * scen.lcg(w.n, 4)
        p, q = case["offset"], case["offset"] + (0.0 if j % 3 else 77.0)
        A = [0.3, 1.2][j % 2]
        inf = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[A, 0.8 * A] if two else [A], phase_offsets=[p, q] if two else [p], approximate=case["approx"])
        c = w.solve(infer=inf, order_constit=None if w.opts["order_constit"] is None else "frequency", constit=["K1", "M2", "P1"])
        ctx.trace()
        ranges(ctx, c, f"inferred with offset {p}, reference at {g}")
        ctx.state(case, g)
    ctx.outcome("inferred", len(case["gs"]))
