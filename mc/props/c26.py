"""C26: phase references are related by the reference date only.

Space: every scenario with at most k deviations, with noise, x (a) all nine
combinations of the phase and nodal options, (b) shifts of the record from an hour to
centuries, (c) ways of cutting one tidal signal into pieces.
Oracle: for (a) the astronomical argument and nodal factor at the reference time, from
the golden tables; for (b) and (c) the other analyses of the same signal.
"""

import cmath
import math

import numpy as np
import ref
import scen

ID = "C26"
LEVEL = "model_checking"
BOUND = {
    "quick": "(a) <=2 deviations in 9 dimensions x all option combinations; (b) <=1 deviation x 14 shifts; (c) <=1 deviation x 7 sets of pieces x nodal on and off",
    "thorough": "(a) <=3 deviations in 9 dimensions x all option combinations; (b) <=2 deviations x 14 shifts; (c) <=2 deviations x 7 sets of pieces x nodal on and off",
}
ASSUMPTIONS = [
    "(b) the change of the frequencies with the date is below 1e-9 cph per century",
    "(c) pieces resolve the constituents",
]
SHIFTS = [1 / 24, -0.5, 1.0, 7.25, -13.7, 29.53, 182.6, 365.0, -1461.0, 3396.7, 6798.4, -36525.0, 36525.37, -120000.0]
PIECES = {
    "halves": [(0, 20), (20, 40)],
    "unequal": [(0, 13), (13, 29), (29, 60)],
    "gap of a month": [(0, 16), (46, 62)],
    "gap of years": [(0, 15), (400, 415.5), (3400, 3414)],
    "nodal cycle": [(0, 16), (3399, 3415), (6798, 6814)],
    "century": [(0, 16), (36500.3, 36516)],
    "past": [(0, 16), (-5000.7, -4985), (-70000, -69983)],
}


def cases(tier):
    k = 2 if tier == "quick" else 3
    d = scen.dims(phase=None, nodal=None, conf_int=None, white=None)
    for s in scen.deviations(d, k, fixed=("kind",)):
        if s["method"] == "robust" and s["signal"] == "tiny":
            continue
        yield dict(a=s)
    d = scen.dims(nodal=None, phase=None, conf_int=None, white=None)
    for s in scen.deviations(d, k - 1, fixed=("kind",)):
        yield dict(b=s)
    d = scen.dims(nodal=[True, False], phase=None, conf_int=None, white=None, samp=None)
    for s in scen.deviations(d, k - 1, fixed=("kind", "nodal")):
        if s["cons"] in ("sat", "low"):
            continue  # not resolved by the pieces
        for p in PIECES:
            yield dict(c=s, pieces=p)


def rotated(z, n, turn):
    """Phasors with another phase reference: A e^{-ig} E = A' e^{-ig'} E'."""
    if isinstance(z, tuple):
        return z[0] * turn, z[1] * turn.conjugate()
    return z * turn


def check(case, ctx):
    import utide

    if "a" in case:
        return options(case, ctx)
    if "b" in case:
        return shifts(case, ctx)
    s = case["c"]
    w = scen.World(dict(s, phase="Greenwich"), noise=0.0)
    base = s["start"]
    mean, slope = np.atleast_1d(w.mean), np.atleast_1d(w.slope)
    recs = []
    for a, b in PIECES[case["pieces"]]:
        recs.append(base + np.arange(a * 24, b * 24 + 1) / 24.0)
    # all pieces together are a record with gaps
    if case["pieces"] in ("halves", "gap of a month"):
        recs.append(np.unique(np.concatenate(recs)))
    want = scen.truth_phasors(w.truth)
    for t in recs:
        # the trend is one straight line through all pieces
        args = (base, w.lat, "Greenwich", w.nodal)
        if w.twodim:
            u, v = ref.velocity(t, w.truth, *args, mean, np.append(slope, slope)[:2])
        else:
            u, v = ref.elevation(t, w.truth, *args, mean[0], slope[0]), None
        c = utide.solve(t, u, v, lat=w.lat, **w.opts)
        ctx.trace()
        tref = scen.reftime(t)
        # with a trend over a century the values are large
        big = w.scale + np.abs(slope).max() * abs(tref - base)
        scen.compare_phasors(ctx, scen.phasors(c), want, 3e-6 * w.scale + 1e-9 * big, f"piece at {t[0]}")
        scen.close(ctx, np.atleast_1d(scen.mean_of(c)), mean + slope * (tref - base), 3e-6 * w.scale + 1e-9 * big, "mean of the piece")
        if w.trend:
            scen.close(ctx, np.atleast_1d(scen.slope_of(c)), slope, 3e-7 * w.scale + 1e-10 * big, "slope of the piece")
        ctx.state(case, t[0])
    ctx.outcome("pieces")


def options(case, ctx):
    """Exact relations between the solutions of one (noisy) record."""
    w = scen.World(dict(case["a"], phase="raw", nodal=False), noise=0.2)
    w.opts["conf_int"] = "none"
    z = {}
    for phase in ("raw", "linear_time", "Greenwich"):
        for nodal in (False, "linear_time", True):
            c = w.solve(phase=phase, nodal=nodal)
            ctx.trace()
            z[phase, nodal] = scen.phasors(c), c
            ctx.state(case, phase, nodal)
    tref = np.array([w.tref])
    tol = (1e-3 if case["a"]["method"] == "robust" else 2e-7) * w.scale * 3

    def same(a, b, turn, what):
        got, want = z[a][0], {n: rotated(x, n, turn(n)) for n, x in z[b][0].items()}
        scen.compare_phasors(ctx, got, want, tol, f"{what}: {a} from {b}")
        m = np.abs(np.atleast_1d(scen.mean_of(z[a][1])) - np.atleast_1d(scen.mean_of(z[b][1])))
        q = np.abs(np.atleast_1d(scen.slope_of(z[a][1])) - np.atleast_1d(scen.slope_of(z[b][1])))
        if not (np.all(m <= tol) and np.all(q <= tol)):
            ctx.fail(f"{what}: mean or slope of {a} and {b} differ by {m}, {q}")

    def arg(n):
        return cmath.exp(-2j * math.pi * float(ref.varg(tref, n)[0]))

    def fac(n):
        return 1 / complex(ref.factor(tref, n, w.lat)[0])

    if not ref.FRACTIONAL & set(w.model):
        for nodal in (False, "linear_time", True):
            same(("linear_time", nodal), ("raw", nodal), arg, "astronomical argument")
        for phase in ("raw", "linear_time"):
            same((phase, "linear_time"), (phase, False), fac, "nodal factor")
    # With exact times nothing is frozen: all stay near the linearized ones; the
    # departure of short records is that of the arguments over half the record.
    half = 0.5 * w.lor
    for nodal in (False, "linear_time", True):
        got, want = z["Greenwich", nodal][0], z["linear_time", nodal][0]
        big = max(np.max(np.abs(x)) for x in want.values())
        for n in got:
            if scen.pdist(got[n], want[n]) > (2e-3 * (1 + half / 15) ** 2 + 1e-3 * (case["a"]["method"] == "robust")) * big:
                ctx.fail(f"{n} with exact times is {got[n]}, with linear times {want[n]}")
            ctx.step()
    ctx.outcome("options")


def shifts(case, ctx):
    w = scen.World(dict(case["b"], phase="raw", nodal=False), noise=0.2)
    w.opts["conf_int"] = "none"
    base = w.solve()
    want = scen.phasors(base)
    robust = case["b"]["method"] == "robust"
    t0 = w.t
    for d in SHIFTS:
        w.t = t0 + d
        c = w.solve()
        ctx.trace()
        tol = (1e-4 if robust else 3e-6) * w.scale
        scen.compare_phasors(ctx, scen.phasors(c), want, tol, f"shift by {d}")
        for f in (scen.mean_of, scen.slope_of):
            x = np.abs(np.atleast_1d(f(c)) - np.atleast_1d(f(base)))
            if not np.all(x <= tol):
                ctx.fail(f"shift by {d}: {f.__name__[:-3]} differs by {x}")
        got = dict(zip(map(str, c.name), c.aux.frq))
        q = ref.freqs(scen.reftime(w.t))
        for n in got:
            if not abs(got[n] - q[ref.INDEX[n]]) < 1e-13:
                ctx.fail(f"shift by {d}: frequency of {n} is {got[n]!r}, at that date {q[ref.INDEX[n]]!r}")
        ctx.state(case, d)
    ctx.outcome("shifts")
