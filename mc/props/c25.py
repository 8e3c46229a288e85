"""C25: every constituent follows its Doodson and satellite definition.

Space: all 146 constituents x 9 combinations of phase and nodal options x latitudes
(equator, the 5 degree limit on both sides, poles, nulls of the latitude factors) x
reference dates x dates up to centuries away; through reconstruct (one coefficient set
of unit circular motions, one constituent selected at a time) and through FUV.
Oracle: the sum over Doodson numbers and satellites of the golden tables, written out
constituent by constituent.
"""

import math

import numpy as np
import ref
import scen

ID = "C25"
LEVEL = "model_checking"
BOUND = {
    "quick": "146 constituents x 9 option combinations x 21 latitudes x 5 reference dates x 48 dates (580000 to 800000) by FUV; the same x 5 latitudes x 5 reference dates by reconstruct; astronomical variables on 18000 dates",
    "thorough": "146 constituents x 9 option combinations x 197 latitudes x 9 reference dates x 48 dates by FUV; the same x 21 latitudes x 9 reference dates by reconstruct; astronomical variables on 200000 dates",
}
ASSUMPTIONS = [
    "tolerance 2e-6 in the complex harmonic (dates are day numbers with a resolution of 1e-10)",
    "the golden copy of the tables is the one of the pinned commit",
]
COMBOS = [(p, n) for p in ("Greenwich", "linear_time", "raw") for n in (True, False, "linear_time")]
NULL = math.degrees(math.asin(math.sqrt(0.2)))
LATS = [45.0, 0.0, -33.3, 2.0, -2.0, 5.0, -5.0, 4.999, -4.999, 5.001, -5.001, 1e-9, -1e-9, 90.0, -90.0, NULL, -NULL, 89.9, 30.0, -60.0, 12.5]
TREFS = [733000.0, 733000.37, 693595.2, 580000.125, 800000.6, 693595.5, 1.5, 719163.0, 737000.999999]
# M7 is 3.5 M2: UTide takes 3.5 times the wrapped argument of M2.
KNOWN = "M7-halfcycle"


def lats(tier, deep):
    if tier == "quick":
        return LATS if deep else LATS[:3] + [-2.0, -90.0]
    out = list(LATS)
    if deep:
        out += [float(x) for x in range(-88, 89) if float(x) not in out]
    return out


def cases(tier):
    trefs = TREFS[:5] if tier == "quick" else TREFS
    for tref in trefs:
        for phase, nodal in COMBOS:
            for deep in (True, False):
                ls = lats(tier, deep)
                for i in range(0, len(ls), 24 if deep else 1):
                    yield dict(by="FUV" if deep else "reconstruct", tref=tref, phase=phase, nodal=nodal, lats=ls[i : i + (24 if deep else 1)])
    n = 20
    for part in range(n):
        yield dict(by="astron", part=part, n=n, dates=18000 if tier == "quick" else 200000)


def dates(tref):
    near = [0.0, 0.01, -0.5, 0.5, 1.0, -13.7, 27.32, 182.6, -365.25, 1461.0]
    far = [6798.4 * k / 4 for k in (-2, -1, 1, 2, 3, 4)]
    t = [tref + d for d in near + far]
    t += list(np.linspace(580000.3, 799999.7, 24))
    t += [693595.5, 693595.49, 693595.51, 730120.0, 693961.5, 719529.0, 719163.0, 640000.77]
    return np.array(t)


def judge(ctx, got, t, name, tref, lat, phase, nodal, what):
    want = ref.basis(t, name, tref, lat, phase, nodal)
    ctx.step(len(t))
    if got.shape != want.shape:
        ctx.fail(f"{what}: {got.shape} values for {len(t)} dates")
    # raw and linear phases advance from the reference date
    tol = 2e-6 * np.maximum(1.0, np.abs(want))
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        key = None
        if name in ref.FRACTIONAL and phase != "raw":
            legacy = ref.basis(t, name, tref, lat, phase, nodal, halfbug=True)
            if np.all(np.abs(got - legacy) <= tol):
                key = KNOWN
        ctx.fail(f"{what}: {name} at {t[i]!r} is {got[i]!r}, its definition gives {want[i]!r}", key=key)
    else:
        ctx.margin("harmonic", float(np.max(np.abs(got - want) / tol)))


def check(case, ctx):
    import utide
    from utide.astronomy import ut_astron
    from utide.harmonics import FUV

    if case["by"] == "astron":
        return astron(case, ctx, ut_astron)
    tref, phase, nodal = case["tref"], case["phase"], case["nodal"]
    t = dates(tref)
    flags = [nodal == "linear_time", nodal is False, phase == "linear_time", phase == "raw"]
    if case["by"] == "FUV":
        lind = np.arange(ref.NC)
        for lat in case["lats"]:
            with np.errstate(all="ignore"):
                F, U, V = FUV(t, tref, lind, lat, flags)
            ctx.trace()
            E = F * np.exp(2j * np.pi * (U + V))
            E = np.broadcast_to(E, (len(t), ref.NC))
            if not (np.all(np.isfinite(F)) and np.all(np.isfinite(U)) and np.all(np.isfinite(V))):
                ctx.fail(f"FUV is not finite at latitude {lat}")
            for n in ref.NAMES:
                judge(ctx, E[:, ref.INDEX[n]], t, n, tref, lat, phase, nodal, f"FUV at latitude {lat}, {phase}/{nodal}")
                ctx.state(tref, phase, nodal, lat, n)
            if len(t) > 3:
                # one date, one constituent, alone
                with np.errstate(all="ignore"):
                    F1, U1, V1 = FUV(t[3:4], tref, lind[48:49], lat, flags)
                z = (F1 * np.exp(2j * np.pi * (U1 + V1))).ravel()
                if z.shape != (1,) or not abs(z[0] - E[3, 48]) < 1e-9 * abs(E[3, 48]):
                    ctx.fail(f"FUV of one constituent at one date is {z}, among others {E[3, 48]}")
        ctx.outcome("FUV")
        return
    # A coefficient set with every constituent: an analysis around the reference time,
    # whose constants are then replaced by unit circular motions.
    lat = case["lats"][0]
    tt = tref + np.arange(-200, 201) / 24.0
    h = np.cos(6.3 * (tt - tref)) + 0.1 * scen.lcg(401, 3)
    c = utide.solve(
        tt,
        h,
        0.5 * h,
        lat=lat,
        constit=ref.NAMES,
        phase=phase,
        nodal=nodal,
        trend=False,
        conf_int="none",
        method="ols",
        epoch="python",
        verbose=False,
    )
    if sorted(map(str, c.name)) != sorted(ref.NAMES):
        ctx.fail("an explicit list of all constituents is not used entirely")
    c.Lsmaj[:] = 1.0
    c.Lsmin[:] = 1.0
    c.theta[:] = 0.0
    c.g[:] = 0.0
    c.umean = c.vmean = 0.0
    if abs(c.aux.reftime - tref) > 1e-9 * abs(tref):
        ctx.fail(f"reference time {c.aux.reftime!r} instead of {tref!r}")
    for n in ref.NAMES:
        o = utide.reconstruct(t, c, constit=[n], epoch="python", verbose=False)
        ctx.trace()
        judge(ctx, o.u + 1j * o.v, t, n, c.aux.reftime, lat, phase, nodal, f"reconstruction at latitude {lat}, {phase}/{nodal}")
        ctx.state("r", tref, phase, nodal, lat, n)
    ctx.outcome("reconstruct")


def astron(case, ctx, ut_astron):
    t = np.linspace(200000.3, 900000.7, case["dates"])[case["part"] :: case["n"]]
    t = np.concatenate([t, np.round(t) + [0.0], np.round(t) + 0.5])
    a, r = ut_astron(t)
    wa, wr = ref.astro(t), ref.astro_rate(t)
    ctx.trace()
    if a.shape != (6, len(t)) or r.shape != (6, len(t)):
        ctx.fail(f"shapes {a.shape} and {r.shape}")
    d = np.abs((a - wa + 0.5) % 1 - 0.5)
    i = np.unravel_index(np.argmax(d), d.shape)
    if not np.all(d < 1e-8):
        ctx.fail(f"astronomical variable {i[0]} at {t[i[1]]!r} is {a[i]!r}, expected {wa[i]!r}")
    if not np.all(np.abs(r - wr) <= 1e-12):
        ctx.fail("rates of the astronomical variables")
    # the rates are the derivatives of the variables
    b, _ = ut_astron(t + 0.25)
    c, _ = ut_astron(t - 0.25)
    num = ((b - c - 0.5 * r + 0.5) % 1 - 0.5) / 0.5
    if not np.all(np.abs(num) < 1e-8):
        ctx.fail("rates are not the derivatives of the variables")
    one, _ = ut_astron(float(t[1]))
    if one.shape != (6, 1) or np.abs((one[:, 0] - a[:, 1] + 0.5) % 1 - 0.5).max() > 1e-9:
        ctx.fail("a scalar date")
    ctx.step(6 * len(t))
    for x in t:
        ctx.state("astron", float(x))
    ctx.outcome("astron")
