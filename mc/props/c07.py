"""C07: exactly the requested or Rayleigh-resolvable constituents are used.

Space: the automatic selection is piecewise constant in (Rayleigh factor)/(record
length), with a step at each distinct tabulated separation: every piece, and points just
below and above every step, reached by varying either factor, for several samplings,
kinds of record and missing ends; every ordered selection of up to 3 of 7 names, with and
without a repeated name; every single constituent.
Oracle: golden table and frequencies of the reference model.
"""

import itertools

import numpy as np
import ref
import scen

ID = "C07"
LEVEL = "model_checking"
BOUND = {
    "quick": "all pieces and both sides of all steps x 8 record forms by Rayleigh factor, x 2 by record length; all ordered selections of <=3 of 7 names; all 146 single constituents x 3 dates",
    "thorough": "as quick x 16 record forms and 5 dates; all ordered selections of <=4 of 7 names, elevation and velocity, with inference",
}
ASSUMPTIONS = ["points closer than 1e-7 (relative) to a step are not decided: the tabulated separations carry rounding errors of that order"]


def steps():
    out = []
    for d in sorted(set(ref.DF)):
        if d > 0 and (not out or d > out[-1] * (1 + 1e-6)):
            out.append(d)
    return out


def points():
    """One minimum separation in every piece, and both sides of every step."""
    st = steps()
    out = [0.0, st[0] / 2]
    for a, b in zip(st, st[1:] + [st[-1] * 3]):
        out += [a * (1 - 3e-7), a * (1 + 3e-7), (a * b) ** 0.5]
    return out


FORMS = [
    dict(n=361, dt=1.0, kind="1d"),
    dict(n=400, dt=2.0, kind="2d"),
    dict(n=300, dt=1.0, kind="1d", irr=1),
    dict(n=361, dt=1.0, kind="1d", nan="t0"),
    dict(n=361, dt=1.0, kind="1d", nan="t1"),
    dict(n=361, dt=1.0, kind="2d", nan="t01"),
    dict(n=361, dt=1.0, kind="1d", nan="u"),
    dict(n=250, dt=3.1, kind="2d", irr=1, nan="t01"),
]
FORMS2 = [dict(f, n=f["n"] - 1, dt=f["dt"] * 1.37, start=580000.3) for f in FORMS]

NAMES = ["M2", "S2", "K1", "MM", "M4", "2MK5", "SSA"]


def cases(tier):
    pts = points()
    forms = FORMS if tier == "quick" else FORMS + FORMS2
    for f in forms:
        for i in range(len(pts)):
            yield dict(auto=f, i=i, by="rmin")
    for i in range(len(pts)):
        for kind in ("1d", "2d"):
            yield dict(auto=dict(n=200, dt=None, kind=kind), i=i, by="length")
    for sel in range(1, 4 if tier == "quick" else 5):
        for p in itertools.permutations(NAMES, sel):
            yield dict(names=list(p))
            if sel < 4:
                yield dict(names=list(p) + [p[0]])
                yield dict(names=list(p), infer=1)
            if tier != "quick":
                yield dict(names=list(p), kind="2d")
    for i in range(0, ref.NC):
        for start in (733000.0, 580000.3) if tier == "quick" else (733000.0, 580000.3, 1.0, 800000.77, 640000.5):
            yield dict(single=i, start=start)


def record(f, dt=None):
    dt = dt or f["dt"]
    n = f["n"]
    t = f.get("start", 733000.125) + np.arange(n) * dt / 24.0
    if f.get("irr"):
        j = 0.2 * dt / 24 * scen.lcg(n, 3)
        j[0] = j[-1] = 0.0
        t = t + j
    u = np.cos(np.arange(n) * 0.51) + 0.1 * scen.lcg(n, 2)
    v = np.sin(np.arange(n) * 0.51) + 0.1 * scen.lcg(n, 5) if f["kind"] == "2d" else None
    nan = f.get("nan", "")
    good = np.ones(n, bool)
    if nan in ("t0", "t01"):
        good[:7] = False
    if nan in ("t1", "t01"):
        good[-5:] = False
    tt = t.copy()
    tt[~good] = np.nan
    if nan == "u":
        u[0:40] = np.nan
        u[300:] = np.nan
    return t[good], tt, u, v


def verify(ctx, c, want, tref, what):
    names = [str(n) for n in c.name]
    if sorted(names) != sorted(want):
        ctx.fail(f"{what}: missing {sorted(set(want) - set(names))}, unexpected {sorted(set(names) - set(want))}, {len(names)} names for {len(want)}")
    fr = ref.freqs(tref)
    if abs(c.aux.reftime - tref) > 1e-6:
        ctx.fail(f"{what}: reference time {c.aux.reftime} instead of {tref}")
    for n, f, l in zip(names, c.aux.frq, c.aux.lind):
        if int(l) != ref.INDEX[n]:
            ctx.fail(f"{what}: {n} has table index {l} instead of {ref.INDEX[n]}")
        if not abs(f - fr[ref.INDEX[n]]) <= 1e-10:
            ctx.fail(f"{what}: {n} has frequency {f} instead of {fr[ref.INDEX[n]]}")
    ctx.step(len(names))
    for k in ("A", "g", "Lsmaj", "Lsmin", "theta"):
        if k in c and len(c[k]) != len(names):
            ctx.fail(f"{what}: {len(c[k])} values of {k} for {len(names)} constituents")


def check(case, ctx):
    import utide

    opts = dict(conf_int="none", epoch="python", verbose=False, lat=45.0, phase="raw", nodal=False)
    ctx.trace()
    ctx.state(case)
    if "auto" in case:
        f = case["auto"]
        m = points()[case["i"]]
        if case["by"] == "length":
            if m == 0.0:
                return
            lor = 1.0 / (24 * m)
            t, tt, u, v = record(f, dt=24 * lor / (f["n"] - 1))
            rmin = 1
        else:
            t, tt, u, v = record(f)
            rmin = m * 24 * (t[-1] - t[0])
        lor = t[-1] - t[0]
        c = utide.solve(tt, u, v, constit="auto", Rayleigh_min=rmin, **opts)
        limit = rmin / (24 * lor)
        want = [n for n, d in zip(ref.NAMES, ref.DF) if d >= limit]
        assert all(abs(d - limit) > 1e-8 * d for d in ref.DF if d > 0)
        verify(ctx, c, want, 0.5 * (t[0] + t[-1]), f"auto, Rayleigh_min={rmin!r}, {lor!r} days")
        ctx.outcome("auto")
        ctx.state(len(want), f["kind"])
        return
    if "single" in case:
        n = ref.NAMES[case["single"]]
        t, tt, u, v = record(dict(FORMS[0], start=case["start"]))
        c = utide.solve(tt, u, v, constit=[n], **opts)
        verify(ctx, c, [n], 0.5 * (t[0] + t[-1]), n)
        ctx.outcome("single")
        return
    t, tt, u, v = record(dict(FORMS[0], kind=case.get("kind", "1d")))
    want = list(dict.fromkeys(case["names"]))
    inf = None
    if case.get("infer"):
        r = want[-1]
        inf = dict(inferred_names=["P1", "K2"], reference_names=[r, "O1"], amp_ratios=[0.3, 0.2], phase_offsets=[0, 5])
        want += ["P1", "K2", "O1"]
    c = utide.solve(tt, u, v, constit=case["names"], infer=inf, **opts)
    verify(ctx, c, want, 0.5 * (t[0] + t[-1]), f"constit={case['names']}")
    ctx.outcome("explicit")
