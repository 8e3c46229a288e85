"""C10: exact inference locks the inferred constituents to their references.

Space: every ordered list of up to 3 inferred constituents x every assignment of
references (all groupings), with names inside or outside the constit list, ratio/offset
sets, elevation and velocity, model options.
Oracle: reference least squares with the inferred constituents folded into their
references; truth synthesized with the given ratios; analysis without inference for
ratios of zero.
"""

import itertools
import math

import numpy as np
import ref
import scen

ID = "C10"
LEVEL = "model_checking"
BOUND = {
    "quick": "all ordered lists of 1-3 of 3 inferred names x all assignments to 3 references (246) x {elevation, velocity} x {named in constit, not named}; each list of <=2 x 10 option sets (2 of them robust) x 3 ratio sets (4 for 2 options: negative ratios, offsets beyond a turn, integers); each of 144 names as the inferred one and as the reference",
    "thorough": "as quick, each x all 24 model options x 5 ratio sets x 3 requests x 3 samplings; each of 144 names as the inferred one, as the reference, and in pairs",
}
ASSUMPTIONS = ["intervals of the inferred constituents are the subject of C39"]
INF = ["P1", "K2", "NU2"]
REFS = ["K1", "S2", "O1"]
FREE = ["M2", "K1", "S2", "O1", "M4"]
RATIOS = [
    ([0.33, 0.27, 0.19, 0.3, 0.21, 0.14], [-7.0, 33.0, 170.0, 12.0, -95.0, 250.0]),
    ([1.5, 0.02, 0.6, 0.7, 1.1, 0.01], [180.0, 90.0, -179.5, 0.0, 359.0, -45.0]),
    ([0.33, 0.0, 0.19, 0.3, 0.0, 0.14], [-7.0, 33.0, 170.0, 12.0, -95.0, 250.0]),
    ([0.33, 0.27, 0.19, 0.33, 0.27, 0.19], [5.0, 6.0, 7.0, 5.0, 6.0, 7.0]),
    ([-0.33, 1, -0.19, 0.3, -2, -0.14], [-367, 33.0, 750.5, 12.0, -95, 400.0]),
]


def groupings():
    for k in (1, 2, 3):
        for names in itertools.permutations(INF, k):
            for refs in itertools.product(REFS, repeat=k):
                yield list(names), list(refs)


OPTS = [dict()] + [
    dict(phase=p, nodal=n, trend=t)
    for p in ("Greenwich", "linear_time", "raw")
    for n in (True, False, "linear_time")
    for t in (True, False)
    if (p, n, t) != ("Greenwich", True, True)
]
FEW = [OPTS[0]] + [dict(trend=False), dict(phase="raw"), dict(nodal=False), dict(phase="linear_time", nodal="linear_time"), dict(lat=0.0, start=580000.2), dict(samp="irr"), dict(samp="gap", trend=False), dict(method="robust"), dict(method="robust", samp="irr", trend=False)]


def companions(n):
    """Other constituents that a year separates from n and from each other."""
    f = ref.freqs(733000.0)
    out = [n]
    for m in FREE + ["N2", "MF"]:
        if all(abs(f[ref.INDEX[m]] - f[ref.INDEX[o]]) > 1.5 / 8790 for o in out):
            out.append(m)
    return out


def name_cases(tier):
    """Every tabulated constituent as the inferred one, as its reference, and both."""
    names = [n for n in ref.NAMES if n not in ref.FRACTIONAL and n != "Z0"]
    for k, n in enumerate(names):
        other = names[(k + 17) % len(names)]
        for kind in ("1d", "2d") if tier != "quick" else ("1d", "2d")[k % 2 :: 2]:
            if n not in FREE:
                yield dict(names=1, kind=kind, inf=[n], ref=["M2"], r=0, o={})
            yield dict(names=1, kind=kind, inf=["P1" if n != "P1" else "K2"], ref=[n], r=0, o={})
            if tier != "quick" and other not in companions(n):
                yield dict(names=1, kind=kind, inf=[other], ref=[n], r=1, o={})


def any_name(case, ctx):
    two = case["kind"] == "2d"
    free = companions(case["ref"][0])
    free = [n for n in free if n not in case["inf"]]
    w = scen.World(dict(kind=case["kind"], samp=["even", 4398, 2.0]), names=free)
    inf = infer_of(case)
    w.u = w.u + 0.7 * scen.lcg(w.n, 5)
    w.v = w.v + 0.7 * scen.lcg(w.n, 6) if two else None
    what = f"{case['inf']} inferred from {case['ref']}"
    c = w.solve(constit=free, infer=inf)
    ctx.trace()
    ctx.state(case)
    f = w.rfit(infer=inf, names=free)
    scen.compare_phasors(ctx, scen.phasors(c), f.z, 1e-6, what)
    locked(ctx, c, inf, two, what)
    ctx.outcome("names")


def cases(tier):
    yield from name_cases(tier)
    for names, refs in groupings():
        for kind in ("1d", "2d"):
            if tier == "quick":
                for req in ("all", "free"):
                    yield dict(kind=kind, inf=names, ref=refs, req=req, r=0, o={})
                if len(names) <= 2:
                    for o in FEW:
                        for r in (0, 1, 2, 4) if o in FEW[:2] else (0, 1, 2):
                            yield dict(kind=kind, inf=names, ref=refs, req="noref", r=r, o=o)
            else:
                for req in ("all", "free", "noref"):
                    for samp in ("h361", "irr", "gap"):
                        for o in OPTS:
                            for r in range(5):
                                yield dict(kind=kind, inf=names, ref=refs, req=req, r=r, o=dict(o, samp=samp))
    for names, refs in groupings():
        for kind in ("1d", "2d"):
            yield dict(zero=1, kind=kind, inf=names, ref=refs, req="all", r=0, o={})
            if tier != "quick":
                for o in FEW[1:]:
                    yield dict(zero=1, kind=kind, inf=names, ref=refs, req="all", r=0, o=o)


def infer_of(case):
    k = len(case["inf"])
    R, P = RATIOS[case["r"]]
    idx = list(range(k)) + ([3 + i for i in range(k)] if case["kind"] == "2d" else [])
    if case.get("zero"):
        R = [0.0] * 6
    return dict(
        inferred_names=list(case["inf"]),
        reference_names=list(case["ref"]),
        amp_ratios=[R[i] for i in idx],
        phase_offsets=[P[i] for i in idx],
    )


def check(case, ctx):
    if "names" in case:
        return any_name(case, ctx)
    two = case["kind"] == "2d"
    w = scen.World(dict(kind=case["kind"], **case["o"]), names=FREE)
    inf = infer_of(case)
    # truth: references as in FREE, inferred by the given relations
    z = scen.truth_phasors(w.truth)
    for i, n in enumerate(inf["inferred_names"]):
        Rp, Rm = ref.ratios(inf, i, two)
        zr = z[inf["reference_names"][i]]
        z[n] = (Rp * zr[0], Rm * zr[1]) if two else Rp * zr
        E = ref.basis(w.t, n, w.tref, w.lat, w.phase, w.nodal)
        if two:
            x = z[n][0] * E + z[n][1] * np.conj(E)
            w.u, w.v = w.u + x.real, w.v + x.imag
        else:
            w.u = w.u + (z[n] * E).real
    request = {
        "all": FREE + inf["inferred_names"],
        "free": list(FREE),
        "noref": [n for n in FREE if n not in inf["reference_names"]],
    }[case["req"]]
    ctx.state(case)
    if case.get("zero"):
        return zero(case, ctx, w, inf)
    c = w.solve(constit=request, infer=inf)
    ctx.trace()
    scen.observe_coef(ctx, c)
    what = f"inferred {inf['inferred_names']} from {inf['reference_names']}"
    got = scen.phasors(c)
    scen.compare_phasors(ctx, got, z, 1e-6, what + ": truth")
    scen.close(ctx, scen.mean_of(c), w.mean, 1e-6, what + ": mean")
    locked(ctx, c, inf, two, what)
    # arbitrary data: the optimum of the constrained model (least squares), and still locked
    u0, v0 = w.u, w.v
    w.u = u0 + 0.7 * scen.lcg(w.n, 5)
    w.v = v0 + 0.7 * scen.lcg(w.n, 6) if two else None
    if case["o"].get("method") == "robust":
        w.u[::37] += 9.0
    c = w.solve(constit=request, infer=inf)
    ctx.trace()
    if case["o"].get("method") != "robust":
        f = w.rfit(infer=inf, names=FREE)
        scen.compare_phasors(ctx, scen.phasors(c), f.z, 1e-6, what + ": noisy record")
    locked(ctx, c, inf, two, what)
    if (c.nNR, c.nR, c.nI) != (len(FREE) - len(set(case["ref"])), len(set(case["ref"])), len(case["inf"])):
        ctx.fail(f"{what}: counts {c.nNR}, {c.nR}, {c.nI}")
    ctx.outcome("inferred")


def locked(ctx, c, inf, two, what):
    got = scen.phasors(c)
    i_of = {str(n): i for i, n in enumerate(c.name)}
    for i, n in enumerate(inf["inferred_names"]):
        r = inf["reference_names"][i]
        Rp, Rm = ref.ratios(inf, i, two)
        if two:
            a, b = got[n], got[r]
            scen.close(ctx, a[0], Rp * b[0], 1e-9 * (1 + abs(b[0])), what + f": ccw component of {n}")
            scen.close(ctx, a[1], Rm * b[1], 1e-9 * (1 + abs(b[1])), what + f": cw component of {n}")
        else:
            A, g = c.A[i_of[n]], c.g[i_of[n]]
            scen.close(ctx, A, abs(inf["amp_ratios"][i]) * c.A[i_of[r]], 1e-9, what + f": amplitude of {n}")
            if inf["amp_ratios"][i]:
                turn = 180 if inf["amp_ratios"][i] < 0 else 0
                scen.angle_close(ctx, c.g[i_of[r]] - g, inf["phase_offsets"][i] + turn, 1e-6, what + f": offset of {n}")


def zero(case, ctx, w, inf):
    w.u = w.u + 0.2 * scen.lcg(w.n, 5)
    if w.twodim:
        w.v = w.v + 0.2 * scen.lcg(w.n, 6)
    a = w.solve(constit=FREE, conf_int="linear", white=True)
    b = w.solve(constit=FREE, infer=inf, conf_int="linear", white=True)
    ctx.trace(2)
    na = {str(n): i for i, n in enumerate(a.name)}
    nb = {str(n): i for i, n in enumerate(b.name)}
    pa, pb = scen.phasors(a), scen.phasors(b)
    for n in FREE:
        scen.compare_phasors(ctx, {n: pb[n]}, {n: pa[n]}, 1e-8, "ratios of zero")
        for k in ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci"):
            if k in a:
                x, y = a[k][na[n]], b[k][nb[n]]
                if not abs(x - y) <= 1e-6 * abs(x):
                    ctx.fail(f"ratios of zero: {k} of {n} is {y} with inference, {x} without")
                ctx.step()
    for n in inf["inferred_names"]:
        zz = pb[n] if w.twodim else (pb[n],)
        if max(map(abs, zz)) > 1e-12 or math.isnan(abs(zz[0])):
            ctx.fail(f"{n} inferred with ratio 0 is {zz}")
    ctx.outcome("zero ratios")
