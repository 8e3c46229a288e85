"""C08: ordering options permute whole constituents and nothing else.

Space: every permutation of 5 names and the named orders, for every kind of record,
interval method, white noise option, fit method and inference, and constituent order in
the request.  Oracle: the set of per-constituent records of the request in its original
order; sortedness of the key; the same reconstruction.
"""

import itertools

import numpy as np
import scen

ID = "C08"
LEVEL = "model_checking"
BOUND = {
    "quick": "all 120 permutations of 5 names and 3 named orders x 14 analyses x 2 orders of the request; all 24 orders of energies that differ by 1e-6 ... 1e-10",
    "thorough": "all 720 permutations of 6 names and 3 named orders x 28 analyses x 4 orders of the request; near ties as quick",
}
ASSUMPTIONS = ["signals without exact ties in energy or frequency"]
NAMES = ["M2", "MM", "K1", "M4", "O1", "2MK5"]
AMPS = {"M2": 0.4, "MM": 1.1, "K1": 0.05, "M4": 0.9, "O1": 0.6, "2MK5": 0.02}


def analyses(tier):
    for kind in ("1d", "2d"):
        for conf, white in (("none", False), ("linear", False), ("linear", True), ("MC", False)):
            yield dict(kind=kind, conf_int=conf, white=white)
        yield dict(kind=kind, conf_int="linear", method="robust")
        yield dict(kind=kind, conf_int="linear", infer=1)
        yield dict(kind=kind, conf_int="none", infer=1)
        if tier != "quick":
            for samp in ("irr", "gap"):
                for conf, white in (("none", False), ("linear", False), ("linear", True)):
                    yield dict(kind=kind, conf_int=conf, white=white, samp=samp)
            yield dict(kind=kind, conf_int="MC", white=True)


def cases(tier):
    for kind in ("1d", "2d"):
        for conf in ("none", "linear"):
            for d in (1e-6, 1e-8, 1e-9, 1e-10):
                yield dict(near=1, kind=kind, conf_int=conf, d=d)
    n = 5 if tier == "quick" else 6
    firsts = NAMES[:n]
    for a in analyses(tier):
        for req in range(2 if tier == "quick" else 4):
            for f in firsts:
                yield dict(a=a, req=req, first=f, n=n)


NEAR = ["M2", "K1", "M4", "O1"]


def near(case, ctx):
    """Energies that differ in their last digits only are still put in order."""
    import ref

    w = scen.World(dict(kind=case["kind"], conf_int=case["conf_int"], white=True), names=NEAR)
    args = (w.tref, w.lat, w.phase, w.nodal)
    for ranks in itertools.permutations(range(len(NEAR))):
        amp = {n: 1 + r * case["d"] for n, r in zip(NEAR, ranks)}
        if w.twodim:
            tr = {n: (amp[n], 0.5 * amp[n], 30.0, 70.0) for n in NEAR}
            w.u, w.v = ref.velocity(w.t, tr, *args, (0.0, 0.0), (0.0, 0.0))
        else:
            w.u = ref.elevation(w.t, {n: (amp[n], 70.0) for n in NEAR}, *args, 0.0, 0.0)
        want = [NEAR[ranks.index(r)] for r in range(len(NEAR) - 1, -1, -1)]
        for order in (None, "PE"):
            c = w.solve(order_constit=order)
            ctx.trace()
            if [str(n) for n in c.name] != want or not np.all(np.diff(c.PE) <= 0):
                ctx.fail(f"amplitudes {amp} are put in the order {list(c.name)} with PE {c.PE}")
            if case["conf_int"] != "none" and [str(n) for n in c.diagn["name"]] != want:
                ctx.fail(f"amplitudes {amp}: the summary has the order {list(c.diagn['name'])}")
            ctx.step()
            ctx.state(case, ranks, order)
    ctx.outcome("near ties")


def build(a, req, n):
    names = NAMES[:n]
    req = [names, names[::-1], names[2:] + names[:2], sorted(names)][req]
    s = {k: v for k, v in a.items() if k != "infer"}
    w = scen.World(s, names=req)
    tr = {}
    for k, p in w.truth.items():
        f = AMPS[k] / p[0]
        tr[k] = (p[0] * f, p[1]) if len(p) == 2 else (p[0] * f, p[1] * f, p[2], p[3])
    import ref

    args = (w.tref, w.lat, w.phase, w.nodal)
    if w.twodim:
        w.u, w.v = ref.velocity(w.t, tr, *args, w.mean, w.slope)
        w.v = w.v + 0.05 * scen.lcg(w.n, 4)
    else:
        w.u = ref.elevation(w.t, tr, *args, w.mean, w.slope)
    # coloured noise: the low frequencies are noisier, so that SNR order differs
    x = np.cumsum(scen.lcg(w.n, 3)) * 0.05
    w.u = w.u + x + 0.05 * scen.lcg(w.n, 9)
    inf = None
    if a.get("infer"):
        k = 2 if w.twodim else 1
        inf = dict(inferred_names=["K2", "P1"], reference_names=["M2", "K1"], amp_ratios=[0.31, 0.33] * k, phase_offsets=[-11.0, 21.0] * k)
    return w, inf


def check(case, ctx):
    import utide

    if "near" in case:
        return near(case, ctx)
    a = case["a"]
    w, inf = build(a, case["req"], case["n"])
    names = NAMES[: case["n"]]
    all_names = names + (["K2", "P1"] if inf else [])
    base = w.solve(infer=inf, order_constit=None)
    ctx.trace()
    snap = scen.snapshot(base)
    t = w.t[::17] + 1.5

    def rec(c):
        ctx.trace()
        kw = {} if a["conf_int"] == "none" else dict(min_SNR=0)
        o = utide.reconstruct(t, c, epoch="python", verbose=False, **kw)
        return o.h if "h" in o else o.u + 1j * o.v

    h0 = rec(base)

    def same(order, what):
        c = w.solve(infer=inf, order_constit=order)
        ctx.trace()
        scen.same_snapshot(ctx, snap, scen.snapshot(c), what, rtol=1e-9, skip=("PE",) if "PE" not in c or "PE" not in base else ())
        scen.close(ctx, rec(c), h0, 1e-9, what + ": reconstruction")
        if sorted(map(str, c.name)) != sorted(all_names):
            ctx.fail(f"{what}: names {list(c.name)}")
        for k in ("mean", "slope", "umean", "vslope", "nNR", "nR", "nI"):
            if k in base and abs(base[k] - c[k]) > 1e-12:
                ctx.fail(f"{what}: {k} changed")
        ctx.state(a, case["req"], order)
        return c

    if case["first"] == names[0]:
        for order in [None, "PE", "frequency"] + (["SNR"] if a["conf_int"] != "none" else []):
            c = same(order, f"order_constit={order!r}")
            E = c.Lsmaj**2 + c.Lsmin**2 if w.twodim else c.A**2
            key = {"frequency": -c.aux.frq, "SNR": c.get("SNR")}.get(order, E)
            if not np.all(np.diff(key) <= 0):
                ctx.fail(f"order_constit={order!r}: key {key} of {list(c.name)} is not sorted")
            if order in (None, "PE") and not np.all(np.diff(c.PE) <= 1e-12):
                ctx.fail(f"PE {c.PE} is not sorted")
            ctx.outcome("named order")
    rest = [n for n in names if n != case["first"]]
    for p in itertools.permutations(rest):
        order = [case["first"], *p]
        if inf:
            order = order[:1] + ["P1"] + order[1:3] + ["K2"] + order[3:]
        c = same(order, f"order_constit={order}")
        if [str(n) for n in c.name] != order:
            ctx.fail(f"order_constit={order} gave {list(c.name)}")
        ctx.outcome("permutation")
