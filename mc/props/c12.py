"""C12: reconstruct includes exactly the selected constituents.

Space: for each solution, all subsets of its constituents through constit (with and
without names that are not in the solution), and all pairs of thresholds at, just below
and just above every constituent's SNR and PE, zero, and beyond the largest. Each of
the tabulated names alone, left out, and with similar names.
Oracle: the sum over the expected subset by the reference model.
"""

import itertools

import numpy as np
import scen

from props.c02 import expected, value

ID = "C12"
LEVEL = "model_checking"
BOUND = {
    "quick": "18 solutions of 5 constituents: all 32 subsets x 4 spellings; all threshold pairs over {0, all SNR (1+-1e-9), max} x {0, all PE (1+-1e-9), max} (144 each); each of 144 names alone, left out, with neighbours and similar names; thresholds equal to exactly representable SNR and PE (20 pairs each); each constituent without interval",
    "thorough": "72 solutions of 6 constituents: all 64 subsets x 4 spellings; all 196 threshold pairs each; each of 144 names alone, left out, with neighbours and similar names",
}
NAMES = ["M2", "S2", "K1", "O1", "M4", "MM"]


def sols(tier):
    for kind in ("1d", "2d"):
        for conf, white in (("none", False), ("linear", False), ("linear", True), ("MC", False)):
            for trend in (True, False) if (tier != "quick" or conf == "linear") else (True,):
                yield dict(kind=kind, conf_int=conf, white=white, trend=trend)
        yield dict(kind=kind, conf_int="linear", order="frequency")
        yield dict(kind=kind, conf_int="linear", infer=1)
        yield dict(kind=kind, conf_int="linear", samp="irr", phase="raw", nodal=False)
        if tier != "quick":
            for ph in ("Greenwich", "linear_time", "raw"):
                for nd in (True, False, "linear_time"):
                    for conf in ("none", "linear"):
                        yield dict(kind=kind, conf_int=conf, phase=ph, nodal=nd, order="list")


def cases(tier):
    for kind in ("1d", "2d"):
        for ph, nd in (("raw", False), ("Greenwich", True)):
            if tier != "quick" or (kind == "1d") == (ph == "raw"):
                yield dict(names=True, b=dict(kind=kind, phase=ph, nodal=nd, samp=["even", 300, 1.0]))
    n = 5 if tier == "quick" else 6
    for s in sols(tier):
        yield dict(s=s, n=n, what="subsets")
        for part in range(6):
            yield dict(s=s, n=n, what="thresholds", part=part)
        if s["conf_int"] != "none" and not s.get("infer"):
            yield dict(s=s, n=5, what="equal")


# Energies and standard errors whose ratios are exact in floating point.
AMP = [4.0, 2.0, 2.0, 2.0, 2.0, 4.0]
SIG = [2.0, 1.0, 0.5, 0.25, 2.0, 1.0]
SNR = [4.0, 4.0, 16.0, 64.0, 1.0, 16.0]
PE = {5: [50.0, 12.5, 12.5, 12.5, 12.5]}


def exact(c, twodim):
    k = len(c.name)
    amp, ci = np.array(AMP[:k]), 1.96 * np.array(SIG[:k])
    if twodim:
        c.Lsmaj, c.Lsmaj_ci = amp, ci
        c.Lsmin, c.Lsmin_ci = np.zeros(k), np.zeros(k)
    else:
        c.A, c.A_ci = amp, ci
    c.SNR, c.PE = np.array(SNR[:k]), np.array(PE[k])


def all_names(case, ctx):
    """Every tabulated constituent alone, all but it, with its neighbours, and pairs of similar names."""
    import ref
    import utide

    every = [n for n in ref.NAMES if n not in ref.FRACTIONAL and n != "Z0"]
    w = scen.World(case["b"], names=every)
    c = w.solve(conf_int="none")
    ctx.trace()
    names = [str(x) for x in c.name]
    if set(names) != set(every):
        ctx.fail(f"solve with {len(every)} constituents gave {len(names)}")
    # the record does not resolve so many: give them values of their own
    k = np.arange(len(names))
    if w.twodim:
        c.Lsmaj, c.Lsmin = 1 + 0.01 * k, (0.3 - 0.004 * k)
        c.theta, c.g = (k * 37.0) % 180, (k * 71.0) % 360
        c.umean, c.vmean, c.uslope, c.vslope = 0.5, -0.25, 0.01, 0.02
    else:
        c.A, c.g = 1 + 0.01 * k, (k * 71.0) % 360
        c.mean, c.slope = 0.5, 0.01
    t = w.t[0] + np.array([0.13, 5.7, 11.1])
    one = {n: expected(c, t, w, [n]) for n in names}
    line = one["M2"] + one["S2"] - expected(c, t, w, ["M2", "S2"])
    harm = {n: one[n] - line for n in names}
    total = line + sum(harm.values())

    def run(sel, want):
        o = utide.reconstruct(t, c, epoch="python", verbose=False, constit=sel)
        ctx.trace()
        ctx.state(case["b"], sel if len(sel) < 9 else len(sel), sel[:1])
        scen.close(ctx, value(o, w), want, 1e-8, f"constit={sel if len(sel) < 9 else 'all but ' + str(set(names) - set(sel))}")

    for i, n in enumerate(names):
        run([n], line + harm[n])
        run([x for x in names if x != n], total - harm[n])
        near = names[max(0, i - 2) : i + 3]
        run(near, line + sum(harm[x] for x in near))
    for a, b in itertools.permutations(names, 2):
        if a in b or sorted(a) == sorted(b) or (len(a) == len(b) and sum(x != y for x, y in zip(a, b)) == 1 and a < b):
            run([a, b], line + harm[a] + harm[b])
    run(names, total)
    run([], line)
    ctx.outcome("names")


def check(case, ctx):
    import utide

    if "names" in case:
        return all_names(case, ctx)

    s = {k: v for k, v in case["s"].items() if k != "infer"}
    w = scen.World(s, names=NAMES[: case["n"]], noise=0.3)
    inf = None
    if case["s"].get("infer"):
        k = 2 if w.twodim else 1
        inf = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.33] * k, phase_offsets=[12.0] * k)
    c = w.solve(infer=inf)
    ctx.trace()
    names = [str(x) for x in c.name]
    if case["what"] == "equal":
        exact(c, w.twodim)
    t = np.concatenate([w.t[3::41], w.t[-1] + np.array([2.1, 30.3])])
    parts = {n: expected(c, t, w, [n]) - expected(c, t, w, ["-"][:0] or [names[0]]) for n in names}
    base = expected(c, t, w, [names[0]])
    one = {}
    for n in names:
        one[n] = expected(c, t, w, [n])
    # mean line = one[a] + one[b] - both
    if len(names) > 1:
        line = one[names[0]] + one[names[1]] - expected(c, t, w, names[:2])
    harm = {n: one[n] - line for n in names}
    del parts, base

    def want(sub):
        out = line.astype(complex if w.twodim else float)
        for n in sub:
            out = out + harm[n]
        return out

    def run(what, sub, **kw):
        o = utide.reconstruct(t, c, epoch="python", verbose=False, **kw)
        ctx.trace()
        ctx.state(case["s"], sorted(sub), sorted(kw))
        scen.close(ctx, value(o, w), want(sub), 1e-8, what)

    if case["what"] == "subsets":
        vals = {}
        for r in range(len(names) + 1):
            for sub in itertools.combinations(names, r):
                run(f"constit={sub}", sub, constit=list(sub))
                # thresholds do not matter; other names are ignored; order does not matter
                run(f"constit={sub} with thresholds", sub, constit=np.array(sub[::-1], dtype=object), min_SNR=1e9, min_PE=99)
                run(f"constit={sub} with others", sub, constit=("N2",) + sub + ("Z0", "2MK5"))
                # nor are names that are nearly right
                near = [f(n) for n in names if n not in sub for f in (str.lower, lambda x: x + " ", lambda x: " " + x, lambda x: x[0], lambda x: x + x, lambda x: x.ljust(4))]
                run(f"constit={sub} with similar names", sub, constit=near + list(sub) + [""])
                o = utide.reconstruct(t, c, epoch="python", verbose=False, constit=list(sub))
                ctx.trace()
                vals[sub] = value(o, w)
                ctx.outcome("subset")
        full = vals[tuple(names)]
        for sub, x in vals.items():
            other = tuple(n for n in names if n not in sub)
            scen.close(ctx, x + vals[other] - vals[()], full, 1e-8, f"complement of {sub}")
        return
    if case["what"] == "equal":
        k = len(names)
        snr = dict(zip(names, SNR[:k]))
        pe = dict(zip(names, PE[k]))
        for ms, mp in itertools.product([0.0, *sorted(set(SNR))], [0.0, *sorted(set(PE[k]))]):
            sub = [n for n in names if snr[n] >= ms and pe[n] >= mp]
            run(f"thresholds equal to SNR {ms!r} and PE {mp!r}", sub, min_SNR=ms, min_PE=mp)
            ctx.outcome("equal")
        # a constituent without interval (no spectrum in its band) does not reach any SNR
        keys = ["Lsmaj_ci", "Lsmin_ci"] if w.twodim else ["A_ci"]
        for j, bad in enumerate(names):
            for key in keys if j % 2 else keys[:1]:
                c[key][j] = np.nan
            for ms, mp in itertools.product([1e-9, *sorted(set(SNR))], [0.0, *sorted(set(PE[k]))]):
                sub = [n for n in names if n != bad and snr[n] >= ms and pe[n] >= mp]
                run(f"{bad} without interval, SNR {ms!r}, PE {mp!r}", sub, min_SNR=ms, min_PE=mp)
                ctx.outcome("no interval")
            exact(c, w.twodim)
        return
    has = case["s"]["conf_int"] != "none"
    if has:
        snr = dict(zip(names, c.SNR))
        pe = dict(zip(names, c.PE))
    else:
        E = c.Lsmaj**2 + c.Lsmin**2 if w.twodim else c.A**2
        snr = {n: np.inf for n in names}
        pe = dict(zip(names, 100 * E / E.sum()))
    sv = [0.0] + [x * f for x in snr.values() for f in (1 - 1e-9, 1 + 1e-9) if np.isfinite(x)] + [1e12]
    pv = [0.0] + [x * f for x in pe.values() for f in (1 - 1e-9, 1 + 1e-9)] + [100.1]
    grid = list(itertools.product(sv, pv))
    for ms, mp in grid[case["part"] :: 6]:
        if not has:
            sub = names
        elif ms == 0 and mp == 0:
            sub = names
        else:
            sub = [n for n in names if snr[n] >= ms and pe[n] >= mp]
        run(f"min_SNR={ms!r}, min_PE={mp!r}", sub, min_SNR=ms, min_PE=mp)
        ctx.outcome("thresholds")
    if case["part"] == 0:
        sub = [n for n in names if snr[n] >= 2] if has else names
        run("default thresholds", sub)
        run("only min_PE", [n for n in sub if pe[n] >= 3.0] if has else names, min_PE=3.0)
        run("only min_SNR", [n for n in names if snr[n] >= 5] if has else names, min_SNR=5)
