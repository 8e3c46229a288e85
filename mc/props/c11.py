"""C11: approximate inference keeps the ratios and corrects the reference.

Space: every ordered list of up to 3 inferred constituents x every assignment of
references x samplings x model options.
Oracle: exact ratio and offset; the exact-inference reference solution within a stated
tolerance; closer to the truth than the analysis that ignores the inferred ones.
"""

import itertools

import numpy as np
import ref
import scen

ID = "C11"
LEVEL = "model_checking"
BOUND = {
    "quick": "all ordered lists of 1-3 of 4 inferred names x their natural reference and all swaps within the species x {elevation, velocity} x 7 samplings (one week to five months); single inferences x 9 model options x 4 dates; ratios of each of 144 names, inferred and as the reference",
    "thorough": "as quick, each x 9 model options x 7 samplings x 4 dates; ratios of each of 144 names, inferred and as the reference",
}
ASSUMPTIONS = ["closeness to exact inference is a tolerance (6% of the reference amplitude), since the method is an approximation; inferred and reference belong to one species"]
# inferred name -> references of the same species
CAND = {"P1": ["K1"], "K2": ["S2"], "T2": ["S2"], "PI1": ["K1"]}
FREE = ["M2", "K1", "S2", "O1"]
RAT = {"P1": (0.331, -7.0), "K2": (0.272, 20.0), "T2": (0.059, 60.0), "PI1": (0.12, -30.0)}
RAT2 = {"P1": (0.25, 14.0), "K2": (0.31, -25.0), "T2": (0.03, 10.0), "PI1": (0.05, 99.0)}
SAMPS = [("even", 361, 1.0), ("even", 360, 1.0), ("even", 169, 1.0), ("even", 1000, 0.5), ("even", 540, 2.0), ("even", 721, 3.0), ("even", 1201, 3.0)]
OPTS = [dict(phase=p, nodal=n) for p in ("Greenwich", "linear_time", "raw") for n in (True, False, "linear_time")]
STARTS = [733000.0, 733046.3, 733091.7, 580000.125]


def groupings():
    for k in (1, 2, 3):
        for names in itertools.permutations(CAND, k):
            for refs in itertools.product(*[CAND[n] for n in names]):
                yield list(names), list(refs)


def any_name(case, ctx):
    """The ratios of every tabulated constituent, as the inferred one or the reference."""
    two = case["kind"] == "2d"
    n, r = case["inf"], case["ref"]
    k = 2 if two else 1
    free = [x for x in [r] + [m for m in FREE if m != r and r in FREE] if x != n]
    w = scen.World(dict(kind=case["kind"], samp=["even", 721, 1.0], trend=bool(case["trend"])), names=free, noise=0.3)
    inf = dict(inferred_names=[n], reference_names=[r], amp_ratios=[(-0.331 if ref.INDEX[n] % 2 else 0.331), 0.25][:k], phase_offsets=[-7.0, 474.0][:k], approximate=True)
    c = w.solve(infer=inf)
    ctx.trace()
    ctx.state(case)
    got = scen.phasors(c)
    if sorted(got) != sorted(free + [n]):
        ctx.fail(f"names {sorted(got)} for {free} and inferred {n}")
    Rp, Rm = ref.ratios(inf, 0, two)
    big = np.abs(np.ravel(got[r])).max()
    if two:
        scen.close(ctx, got[n][0], Rp * got[r][0], 1e-9 * big, f"ccw ratio of {n} to {r}")
        scen.close(ctx, got[n][1], Rm * got[r][1], 1e-9 * big, f"cw ratio of {n} to {r}")
    else:
        scen.close(ctx, got[n], Rp * got[r], 1e-9 * big, f"ratio of {n} to {r}")
    ctx.outcome("names")


def cases(tier):
    names = [n for n in ref.NAMES if n not in ref.FRACTIONAL and n != "Z0"]
    for k, n in enumerate(names):
        for kind in ("1d", "2d"):
            if n != "M2":
                yield dict(names=1, kind=kind, inf=n, ref="M2", trend=k % 2)
                yield dict(names=1, kind=kind, inf="M2", ref=n, trend=k % 2)
    for names, refs in groupings():
        for kind in ("1d", "2d"):
            for s in range(len(SAMPS)):
                if tier == "quick":
                    for st in range(2):
                        yield dict(kind=kind, inf=names, ref=refs, s=s, o=OPTS[0], st=st, trend=bool(s % 2))
                    if len(names) == 1:
                        for o in OPTS:
                            for st in range(4):
                                yield dict(kind=kind, inf=names, ref=refs, s=s, o=o, st=st, trend=True)
                else:
                    for o in OPTS:
                        for st in range(4):
                            for tr in (True, False):
                                yield dict(kind=kind, inf=names, ref=refs, s=s, o=o, st=st, trend=tr)


def check(case, ctx):
    if "names" in case:
        return any_name(case, ctx)
    two = case["kind"] == "2d"
    w = scen.World(dict(kind=case["kind"], samp=SAMPS[case["s"]], start=STARTS[case["st"]], trend=case["trend"], **case["o"]), names=FREE)
    inf = dict(
        inferred_names=case["inf"],
        reference_names=case["ref"],
        amp_ratios=[RAT[n][0] for n in case["inf"]] + ([RAT2[n][0] for n in case["inf"]] if two else []),
        phase_offsets=[RAT[n][1] for n in case["inf"]] + ([RAT2[n][1] for n in case["inf"]] if two else []),
    )
    z = scen.truth_phasors(w.truth)
    for i, n in enumerate(inf["inferred_names"]):
        Rp, Rm = ref.ratios(inf, i, two)
        zr = z[inf["reference_names"][i]]
        z[n] = (Rp * zr[0], Rm * zr[1]) if two else Rp * zr
        E = ref.basis(w.t, n, w.tref, w.lat, w.phase, w.nodal)
        if two:
            x = z[n][0] * E + z[n][1] * np.conj(E)
            w.u, w.v = w.u + x.real, w.v + x.imag
        else:
            w.u = w.u + (z[n] * E).real
    c = w.solve(infer=dict(inf, approximate=True))
    exact = w.solve(infer=inf)
    plain = w.solve()
    ctx.trace(3)
    ctx.state(case)
    scen.observe_coef(ctx, c)
    got, ex, pl = scen.phasors(c), scen.phasors(exact), scen.phasors(plain)
    what = f"approximate inference of {case['inf']} from {case['ref']}"
    if sorted(got) != sorted(FREE + case["inf"]):
        ctx.fail(f"{what}: names {sorted(got)}")
    for i, n in enumerate(case["inf"]):
        r = case["ref"][i]
        Rp, Rm = ref.ratios(inf, i, two)
        if two:
            scen.close(ctx, got[n][0], Rp * got[r][0], 1e-9, what + ": ccw ratio")
            scen.close(ctx, got[n][1], Rm * got[r][1], 1e-9, what + ": cw ratio")
        else:
            scen.close(ctx, got[n], Rp * got[r], 1e-9, what + ": ratio")

    # the leakage into the reference: the mean rotation of the inferred ones over the record
    fr = ref.freqs(w.tref)
    n, tol = w.n, 1e-9 + 4.0 / w.n**2
    dt = w.t - w.tref
    for r in sorted(set(case["ref"])):
        leak = np.zeros(2, complex)
        size = 0.0
        for i, name in enumerate(inf["inferred_names"]):
            if inf["reference_names"][i] != r:
                continue
            D = np.cos(2 * np.pi * (fr[ref.INDEX[name]] - fr[ref.INDEX[r]]) * 24 * dt).mean()
            Q = (ref.basis([w.tref], name, w.tref, w.lat, w.phase, w.nodal) / ref.basis([w.tref], r, w.tref, w.lat, w.phase, w.nodal))[0]
            Rp, Rm = ref.ratios(inf, i, two)
            leak += D * Q * Rp, D * np.conj(Q) * Rm
            size += abs(Q) * max(abs(Rp), abs(Rm))
        for k in range(2 if two else 1):
            p, a = (pl[r][k], got[r][k]) if two else (pl[r], got[r])
            d = abs(p / a - 1 - leak[k])
            ctx.margin("leakage", d / (tol * size))
            if not d <= tol * size:
                ctx.fail(f"{what}: {r} is divided by 1 + {p / a - 1}, the leakage is {leak[k]}")
            ctx.step()

    def err(a, names):
        return max(scen.pdist(a[n], z[n]) for n in names)

    refs = set(case["ref"])
    for r in sorted(refs):
        big = max(map(abs, z[r])) if two else abs(z[r])
        # the other constituents and the finite record limit the accuracy
        tol = 0.06 * big
        d = scen.pdist(got[r], ex[r])
        ctx.margin("to exact", d / tol)
        if not d <= tol:
            ctx.fail(f"{what}: {r} is {got[r]}, exact inference gives {ex[r]}")
        e0, e1 = scen.pdist(pl[r], z[r]), scen.pdist(got[r], z[r])
        ctx.margin("ratio of errors", e1 / e0)
        if not e1 <= e0:
            ctx.fail(f"{what}: error of {r} {e1:.4g}, ignoring the inferred ones {e0:.4g}")
        ctx.step(2)
    ctx.outcome("approximate")
