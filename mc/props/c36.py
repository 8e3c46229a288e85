"""C36: omitted options mean their documented defaults, however the call is spelled.

Space: every subset of the options given explicitly with the default value (all 2^14 for
solve, all 2^5 for reconstruct), on its own and around every single option that has
another value; every spelling of the positional arguments; the options in other orders.
Oracle: the call without them; and, for each option, the documented meaning of the
default on the records where another value would matter.
"""

import contextlib
import copy
import io
import itertools

import numpy as np
import scen

ID = "C36"
LEVEL = "model_checking"
CHUNK = 2
LIMIT = 600
BOUND = {
    "quick": "all 16384 subsets of the 14 options of solve given with their defaults, elevation; all subsets of up to 3, velocity and around each of 13 options with another value; all 32 subsets of reconstruct x positional prefixes x 4 coefficient sets; each constituent with SNR from 1.4 to 2.8 in 6 steps; 60 lengths; 24 spellings; all rotations of the order of the options",
    "thorough": "all 16384 subsets of the 14 options of solve given with their defaults, elevation and velocity; all subsets of up to 5 around each of 13 options with another value; all 32 subsets of reconstruct x positional prefixes x 4 coefficient sets; each constituent with SNR from 1.4 to 2.8 in 6 steps; 60 lengths; 24 spellings; all rotations of the order of the options",
}
DEFAULTS = dict(
    epoch=None,
    constit="auto",
    conf_int="linear",
    method="ols",
    trend=True,
    phase="Greenwich",
    nodal=True,
    infer=None,
    order_constit=None,
    MC_n=200,
    robust_kw={"weight_function": "cauchy"},
    Rayleigh_min=1,
    white=False,
    verbose=True,
)
NAMES = list(DEFAULTS)
INFER = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.33], phase_offsets=[10.0])
OTHER = [
    dict(),
    dict(constit=["M2", "K1", "S2", "O1"]),
    dict(conf_int="none"),
    dict(conf_int="MC"),
    dict(method="robust"),
    dict(trend=False),
    dict(phase="raw"),
    dict(nodal=False),
    dict(infer=INFER, constit=["M2", "K1"]),
    dict(order_constit="frequency"),
    dict(order_constit="SNR"),
    dict(method="robust", robust_kw={"weight_function": "huber"}),
    dict(Rayleigh_min=0.8),
    dict(white=True),
]
R_DEFAULTS = dict(epoch=None, verbose=True, constit=None, min_SNR=2, min_PE=0)
# the documented meaning of the order PE
SAME = dict(order_constit="PE")


def cases(tier):
    deep = tier != "quick"
    for kind in ("1d", "2d"):
        for r in range(8):
            yield dict(recon=r, kind=kind)
        yield dict(spell=1, kind=kind)
        yield dict(meaning=1, kind=kind)
        for o in range(len(OTHER)):
            for first in range(len(NAMES)):
                yield dict(around=o, first=first, upto=5 if deep else 3, kind=kind)
    for kind in ("1d", "2d") if deep else ("1d",):
        for head in itertools.product((0, 1), repeat=7):
            yield dict(head=list(head), kind=kind)


def record(kind, n=300):
    t = np.datetime64("2007-03-04T05:00") + np.arange(n) * np.timedelta64(60, "m")
    day = 732739.0 + np.arange(n) / 24.0
    u = np.cos(12.14 * day) + 0.5 * np.sin(6.3 * day) + 0.1 * scen.lcg(n, 3) + 0.02 * (day - day[0])
    v = None if kind == "1d" else 0.4 * np.sin(12.14 * day) + 0.3 * np.sin(5.84 * day) + 0.1 * scen.lcg(n, 4)
    return t, u, v


def numbers(c):
    out = {"name": [str(x) for x in c["name"]]}
    for k, x in c.items():
        if k in ("name", "aux", "diagn"):
            continue
        if isinstance(x, (np.ndarray, float, int, np.floating, np.integer)) and not isinstance(x, bool):
            out[k] = np.array(x, float)
    out["frq"] = np.array(c["aux"]["frq"])
    out["reftime"] = np.array(c["aux"]["reftime"])
    return out


def same(ctx, a, b, what):
    if set(a) != set(b):
        ctx.fail(f"{what}: fields {sorted(set(a) ^ set(b))}")
    if a["name"] != b["name"]:
        ctx.fail(f"{what}: constituents {b['name']} instead of {a['name']}")
    for k in a:
        if k == "name":
            continue
        if a[k].shape != b[k].shape or not np.allclose(a[k], b[k], rtol=1e-12, atol=0, equal_nan=True):
            ctx.fail(f"{what}: {k} is {b[k].ravel()[:4]} instead of {a[k].ravel()[:4]}")
    ctx.step()


def run(rec, args, kw):
    import utide

    np.random.seed(0)
    with contextlib.redirect_stdout(io.StringIO()):
        return utide.solve(*args, **kw)


def given(names):
    return {n: dict(DEFAULTS[n]) if isinstance(DEFAULTS[n], dict) else DEFAULTS[n] for n in names}


def check(case, ctx):
    t, u, v = rec = record(case["kind"])
    if "recon" in case:
        return recon(case, ctx, rec)
    if "spell" in case:
        return spell(case, ctx, rec)
    if "meaning" in case:
        return meaning(case, ctx, rec)
    other = OTHER[case.get("around", 0)]
    if "infer" in other and case["kind"] == "2d":
        k = dict(other["infer"])
        k.update(amp_ratios=k["amp_ratios"] * 2, phase_offsets=k["phase_offsets"] * 2)
        other = dict(other, infer=k)
    want = numbers(run(rec, (t, u, v, 45.0), other))
    ctx.trace()
    if "head" in case:
        subs = ([n for n, b in zip(NAMES, tuple(case["head"]) + tail) if b] for tail in itertools.product((0, 1), repeat=7))
    else:
        rest = NAMES[case["first"] :]
        subs = ([rest[0], *s] for r in range(case["upto"]) for s in itertools.combinations(rest[1:], r))
    for sub in subs:
        sub = [n for n in sub if n not in other]
        got = run(rec, (t, u, v, 45.0), dict(given(sub), **other))
        ctx.trace()
        ctx.state(case["kind"], sorted(sub), case.get("around", 0))
        same(ctx, want, numbers(got), f"{other} with {sub} given explicitly")
    ctx.outcome("subsets")


def recon(case, ctx, rec):
    import utide

    t, u, v = rec
    r = case["recon"]
    opts = [dict(), dict(conf_int="none"), dict(trend=False, phase="raw"), dict(constit=["M2", "K1", "S2", "O1"], white=True)][r % 4]
    c = run(rec, (t, u, v, 45.0), opts)
    tt = t[::17] if r < 4 else t[::-1][::29]

    def value(*a, **k):
        with contextlib.redirect_stdout(io.StringIO()) as s:
            o = utide.reconstruct(*a, **k)
        ctx.trace()
        return (np.stack([o.u, o.v]) if "u" in o else o.h), s.getvalue()

    want, text = value(tt, c)
    if not text:
        ctx.fail("verbose is not the default of reconstruct")
    names = list(R_DEFAULTS)
    for p in range(6):
        for k in range(6 - p):
            for sub in itertools.combinations(names[p:], k):
                pos = [R_DEFAULTS[n] for n in names[:p]]
                got, _ = value(tt, c, *pos, **{n: R_DEFAULTS[n] for n in sub})
                ctx.state(case, p, sub)
                scen.close(ctx, got, want, 1e-12, f"reconstruct with {names[:p]} by position and {sub}")
    for kw in (dict(t=tt, coef=c), dict(coef=c, t=tt, min_PE=0)):
        scen.close(ctx, value(**kw)[0], want, 1e-12, f"reconstruct by the names {list(kw)}")
    scen.close(ctx, value(tt, coef=c)[0], want, 1e-12, "reconstruct(t, coef=coef)")
    # the documented meaning of the defaults
    if "SNR" in c:
        keep = [str(n) for n, s in zip(c.name, c.SNR) if s >= 2]
        scen.close(ctx, value(tt, c, constit=keep)[0], want, 1e-9, "default selection is SNR >= 2")
    else:
        scen.close(ctx, value(tt, c, constit=list(c.name))[0], want, 1e-9, "default selection without intervals is all")
    # thresholds from just below to just above the default
    for i, x in itertools.product(range(len(c.name) if "SNR" in c else 0), (0.7, 0.98, 1 - 1e-6, 1 + 1e-6, 1.02, 1.4)):
        d = copy.deepcopy(c)
        ci = [k for k in ("A_ci", "Lsmaj_ci", "Lsmin_ci") if k in c]
        factor = np.sqrt(c.SNR[i] / (2 * x))
        for k in ci:
            d[k][i] *= factor
        d.SNR = c.SNR.copy()
        d.SNR[i] = 2 * x
        keep = [str(n) for n, s in zip(d.name, d.SNR) if s >= 2]
        ctx.state(case, i, x)
        scen.close(ctx, value(tt, d)[0], value(tt, d, constit=keep)[0], 1e-12, f"default selection where {d.name[i]} has SNR {2 * x}")
    # values by position that are not the defaults
    for pos, kw in (((None, False), dict(verbose=False)), ((None, False, ["M2", "K1"]), dict(constit=["M2", "K1"])), ((None, False, None, 5.0), dict(min_SNR=5.0)), ((None, False, None, 2, 3.0), dict(min_PE=3.0)), ((None, False, None, 9.0, 1.0), dict(min_SNR=9.0, min_PE=1.0))):
        scen.close(ctx, value(tt, c, *pos)[0], value(tt, c, **kw)[0], 1e-12, f"{pos} by position")
    ctx.outcome("reconstruct")


def spell(case, ctx, rec):
    t, u, v = rec
    day = 732739.0 + np.arange(len(t)) / 24.0 - 31.0 * 0
    for o in (dict(), dict(constit=["M2", "K1", "S2", "O1"], conf_int="none", phase="raw", trend=False, nodal=False, method="robust", order_constit="frequency")):
        want = numbers(run(rec, (t, u, v, 45.0), o))
        forms = [
            ((t, u, v), dict(lat=45.0)),
            ((t, u), dict(v=v, lat=45.0)),
            ((t,), dict(lat=45.0, v=v, u=u)),
            ((), dict(t=t, u=u, v=v, lat=45.0)),
            ((t, u, v, 45), {}),
            ((t, u, v, np.float64(45.0)), {}),
            ((t, u, v, np.array(45.0)), {}),
            ((t, u, v), dict(lat=np.int64(45))),
        ]
        if v is None:
            forms += [((t, u), dict(lat=45.0)), ((t, u, None), dict(lat=45.0)), ((), dict(u=u, lat=45.0, t=t))]
        for a, k in forms:
            same(ctx, want, numbers(run(rec, a, dict(k, **o))), f"{len(a)} arguments by position, {sorted(k)} by name")
            ctx.trace()
            ctx.state(case, len(a), sorted(k), len(o), str(type(k.get("lat", a[-1] if a else 0))))
        # the order of the options
        full = dict(given(NAMES), **o)
        keys = list(full)
        for i in range(len(keys)):
            for turn in (keys[i:] + keys[:i], (keys[i:] + keys[:i])[::-1]):
                same(ctx, want, numbers(run(rec, (t, u, v, 45.0), {k: full[k] for k in turn})), f"options in the order {turn}")
                ctx.trace()
                ctx.state(case, turn)
    ctx.outcome("spellings")


def meaning(case, ctx, rec):
    """Where another value would show, the default is the documented one."""
    import utide

    t, u, v = rec
    base = run(rec, (t, u, v, 45.0), {})
    want = numbers(base)
    same(ctx, want, numbers(run(rec, (t, u, v, 45.0), SAME)), "the default order is PE")
    for k, x in (
        ("constit", ["M2"]),
        ("conf_int", "none"),
        ("conf_int", "MC"),
        ("method", "robust"),
        ("trend", False),
        ("phase", "raw"),
        ("phase", "linear_time"),
        ("nodal", False),
        ("nodal", "linear_time"),
        ("order_constit", "frequency"),
        ("Rayleigh_min", 0.8),
        ("white", True),
    ):
        got = numbers(run(rec, (t, u, v, 45.0), {k: x}))
        ctx.trace()
        ctx.state(case, k, str(x))
        if set(got) == set(want) and got["name"] == want["name"] and all(np.array_equal(got[n], want[n], equal_nan=True) for n in want if n != "name"):
            ctx.fail(f"{k}={x!r} has no effect")
        ctx.step()
    with contextlib.redirect_stdout(io.StringIO()) as s:
        utide.solve(t, u, v, lat=45.0)
    if not s.getvalue():
        ctx.fail("verbose is not the default of solve")
    # lengths of the record where any other criterion would select something else
    differ = 0
    for n in range(60, 300, 4):
        a, b, other = (numbers(run(rec, (t[:n], u[:n], None if v is None else v[:n], 45.0), dict(k, conf_int="none"))) for k in ({}, dict(Rayleigh_min=1), dict(Rayleigh_min=0.99)))
        same(ctx, b, a, f"the default criterion for {n} samples")
        differ += b["name"] != other["name"]
        ctx.trace()
        ctx.state(case, n)
    ctx.margin("lengths where 0.99 would select something else", differ)
    if v is None:
        r = dict(method="robust")
        a = numbers(run(rec, (t, u, v, 45.0), r))
        same(ctx, a, numbers(run(rec, (t, u, v, 45.0), dict(r, robust_kw={"weight_function": "cauchy"}))), "the default weight function is cauchy")
        i = dict(INFER, approximate=False)
        a = numbers(run(rec, (t, u, v, 45.0), dict(infer=INFER, constit=["M2", "K1"])))
        same(ctx, a, numbers(run(rec, (t, u, v, 45.0), dict(infer=i, constit=["M2", "K1"]))), "the default inference is exact")
    ctx.outcome("meaning")
