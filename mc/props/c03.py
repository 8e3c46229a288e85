"""C03: the OLS solution is the least-squares optimum and linear in the data.

Space: (a) for every model configuration, every unit impulse of a record (they span all
data vectors) in u and, for velocity, in v; (b) every scenario with at most k deviations,
with noise, and a ladder of record lengths; (c) all weighted sums over small coefficient sets of three records.
Oracle: column of the pseudo-inverse of the real design matrix of the reference model;
orthogonality of the residual to every model column.
"""

import functools
import itertools

import numpy as np
import ref
import scen

ID = "C03"
LEVEL = "model_checking"
BOUND = {
    "quick": "every unit impulse of a 73-sample record x 3 phases x 3 nodal x 2 trends x {u, 2-D u, 2-D v}; scenarios with <=2 deviations with noise; record lengths 40-160 and around powers of 2 and 10 up to 65537; models of 10-120 constituents, up to 40000 samples; 27 weighted sums x 8 configurations",
    "thorough": "every unit impulse of 73- and 150-sample even and irregular records x 3 phases x 3 nodal x 2 trends x 3 latitudes; scenarios with <=3 deviations; record lengths 40-160 and around powers of 2 and 10 up to 262145; models of 6-120 constituents x 9 lengths; 27 weighted sums x 36 configurations",
}
ASSUMPTIONS = ["data vectors beyond the spanning set follow by linearity, which is itself checked on weighted sums"]
CONSTIT = ["M2", "K1", "M4"]


def confs(tier):
    samps = [("even", 73, 1.0)] if tier == "quick" else [("even", 73, 1.0), ("even", 150, 0.5), "irr"]
    lats = [45.0] if tier == "quick" else [45.0, 0.0, -33.3]
    for samp in samps:
        for lat in lats:
            for ph in scen.DIMS["phase"]:
                for nd in scen.DIMS["nodal"]:
                    for tr in (True, False):
                        yield dict(samp=samp, lat=lat, phase=ph, nodal=nd, trend=tr)


def cases(tier):
    # large models: numbers of constituents x lengths
    lengths = [8790, 40000] if tier == "quick" else [8790, 10001, 12000, 16385, 20001, 32769, 45000, 65537, 90000]
    for k in (60, 20, 120, 10, 30, 40, 50) if tier == "quick" else [*range(6, 76, 3), 99, 120]:
        for n in lengths if k in (20, 60) or tier != "quick" else lengths[:1]:
            for kind in ("1d", "2d"):
                if tier == "quick" and n > 20000 and kind == "2d":
                    continue
                yield dict(b=dict(kind=kind, samp=["even", n, 1.0], phase=("Greenwich", "raw")[k % 2]), many=k)
    d = scen.dims(method=None, conf_int=None, white=None, order=None)
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind",)):
        yield dict(b=s)
    for n in sorted(set(range(40, 161)) | set(scen.sizes(tier, 40))):
        big = n > 3000 and tier == "quick"
        for kind in ("1d", "2d"):
            for o in ({},) if big else ({}, dict(phase="raw", nodal=False, trend=False), dict(nodal="linear_time")):
                yield dict(b=dict(o, kind=kind, samp=["even", n, 1.0]))
    for cf in confs(tier):
        n = 360 if cf["samp"] == "irr" else cf["samp"][1]
        step = 8
        for comp in ("h", "u", "v"):
            for i in range(0, n, step):
                yield dict(a=cf, comp=comp, lo=i, hi=min(n, i + step))
    for s in scen.deviations(scen.dims(kind=None, samp=["h361", "irr"], start=None, lat=None, cons=None, method=None, conf_int=None, white=None, order=None, signal=None), 1 if tier == "quick" else 3):
        for kind in ("1d", "2d"):
            yield dict(c=dict(s, kind=kind))


@functools.lru_cache(maxsize=4)
def world(key):
    cf = dict(key)
    w = scen.World(dict(cf), names=CONSTIT)
    return w


def flat(fit, names):
    z = fit.z
    return [z[n] for n in names]


def check(case, ctx):
    if "b" in case:
        w = scen.World(case["b"], noise=0.4, names=scen.many(case["many"]) if "many" in case else CONSTIT if case["b"].get("samp", "")[0] == "even" else None)
        c = w.solve(conf_int="none")
        ctx.trace()
        ctx.state(case)
        scen.observe_coef(ctx, c)
        even = isinstance(w.s["samp"], (list, tuple))
        # hourly records of a few well separated constituents are well conditioned
        compare(ctx, w, c, w.rfit(), w.u, w.v, "large model" if "many" in case else f"{w.n} samples" if even else "noisy record", 2e-12 if "many" in case else 1e-10 if even else 1e-7)
        ctx.outcome("large model" if "many" in case else "scenario")
        return
    if "c" in case:
        return sums(case, ctx)
    cf = dict(case["a"])
    comp = case["comp"]
    cf["kind"] = "1d" if comp == "h" else "2d"
    if isinstance(cf["samp"], list):
        cf["samp"] = tuple(cf["samp"])
    w = world(tuple(sorted(cf.items())))
    for i in range(case["lo"], case["hi"]):
        u = np.zeros(w.n)
        v = np.zeros(w.n)
        (v if comp == "v" else u)[i] = 1.0
        w.u, w.v = u, (v if w.twodim else None)
        c = w.solve(conf_int="none")
        ctx.trace()
        ctx.state(cf, comp, i)
        compare(ctx, w, c, w.rfit(), u, v, f"impulse in {comp} at sample {i}")
    ctx.outcome("impulse", case["hi"] - case["lo"])


def compare(ctx, w, c, f, u, v, what, rtol=1e-7):
    """Against the reference solution, and by orthogonality of the residual."""
    scale = max(np.abs(u).max(), np.abs(v).max() if v is not None else 0.0)
    tol = rtol * scale
    scen.compare_phasors(ctx, scen.phasors(c), f.z, tol, what + " amplitudes")
    scen.close(ctx, scen.mean_of(c), f.mean, tol, what + " mean")
    if w.trend:
        scen.close(ctx, scen.slope_of(c), f.slope, tol, what + " slope")
    # the reported solution leaves a residual orthogonal to each component
    z = scen.phasors(c)
    x = (u + 1j * v) if w.twodim else u + 0j
    fit = np.zeros(w.n, dtype=complex)
    m, s = scen.mean_of(c), scen.slope_of(c)
    if w.twodim:
        m, s = m[0] + 1j * m[1], s[0] + 1j * s[1]
    fit += m + (s * (w.t - c.aux.reftime) if w.trend else 0)
    for n in w.model:
        E = ref.basis(w.t, n, w.tref, w.lat, w.phase, w.nodal)
        if w.twodim:
            fit += z[n][0] * E + z[n][1] * np.conj(E)
        else:
            fit += (z[n] * E).real
    r = x - fit
    cols = {"mean": np.ones(w.n)}
    if w.trend:
        cols["trend"] = (w.t - w.tref) / w.lor
    for n in w.model:
        E = ref.basis(w.t, n, w.tref, w.lat, w.phase, w.nodal)
        cols["cosine of " + n] = E.real
        cols["sine of " + n] = E.imag
    rn = np.linalg.norm(x)
    for k, col in cols.items():
        d = abs(np.dot(col, r)) / (np.linalg.norm(col) * rn)
        if not d <= rtol:
            ctx.fail(f"{what}: the residual is not orthogonal to the {k}: {d:.3g}")
        ctx.margin(f"orthogonality {what}", d / rtol)
    ctx.step(len(cols))


def sums(case, ctx):
    w = scen.World(case["c"])
    n = w.n
    recs = [
        (scen.lcg(n, 11), scen.lcg(n, 12)),
        (np.cos(np.arange(n) / 7.0) * 3, np.sin(np.arange(n) / 5.0) ** 3),
        (np.arange(n) ** 2 / n**2 * 5.0, (np.arange(n) % 17) / 17.0),
    ]

    def sol(u, v):
        w.u, w.v = u, (v if w.twodim else None)
        c = w.solve(conf_int="none")
        ctx.trace()
        z = scen.phasors(c)
        out = []
        for name in w.model:
            out += list(z[name]) if w.twodim else [z[name]]
        out += list(np.ravel(scen.mean_of(c))) + list(np.ravel(scen.slope_of(c)))
        return np.array(out)

    one = [sol(*r) for r in recs]
    for co in itertools.product((0.0, 1.0, -2.5), repeat=3):
        u = sum(a * r[0] for a, r in zip(co, recs))
        v = sum(a * r[1] for a, r in zip(co, recs))
        if not any(co):
            u = u + 0.0
        want = sum(a * o for a, o in zip(co, one))
        scen.close(ctx, sol(u, v), want, 1e-8, f"weighted sum {co}")
        ctx.state(case, co)
    ctx.outcome("sums", 27)
