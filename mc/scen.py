"""The scenario space shared by the property checks.

A scenario is a choice for every dimension below; the first value of a dimension is its
default.  `deviations` enumerates, exhaustively, every scenario that differs from the
base in at most k dimensions (deviation-bounded exploration).
"""

import itertools
import math

import numpy as np
import ref

DIMS = {
    "kind": ["1d", "2d"],
    "samp": ["h361", "h360", "irr", "2h", "20m", "gap", "long", "day4", "drift"],
    "start": [733000.0, 733000.37, 693590.2, 580000.125, 800000.6],
    "lat": [45.0, -33.3, 0.0, 2.0, -2.0, 5.0, -5.0, 90.0, -90.0],
    "cons": ["basic", "one", "shallow", "low", "sat", "pair"],
    "phase": ["Greenwich", "linear_time", "raw"],
    "nodal": [True, False, "linear_time"],
    "trend": [True, False],
    "method": ["ols", "robust"],
    "conf_int": ["none", "linear", "MC"],
    "white": [False, True],
    "order": [None, "frequency", "list"],
    "signal": ["plain", "branch", "cw", "line", "tiny", "huge", "weak"],
}

CONS = {
    "basic": ["M2", "S2", "K1", "O1"],
    "one": ["M2"],
    "shallow": ["M2", "K1", "M4", "MS4", "2MK5", "M6"],
    "low": ["MM", "M2", "O1"],
    "sat": ["Q1", "K1", "L2", "M3", "OO1"],
    "pair": ["N2", "S2", "NO1"],
    "high": ["M2", "K1", "2MK5", "M6", "M8", "4MK9"],
}


def dims(**over):
    """DIMS restricted: dims(kind=[...], method=None drops the dimension)."""
    d = dict(DIMS)
    for k, v in over.items():
        if v is None:
            d.pop(k)
        else:
            d[k] = v
    return d


def deviations(d, k, fixed=()):
    """All assignments with at most k deviations from the defaults, fewest first.
    Dimensions in `fixed` do not count as deviations: all their values are used."""
    names = [n for n in d if n not in fixed]
    base = {n: d[n][0] for n in d}
    free = list(itertools.product(*[d[n] for n in fixed]))
    for r in range(k + 1):
        for combo in itertools.combinations(names, r):
            alts = [d[n][1:] for n in combo]
            for vals in itertools.product(*alts):
                for fv in free:
                    s = dict(base)
                    s.update(zip(combo, vals))
                    s.update(zip(fixed, fv))
                    yield s


def full(s):
    """A scenario with the defaults for missing dimensions."""
    out = {n: v[0] for n, v in DIMS.items()}
    out.update(s)
    return out


def lcg(n, seed=1):
    """Deterministic pseudo-noise in (-1, 1), independent of any library."""
    x = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    out = np.empty(n)
    for i in range(n):
        x = (1664525 * x + 1013904223) & 0xFFFFFFFF
        out[i] = x / 2**31 - 1.0
    return out


def times(samp, start):
    if samp == "h361":
        t = np.arange(361) / 24.0
    elif samp == "h360":
        t = np.arange(360) / 24.0
    elif samp == "2h":
        t = np.arange(301) / 12.0
    elif samp == "20m":
        t = np.arange(500) / 72.0
    elif samp == "day4":
        t = np.arange(97) / 24.0
    elif samp == "long":
        t = np.arange(700) / 8.0 * 2.2
    elif samp == "gap":
        t = np.concatenate([np.arange(0, 150), np.arange(199, 361)]) / 24.0
    elif samp == "irr":
        t = np.arange(360) / 24.0 + 0.015 * lcg(360, 7)
    elif samp == "drift":
        t = (np.arange(360) + 0.3 * (np.arange(360) / 360.0) ** 2) / 24.0
    elif isinstance(samp, (list, tuple)):  # ("even", n, dt hours)
        t = np.arange(samp[1]) * samp[2] / 24.0
        if samp[0] == "jitter":
            t = t + 0.3 * samp[2] / 24.0 * lcg(samp[1], 7)
    else:
        raise KeyError(samp)
    return start + t


def sizes(tier, lo=0):
    """Numbers of samples around every power of two and every 1, 2, 5 x 10^k."""
    top = 66000 if tier == "quick" else 263000
    marks = {2**k for k in range(6, 19)} | {m * 10**k for k in (2, 3, 4, 5) for m in (1, 2, 5)} | {3000, 4000, 30000, 40000}
    return sorted({n + d for n in marks for d in (-1, 0, 1) if lo <= n <= top})


def many(k=None):
    """Constituents that a year resolves, strongest tables first: the first k of them."""
    f = ref.freqs(733000.0)
    out = []
    for n in sorted((n for n in ref.NAMES if n not in ref.FRACTIONAL), key=lambda n: (n in ref_parents(), ref.INDEX[n])):
        x = f[ref.INDEX[n]]
        if 1.2 / 8760 < x < 0.4 and all(abs(x - f[ref.INDEX[o]]) > 1.2 / 8760 for o in out):
            out.append(n)
    return out[:k]


def ref_parents():
    return {ref.NAMES[i] for i in ref.PARENTS}


def shuffled(n):
    """A fixed permutation of range(n) that moves nearly everything far."""
    step = int(0.6180339887 * n) | 1
    while math.gcd(step, n) != 1:
        step += 2
    return (np.arange(n) * step + n // 3) % n


def reftime(t):
    return 0.5 * (t[0] + t[-1])


def truth1(names, signal):
    scale = {"tiny": 1e-6, "huge": 1e5}.get(signal, 1.0)
    out = {}
    for i, n in enumerate(names):
        A = scale * (1.3 / (1 + 0.7 * i))
        g = (37.0 + 71.3 * i) % 360
        if signal == "branch":
            g = [0.0, 359.9999, 180.0, 90.0, 270.0, 0.001][i % 6]
        if signal == "weak" and i == len(names) - 1 and i > 0:
            A *= 1e-4
        out[n] = (A, g)
    return out


def truth2(names, signal):
    scale = {"tiny": 1e-6, "huge": 1e5}.get(signal, 1.0)
    out = {}
    for i, n in enumerate(names):
        a = scale * (1.3 / (1 + 0.7 * i))
        b = a * [0.5, -0.3, 0.2, -0.7, 0.35, -0.15][i % 6]
        th = (23.0 + 50.7 * i) % 180
        g = (37.0 + 71.3 * i) % 360
        if signal == "branch":
            th = [0.0, 179.9999, 90.0, 0.001, 89.9999, 45.0][i % 6]
            g = [0.0, 359.9999, 180.0, 90.0, 270.0, 0.001][i % 6]
        elif signal == "cw":
            b = -abs(b)
        elif signal == "line":
            b = 0.0
        if signal == "weak" and i == len(names) - 1 and i > 0:
            a *= 1e-4
            b *= 1e-4
        out[n] = (a, b, th, g)
    return out


class World:
    """The data of a scenario and the call that analyses it."""

    def __init__(self, s, noise=0.0, names=None, model_names=None, seed=3):
        s = full(s)
        self.s = s
        self.twodim = s["kind"] == "2d"
        self.t = times(s["samp"], s["start"])
        self.n = len(self.t)
        self.tref = reftime(self.t)
        self.lor = self.t[-1] - self.t[0]
        self.lat = s["lat"]
        self.phase, self.nodal, self.trend = s["phase"], s["nodal"], s["trend"]
        self.names = list(names or CONS[s["cons"]])
        scale = {"tiny": 1e-6, "huge": 1e5}.get(s["signal"], 1.0)
        self.scale = scale
        args = (self.tref, self.lat, self.phase, self.nodal)
        sl = 1.0 if self.trend else 0.0
        if self.twodim:
            self.truth = truth2(self.names, s["signal"])
            self.mean = (0.31 * scale, -0.17 * scale)
            self.slope = (0.011 * scale * sl, -0.007 * scale * sl)
            self.u, self.v = ref.velocity(self.t, self.truth, *args, self.mean, self.slope)
        else:
            self.truth = truth1(self.names, s["signal"])
            self.mean = 0.31 * scale
            self.slope = 0.011 * scale * sl
            self.u = ref.elevation(self.t, self.truth, *args, self.mean, self.slope)
            self.v = None
        if noise:
            self.u = self.u + noise * scale * lcg(self.n, seed)
            if self.twodim:
                self.v = self.v + noise * scale * lcg(self.n, seed + 1)
        names = list(model_names or self.names)
        self.model = names
        order = s["order"]
        if order == "list":
            order = names[::-1]
        self.opts = dict(
            constit=names,
            phase=self.phase,
            nodal=self.nodal,
            trend=self.trend,
            method=s["method"],
            conf_int=s["conf_int"],
            white=s["white"],
            order_constit=order,
            verbose=False,
            epoch="python",
        )

    def solve(self, **over):
        import utide

        opts = dict(self.opts)
        opts.update(over)
        if opts["conf_int"] == "MC":
            np.random.seed(0)
        return utide.solve(self.t, self.u, self.v, lat=self.lat, **opts)

    def rfit(self, u=None, v=None, infer=None, names=None, w=None, t=None):
        """Reference least-squares fit of the same data."""
        t = self.t if t is None else t
        u = self.u if u is None else u
        v = self.v if v is None else v
        names = self.model if names is None else names
        a = (names, reftime(t), self.lat, self.phase, self.nodal, self.trend, infer, w)
        if self.twodim:
            return ref.fit2(t, u, v, *a)
        return ref.fit1(t, u, *a)


# -------------------------------------------------------------- reading results


def phasors(coef):
    """{name: A e^{-ig}} or {name: (ap, am)}."""
    out = {}
    names = [str(n) for n in coef["name"]]
    if "Lsmaj" in coef:
        cols = (coef["Lsmaj"], coef["Lsmin"], coef["theta"], coef["g"])
        for n, a, b, th, g in zip(names, *cols):
            r = math.radians
            out[n] = (
                0.5 * (a + b) * np.exp(1j * r(th - g)),
                0.5 * (a - b) * np.exp(1j * r(th + g)),
            )
    else:
        for n, a, g in zip(names, coef["A"], coef["g"]):
            out[n] = a * np.exp(-1j * math.radians(g))
    return out


def truth_phasors(truth):
    out = {}
    for n, p in truth.items():
        if len(p) == 2:
            out[n] = p[0] * np.exp(-1j * math.radians(p[1]))
        else:
            a, b, th, g = p
            r = math.radians
            out[n] = (
                0.5 * (a + b) * np.exp(1j * r(th - g)),
                0.5 * (a - b) * np.exp(1j * r(th + g)),
            )
    return out


def pdist(z, w):
    if isinstance(z, tuple):
        return max(abs(z[0] - w[0]), abs(z[1] - w[1]))
    return abs(z - w)


def compare_phasors(ctx, got, want, tol, what, names=None):
    if names is None:
        if set(got) != set(want):
            ctx.fail(f"{what}: constituents {sorted(got)} instead of {sorted(want)}")
        names = list(want)
    for n in names:
        d = pdist(got[n], want[n])
        if not d <= tol:
            ctx.fail(f"{what}: {n} is {got[n]}, expected {want[n]} (difference {d:.3g} > {tol:.3g})")
        ctx.margin(what, d / tol)
        ctx.step()


def mean_of(coef):
    if "Lsmaj" in coef:
        return (coef["umean"], coef["vmean"])
    return coef["mean"]


def slope_of(coef):
    if "Lsmaj" in coef:
        return (coef.get("uslope", 0.0), coef.get("vslope", 0.0))
    return coef.get("slope", 0.0)


def close(ctx, got, want, tol, what):
    """|got - want| <= tol elementwise; NaN never passes unless in both."""
    g = np.asarray(got, dtype=complex if np.iscomplexobj(got) or np.iscomplexobj(want) else float)
    w = np.asarray(want, dtype=g.dtype)
    if g.shape != w.shape:
        ctx.fail(f"{what}: shape {g.shape} instead of {w.shape}")
    bad = ~((np.abs(g - w) <= tol) | (np.isnan(g) & np.isnan(w)))
    if bad.any():
        i = int(np.argmax(bad.ravel()))
        gi, wi = g.ravel()[i], w.ravel()[i]
        ctx.fail(f"{what}: {gi!r} instead of {wi!r} at [{i}] (tolerance {np.max(tol):.3g})")
    if g.size:
        with np.errstate(invalid="ignore", divide="ignore"):
            d = np.nan_to_num(np.abs(g - w) / tol)
        ctx.margin(what, float(np.max(d)))
    ctx.step()


def angle_close(ctx, got, want, tol, what, period=360.0):
    d = np.abs((np.asarray(got, float) - np.asarray(want, float) + period / 2) % period - period / 2)
    if not np.all(d <= tol):
        i = int(np.argmax(~(d <= tol)))
        ctx.fail(
            f"{what}: {np.ravel(got)[i]!r} instead of {np.ravel(want)[i]!r} at [{i}] (tolerance {np.max(tol):.3g})",
        )
    ctx.margin(what, float(np.max(d / tol)) if d.size else 0.0)
    ctx.step()


PER = "name PE SNR A A_ci g g_ci Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci".split()


def snapshot(coef):
    """Every numeric field of a coefficient set that a user reads, by constituent name."""
    out = {}
    names = [str(n) for n in coef["name"]]
    for k in PER[1:]:
        if k in coef:
            out[k] = dict(zip(names, np.asarray(coef[k], float)))
    aux = coef["aux"]
    out["frq"] = dict(zip(names, np.asarray(aux["frq"], float)))
    out["lind"] = dict(zip(names, np.asarray(aux["lind"], float)))
    out["reftime"] = float(aux["reftime"])
    for k in ("mean", "slope", "umean", "vmean", "uslope", "vslope"):
        if k in coef:
            out[k] = float(coef[k])
    return out


def same_snapshot(ctx, a, b, what, rtol=1e-9, skip=()):
    """Two snapshots agree to rounding; angles modulo their period."""
    if set(a) - set(skip) != set(b) - set(skip):
        ctx.fail(f"{what}: fields {sorted(set(a) ^ set(b))} in only one of the results")
    scale = max([1e-300] + [abs(x) for k in ("A", "Lsmaj") for x in a.get(k, {}).values()])
    for k in a:
        if k in skip:
            continue
        x, y = a[k], b[k]
        if not isinstance(x, dict):
            tol = 1e-9 * max(1.0, abs(x)) if k == "reftime" else rtol * 100 * max(scale, abs(x))
            if not (abs(x - y) <= tol):
                ctx.fail(f"{what}: {k} is {y!r} instead of {x!r}")
            continue
        if set(x) != set(y):
            ctx.fail(f"{what}: constituents differ: {sorted(set(x) ^ set(y))}")
        for n in x:
            p, q = x[n], y[n]
            if p == q or (p != p and q != q):
                continue
            if k in ("g", "theta"):
                amp = a["A"][n] if "A" in a else a["Lsmaj"][n]
                per = 360.0 if k == "g" else 180.0
                d = abs((p - q + per / 2) % per - per / 2)
                ok = math.radians(d) * amp <= rtol * 10 * scale
                if k in ("g", "theta") and "Lsmin" in a:
                    # angles of a nearly circular ellipse are weakly defined
                    ecc = amp - abs(a["Lsmin"][n])
                    ok = ok or math.radians(d) * ecc <= rtol * 10 * scale
                    # theta and g may jump together by 180
                    if k == "g":
                        d2 = abs((p - q + 90) % 180 - 90)
                        dth = abs(a["theta"][n] - b["theta"][n])
                        ok = ok or (dth > 90 and math.radians(d2) * amp <= rtol * 10 * scale)
            else:
                ok = abs(p - q) <= rtol * 100 * max(abs(p), scale if k in ("A", "Lsmaj", "Lsmin", "A_ci", "Lsmaj_ci", "Lsmin_ci") else 0)
            if not ok:
                ctx.fail(f"{what}: {k}[{n}] is {q!r} instead of {p!r}")
    ctx.step()


def observe(ctx, obj, digits=6):
    """Count the distinct observed result (rounded) as a state of the exploration."""
    def r(x):
        if isinstance(x, dict):
            return {k: r(v) for k, v in x.items()}
        a = np.asarray(x)
        if a.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                s = np.nanmax(np.abs(a)) if a.size else 0.0
            if not np.isfinite(s) or s == 0:
                s = 1.0
            q = 10.0 ** (digits - 1 - math.floor(math.log10(s)))
            return [str(complex(v) + 0.0) for v in np.round(np.ravel(a) * q)]
        return str(x)

    ctx.state("observed", r(obj))


def observe_coef(ctx, c):
    names = [str(n) for n in c["name"]]
    if "Lsmaj" in c:
        ctx_vals = [np.asarray(c[k], float) for k in ("Lsmaj", "Lsmin", "theta", "g")]
    else:
        ctx_vals = [np.asarray(c[k], float) for k in ("A", "g")]
    observe(ctx, dict(names=" ".join(names), v=np.concatenate(ctx_vals)))
