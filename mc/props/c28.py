"""C28: band spectra are one-sided densities that exclude the tidal lines.

Space: (a) all pairs of unit impulses (in u, in v, across u and v) for short records of
several lengths, intervals, samplings and sets of excluded frequencies: the estimate is a
quadratic form of the residual, so its values on all pairs of unit vectors determine it
for every residual of that length; (b) one sinusoid at each Fourier and half-way
frequency of longer records; (c) scale, mean, time origin, exchange of u and v, equality
of series, FFT against Lomb-Scargle, over combinations of record and noise.
Oracle: directly summed periodograms; the stated laws.
"""

import itertools

import numpy as np
import ref
import scen

ID = "C28"
LEVEL = "model_checking"
BOUND = {
    "quick": "records of 16..31 samples: all pairs of unit impulses x 3 samplings x 4 frequency sets; 6 records x all half-spaced frequencies; laws on 7 records x 6 frequency sets; lengths around powers of 2 and 10 up to 65537 (Lomb-Scargle 513, and 4 to 5300 where bands hold 500 frequencies)",
    "thorough": "records of 10..48 samples: all pairs of unit impulses x 3 samplings x 6 frequency sets; 10 records x all third-spaced frequencies; laws on 7 records x 6 frequency sets; lengths around powers of 2 and 10 up to 262145 (Lomb-Scargle 2049, and 16 to 7100 where bands hold 500 frequencies)",
}
ASSUMPTIONS = ["records in which rounding decides whether a frequency lies in a band, or so short that neighbouring bands share a frequency (less than 100 h, Lomb-Scargle), are left out"]
F = dict(none=[], M2=["M2"], four=["M2", "S2", "K1", "O1"], cluster=["M2", "S2", "N2", "K2", "L2", "MU2", "NU2", "2N2"], ends=["Z0", "M8", "MM", "SSA"], shallow=["M4", "M6", "MK3", "2MK5", "S4"])
SHORT = [(16, 1.03), (17, 0.97), (24, 1.01), (31, 2.03)]
SHORT2 = SHORT + [(10, 1.03), (11, 3.1), (36, 0.91), (40, 1.49), (48, 1.03)]
LONG = [(97, 1.0), (128, 1.003), (203, 0.493), (240, 1.007), (333, 0.997), (150, 3.01)]
LONG2 = LONG + [(500, 1.001), (720, 0.2503), (365, 2.003), (1000, 0.5003)]


def cases(tier):
    deep = tier != "quick"
    for n, dt in SHORT2 if deep else SHORT:
        for samp in ("even", "lomb", "irregular"):
            if samp != "even":
                # bands of very short records share frequencies
                dt = max(dt, 108.0 / n)
            for f in F if deep else ("none", "M2", "four", "ends"):
                yield dict(impulses=n, dt=dt, samp=samp, f=f)
    for n, dt in LONG2 if deep else LONG:
        for samp in ("even", "lomb", "irregular"):
            for part in range(4):
                yield dict(lines=n, dt=dt, samp=samp, part=part, step=3 if deep else 2)
    # irregular records whose bands hold about 500 frequencies and more
    for n in (2494, 2505, 2600, 5300) if not deep else [*range(2490, 2511, 2), 2600, 3700, 4999, 5300, 7100]:
        yield dict(size=n, long=1)
    for n in scen.sizes(tier, 64):
        yield dict(size=n)
    for n, dt in LONG + [(1500, 1.0003)]:
        for f in F:
            for kind in ("white", "sine", "impulse", "step"):
                yield dict(laws=n, dt=dt, f=f, kind=kind)


def frqs(key):
    return np.array([ref.freqs(700000.0)[ref.INDEX[n]] for n in F[key]], float)


def rec(n, dt, samp, t0=0.0):
    i = np.arange(n)
    if samp == "irregular":
        i = i + 0.31 * scen.lcg(n, 11)
    return t0 + i * dt / 24.0


def psd(t, e, cfrq, even, **kw):
    from utide.periodogram import band_psd

    P = band_psd(t, e, cfrq, equi=even, **kw)
    out = np.full((3, 9), np.nan)
    out[0] = np.asarray(P.Puu)
    if np.iscomplexobj(e):
        out[1], out[2] = np.asarray(P.Pvv), np.asarray(P.Puv)
    return out


def check(case, ctx):
    if "impulses" in case:
        return impulses(case, ctx)
    if "lines" in case:
        return lines(case, ctx)
    if "size" in case:
        return sized(case, ctx)
    return laws(case, ctx)


def near(ctx, got, want, what, rtol=1e-7, scale=None):
    # relative to the largest value that the reference yields for these series
    s = np.nanmax(np.abs(want)) if scale is None else scale
    if not np.isfinite(s):
        s = 0.0
    scen.close(ctx, got, want, rtol * s + 1e-300, what)


def impulses(case, ctx):
    n = case["impulses"]
    even = case["samp"] == "even"
    t = rec(n, case["dt"], case["samp"])
    cf = frqs(case["f"])
    spec = ref.Spectrum(t, cf, even)
    if spec.ties:
        ctx.outcome("rounding decides: skipped")
        return
    I = np.eye(n)
    for i in range(n):
        for j in range(n):
            if i <= j:
                u = I[i] + I[j] if i < j else I[i]
                es = [u + 1j * I[j], I[i] + 1j * I[j]]
                if i != j:
                    es.append(I[j] - 0.5j * u)
            else:
                es = [I[i] + 1j * I[j]]
            for k, e in enumerate(es):
                want = spec(e)
                got = psd(t, e, cf, even)
                near(ctx, got, want, f"impulses at {i} and {j} ({k})", scale=max(np.nanmax(np.abs(want), initial=0.0), 1e-6 * case["dt"] / n))
                ctx.state(case, i, j, k)
            if i == j:
                got = psd(t, I[i], cf, even)
                near(ctx, got[0], want[0], f"real impulse at {i}", scale=1e-2 * case["dt"] / n)
            ctx.trace(len(es))
    if not np.isfinite(want).any():
        ctx.outcome("no frequency in any band")
    ctx.outcome(case["samp"])


def lines(case, ctx):
    n, dt = case["lines"], case["dt"]
    even = case["samp"] == "even"
    t = rec(n, dt, case["samp"])
    h = 24.0 * t
    cf = frqs("four")
    m = case["step"]
    spec = ref.Spectrum(t, cf, even)
    if spec.ties:
        ctx.outcome("rounding decides: skipped")
        return
    for k in range(1 + case["part"], m * (n // 2) + 1, 4):
        f = k / (m * n * dt)
        e = np.cos(2 * np.pi * f * h + 0.4) + 0.7j * np.sin(2 * np.pi * f * h - 1.1) + (2 - 5j)
        want = spec(e)
        got = psd(t, e, cf, even)
        # leakage far from the line is small: compare on the scale of the line
        near(ctx, got, want, f"line at {f:.5f} cph", scale=max(np.nanmax(np.abs(want)), 1e-6 * n * dt))
        ctx.state(case, k)
        ctx.trace()
    ctx.outcome(case["samp"])


def sized(case, ctx):
    n = case["size"]
    for samp in ("even", "lomb", "irregular"):
        even = samp == "even"
        if not even and not case.get("long") and (n < 110 or n > (520 if ctx.tier == "quick" else 2100)):
            continue
        for dt in (1.0003,) if case.get("long") else (1.0003, 0.4967):
            t = rec(n, dt, samp)
            for f in ("none", "four"):
                cf = frqs(f)
                spec = ref.Spectrum(t, cf, even)
                if spec.ties:
                    ctx.outcome("rounding decides: skipped")
                    continue
                e = series("white", n, 3) + 0.7j * series("sine", n, 8)
                near(ctx, psd(t, e, cf, even), spec(e), f"{n} values, {samp}, dt {dt} h, without {f}", 1e-8)
                ctx.trace()
                ctx.state(case, samp, dt, f)
    ctx.outcome("sizes")


def series(kind, n, seed):
    if kind == "white":
        return scen.lcg(n, seed)
    if kind == "sine":
        return np.cos(2 * np.pi * (0.08 + 0.002 * seed) * np.arange(n)) + 0.01 * scen.lcg(n, seed)
    if kind == "impulse":
        x = np.zeros(n)
        x[n // 2 + seed] = 3.0
        return x
    x = np.zeros(n)
    x[n // 3 + seed :] = 1.0
    return x


def laws(case, ctx):
    n, dt = case["laws"], case["dt"]
    cf = frqs(case["f"])
    u, v = series(case["kind"], n, 3), 0.7 * series(case["kind"], n, 8)
    e = u + 1j * v
    for samp in ("even", "lomb", "irregular"):
        even = samp == "even"
        t = rec(n, dt, samp)
        what = f"{samp}: "
        spec = ref.Spectrum(t, cf, even)
        want = spec(e)
        if spec.ties:
            ctx.outcome("rounding decides: skipped")
            continue
        keep = e.copy()
        base = psd(t, e, cf, even)
        if not np.array_equal(e, keep):
            ctx.fail(what + "the residual was modified")
        near(ctx, base, want, what + "definition")
        if np.any(base[:2] < 0):
            ctx.fail(what + "negative spectral density")
        near(ctx, psd(t, u, cf, even)[0], base[0], what + "real series")
        for s in (1e-5, 3.0, 1e6, -1.0):
            near(ctx, psd(t, s * e, cf, even), s * s * base, what + f"scaled by {s}")
        near(ctx, psd(t, e + (4.0 - 7.0j), cf, even), base, what + "other mean", 1e-6)
        near(ctx, psd(t, v + 1j * u, cf, even), base[[1, 0, 2]], what + "u and v exchanged")
        near(ctx, psd(t, u - 1j * v, cf, even)[2], -base[2], what + "v negated")
        p = psd(t, u + 1j * u, cf, even)
        near(ctx, p, np.array([base[0]] * 3), what + "identical series")
        for t0 in (733000.0, -1234.5, 580000.4):
            near(ctx, psd(rec(n, dt, samp, t0), e, cf, even), base, what + f"times from {t0}", 1e-4 if n < 1000 else 1e-3)
            ctx.state(case, samp, t0)
        ctx.trace(12)
        if samp == "even":
            fft, wfft, whole = base, want, spec
        elif samp == "lomb":
            # the top band is the only one that may hold the Nyquist frequency
            per = (ref.BANDS[8][1] - ref.BANDS[8][0]) * n * dt
            if per < 490:
                ok = np.isfinite(wfft) & np.isfinite(base)
                hi = 0.5 / dt
                # the same frequencies must be left out by both
                out = [[float(s.frq[np.argmin(np.abs(s.frq - f))]) for f in cf] for s in (whole, spec)]
                if not np.allclose(out[0], out[1], rtol=1e-9):
                    ok[:] = False
                for b, (lo, up) in enumerate(ref.BANDS):
                    if up + 2 / (n * dt) >= hi or (len(cf) and cf.max() > hi - 2 / (n * dt)):
                        ok[:, b] = False
                near(ctx, base[ok], fft[ok], what + "as the FFT", scale=np.nanmax(np.abs(fft)), rtol=1e-6)
        ctx.outcome(samp)
