"""Independent reference model of tidal harmonic analysis.

Nothing here comes from the code under test: the tables are a golden text copy
(data/constants.json), and the formulas are written from their definitions
(Doodson numbers, satellites, least squares, error propagation), by the most
literal route available: loops over constituents, real design matrices, singular
value decomposition for ellipses, numerical differentiation for error bars.
"""

import cmath
import json
import math
import os
from functools import lru_cache

import numpy as np

_here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_here, "data", "constants.json")) as _f:
    K = json.load(_f)

CONST = K["const"]
NAMES = CONST["name"]
INDEX = {n: i for i, n in enumerate(NAMES)}
NC = len(NAMES)
FREQ = CONST["freq"]
DF = CONST["df"]

# satellites and parents, by constituent index
SATS = {}
for _i, _c in enumerate(K["sat"]["iconst"]):
    SATS.setdefault(_c - 1, []).append(
        (
            K["sat"]["deldood"][_i],
            K["sat"]["phcorr"][_i],
            K["sat"]["amprat"][_i],
            K["sat"]["ilatfac"][_i],
        ),
    )
PARENTS = {}
for _i, _c in enumerate(K["shallow"]["iconst"]):
    PARENTS.setdefault(_c - 1, []).append(
        (K["shallow"]["iname"][_i] - 1, K["shallow"]["coef"][_i]),
    )
# Constituents with a parent coefficient that is not an integer (M7 = 3.5 M2).
FRACTIONAL = {NAMES[i] for i, ps in PARENTS.items() if any(c != int(c) for _, c in ps)}

# Polynomials of the mean longitudes (degrees; s, h, p, N', p1), days and
# (days/10000)^2,3 since 1899-12-31 12:00.
POLY = [
    (270.434164, 13.1763965268, -0.0000850, 0.000000039),
    (279.696678, 0.9856473354, 0.00002267, 0.0),
    (334.329556, 0.1114040803, -0.0007739, -0.00000026),
    (-259.183275, 0.0529539222, -0.0001557, -0.000000050),
    (281.220844, 0.0000470684, 0.0000339, 0.000000070),
]
ORIGIN = 693595.5


def astro(t):
    """(6, nt) tau, s, h, p, N', p1 in cycles (tau modulo whole cycles of s, h)."""
    t = np.asarray(t, dtype=float)
    d = t - ORIGIN
    D = d / 10000.0
    rows = [((c[0] + c[1] * d + c[2] * D * D + c[3] * D * D * D) / 360.0) % 1.0 for c in POLY]
    tau = (t - np.floor(t)) + rows[1] - rows[0]
    return np.array([tau] + rows)


def astro_rate(t):
    """(6, nt) cycles per day."""
    t = np.asarray(t, dtype=float)
    D = (t - ORIGIN) / 10000.0
    rows = [
        (c[1] + 2.0e-4 * c[2] * D + 3.0e-4 * c[3] * D * D) / 360.0 for c in POLY
    ]
    tau = 1.0 + rows[1] - rows[0]
    return np.array([tau] + rows)


@lru_cache(maxsize=None)
def _freqs(tref):
    rate = astro_rate(tref)
    out = [None] * NC
    for i in range(NC):
        if i not in PARENTS:
            out[i] = sum(k * r for k, r in zip(CONST["doodson"][i], rate)) / 24.0
    for i, ps in PARENTS.items():
        out[i] = sum(c * out[j] for j, c in ps)
    return tuple(float(x) for x in out)


def freqs(tref):
    """Frequencies (cycles per hour) at the date tref."""
    return _freqs(float(tref))


def factor(t, name, lat):
    """Complex nodal factor f*exp(i u) at the times t."""
    i = INDEX[name]
    t = np.asarray(t, dtype=float)
    if i in PARENTS:
        f = np.ones(t.shape)
        u = np.zeros(t.shape)
        for j, c in PARENTS[i]:
            z = factor(t, NAMES[j], lat)
            f = f * np.abs(z) ** abs(c)
            u = u + c * np.angle(z)
        return f * np.exp(1j * u)
    z = np.ones(t.shape, dtype=complex)
    if i not in SATS:
        return z
    lat = float(lat)
    if abs(lat) < 5.0:
        lat = -5.0 if lat < 0 else 5.0
    sl = math.sin(math.radians(lat))
    a = astro(t)
    for dd, ph, amp, fac in SATS[i]:
        if fac == 1:
            amp = amp * 0.36309 * (1.0 - 5.0 * sl * sl) / sl
        elif fac == 2:
            amp = amp * 2.59808 * sl
        arg = dd[0] * a[3] + dd[1] * a[4] + dd[2] * a[5] + ph
        z = z + amp * np.exp(2j * np.pi * arg)
    return z


def varg(t, name, halfbug=False):
    """Astronomical argument (cycles) at times t.

    halfbug=True evaluates fractional combinations (M7 = 3.5 M2) from the wrapped
    parent argument, as UTide does (known finding)."""
    i = INDEX[name]
    t = np.asarray(t, dtype=float)
    if i in PARENTS:
        v = np.zeros(t.shape)
        for j, c in PARENTS[i]:
            if halfbug and name in FRACTIONAL:
                v = v + c * _fmod_varg(t, NAMES[j])
            elif name in FRACTIONAL:
                v = v + c * _unwrapped(t, NAMES[j])
            else:
                v = v + c * varg(t, NAMES[j])
        return v
    a = astro(t)
    v = np.full(t.shape, CONST["semi"][i])
    for k, x in zip(CONST["doodson"][i], a):
        v = v + k * x
    return v


def _unwrapped(t, name):
    i = INDEX[name]
    d = np.asarray(t, dtype=float) - ORIGIN
    D = d / 10000.0
    rows = [(c[0] + c[1] * d + c[2] * D * D + c[3] * D * D * D) / 360.0 for c in POLY]
    tau = d + 0.5 + rows[1] - rows[0]
    v = CONST["semi"][i]
    for k, x in zip(CONST["doodson"][i], [tau] + rows):
        v = v + k * x
    return v


def _fmod_varg(t, name):
    i = INDEX[name]
    t = np.asarray(t, dtype=float)
    d = t - ORIGIN
    D = d / 10000.0
    rows = [
        np.fmod((c[0] + c[1] * d + c[2] * D * D + c[3] * D * D * D) / 360.0, 1)
        for c in POLY
    ]
    tau = t % 1 + rows[1] - rows[0]
    v = CONST["semi"][i]
    for k, x in zip(CONST["doodson"][i], [tau] + rows):
        v = v + k * x
    return np.fmod(v, 1)


def basis(t, name, tref, lat, phase="Greenwich", nodal=True, halfbug=False):
    """Complex harmonic E(t) of one constituent: the tide is Re(A e^{-ig} E)."""
    t = np.asarray(t, dtype=float)
    if nodal == "linear_time":
        z = np.full(t.shape, complex(factor(np.array([tref]), name, lat)[0]))
    elif not nodal:
        z = np.ones(t.shape, dtype=complex)
    else:
        z = factor(t, name, lat)
    f = freqs(tref)[INDEX[name]]
    if phase == "raw":
        v = 24.0 * (t - tref) * f
    elif phase == "linear_time":
        v = float(varg(np.array([tref]), name, halfbug)[0]) + 24.0 * (t - tref) * f
    else:
        v = varg(t, name, halfbug)
    return z * np.exp(2j * np.pi * v)


def bases(t, names, tref, lat, phase="Greenwich", nodal=True, halfbug=False):
    t = np.asarray(t, dtype=float)
    if not len(names):
        return np.zeros((len(t), 0), dtype=complex)
    return np.array([basis(t, n, tref, lat, phase, nodal, halfbug) for n in names]).T


# ---------------------------------------------------------------- ellipses


def ellipse(Xu, Yu, Xv, Yv):
    """Lsmaj, Lsmin, theta, g of u = Xu cos + Yu sin, v = Xv cos + Yv sin."""
    M = np.array([[Xu, Yu], [Xv, Yv]], dtype=float)
    U, S, Vh = np.linalg.svd(M)
    sign = 1.0 if np.linalg.det(M) >= 0 else -1.0
    ax = U[:, 0]
    ph = Vh[0]
    theta = math.degrees(math.atan2(ax[1], ax[0]))
    g = math.degrees(math.atan2(ph[1], ph[0]))
    if theta < 0:
        theta += 180.0
        g += 180.0
    if theta >= 180.0:
        theta -= 180.0
        g += 180.0
    return S[0], sign * S[1], theta, g % 360.0


def cs_of_ag(A, g):
    """Cosine and sine coefficients of A cos(phi - g)."""
    r = math.radians(g)
    return A * math.cos(r), A * math.sin(r)


def cs_of_ellipse(Lsmaj, Lsmin, theta, g):
    """Xu, Yu, Xv, Yv: the vector is Lsmaj cos(phi-g) along theta and
    Lsmin sin(phi-g) along theta+90."""
    th = math.radians(theta)
    gg = math.radians(g)
    # major: cos(phi-g) = cos phi cos g + sin phi sin g
    # minor: sin(phi-g) = sin phi cos g - cos phi sin g
    aX, aY = Lsmaj * math.cos(gg), Lsmaj * math.sin(gg)
    bX, bY = -Lsmin * math.sin(gg), Lsmin * math.cos(gg)
    c, s = math.cos(th), math.sin(th)
    return aX * c - bX * s, aY * c - bY * s, aX * s + bX * c, aY * s + bY * c


def phasors_of_cs(Xu, Yu, Xv, Yv):
    """Complex amplitudes (ap, am) of u + i v = ap e^{i phi} + am e^{-i phi}."""
    cu = Xu - 1j * Yu
    cv = Xv - 1j * Yv
    return (cu + 1j * cv) / 2, (np.conj(cu) + 1j * np.conj(cv)) / 2


def elevation(t, truth, tref, lat, phase, nodal, mean=0.0, slope=0.0, ref0=None):
    """Sum of constituents {name: (A, g)} plus mean and slope*(t - tref)."""
    t = np.asarray(t, dtype=float)
    h = mean + slope * (t - (tref if ref0 is None else ref0))
    for n, (A, g) in truth.items():
        X, Y = cs_of_ag(A, g)
        E = basis(t, n, tref, lat, phase, nodal)
        h = h + X * E.real + Y * E.imag
    return h


def velocity(t, truth, tref, lat, phase, nodal, mean=(0.0, 0.0), slope=(0.0, 0.0)):
    t = np.asarray(t, dtype=float)
    u = mean[0] + slope[0] * (t - tref)
    v = mean[1] + slope[1] * (t - tref)
    for n, p in truth.items():
        Xu, Yu, Xv, Yv = cs_of_ellipse(*p)
        E = basis(t, n, tref, lat, phase, nodal)
        u = u + Xu * E.real + Yu * E.imag
        v = v + Xv * E.real + Yv * E.imag
    return u, v


# ---------------------------------------------------------------- least squares


def design(t, names, tref, lat, phase, nodal, trend, infer=None, twodim=False):
    """Columns (complex, acting on ap and conj-acting on am) of each constituent
    with inferred ones folded into their reference; returns (list of names of
    the columns, Ep, Em) where u+iv = sum ap Ep + am conj(Em)."""
    inferred = set(infer["inferred_names"]) if infer else set()
    refs = list(dict.fromkeys(infer["reference_names"])) if infer else []
    cols = [n for n in names if n not in inferred and n not in refs] + refs
    Ep = bases(t, cols, tref, lat, phase, nodal)
    Em = Ep.copy()
    if infer:
        nI = len(infer["inferred_names"])
        for i in range(nI):
            r = cols.index(infer["reference_names"][i])
            EI = basis(t, infer["inferred_names"][i], tref, lat, phase, nodal)
            Rp, Rm = ratios(infer, i, twodim)
            Ep[:, r] += Rp * EI
            Em[:, r] += np.conj(Rm) * EI
    return cols, Ep, Em


def ratios(infer, i, twodim):
    nI = len(infer["inferred_names"])
    Rp = infer["amp_ratios"][i] * cmath.exp(1j * math.radians(infer["phase_offsets"][i]))
    if twodim:
        Rm = infer["amp_ratios"][i + nI] * cmath.exp(
            -1j * math.radians(infer["phase_offsets"][i + nI]),
        )
    else:
        Rm = Rp.conjugate()
    return Rp, Rm


def real_design1(t, names, tref, lat, phase, nodal, trend, lor=None, infer=None):
    cols, Ep, _ = design(t, names, tref, lat, phase, nodal, trend, infer)
    blocks = []
    for k in range(len(cols)):
        blocks += [Ep[:, k].real, Ep[:, k].imag]
    blocks.append(np.ones(len(t)))
    if trend:
        blocks.append((t - tref) / (lor or 1.0))
    return cols, np.array(blocks).T


def real_design2(t, names, tref, lat, phase, nodal, trend, lor=None, infer=None):
    """Rows u then v; unknowns Re ap, Im ap, Re am, Im am per column, then mean
    (2) and trend (2)."""
    cols, Ep, Em = design(t, names, tref, lat, phase, nodal, trend, infer, True)
    n = len(t)
    blocks = []

    def add(z):
        blocks.append(np.concatenate([z.real, z.imag]))

    for k in range(len(cols)):
        add(Ep[:, k])
        add(1j * Ep[:, k])
        add(Em[:, k].conj())
        add(1j * Em[:, k].conj())
    one = np.ones(n, dtype=complex)
    add(one)
    add(1j * one)
    if trend:
        tr = ((t - tref) / (lor or 1.0)).astype(complex)
        add(tr)
        add(1j * tr)
    return cols, np.array(blocks).T


class Fit:
    """Reference least-squares fit; ap/am per column, mean, slope, residual."""


def fit1(t, h, names, tref, lat, phase, nodal, trend, infer=None, w=None):
    t = np.asarray(t, float)
    lor = t.max() - t.min()
    cols, D = real_design1(t, names, tref, lat, phase, nodal, trend, lor, infer)
    W = np.ones(len(t)) if w is None else w
    q, *_ = np.linalg.lstsq(D * W[:, None], h * W, rcond=None)
    f = Fit()
    f.cols, f.D = cols, D
    f.X, f.Y = q[0 : 2 * len(cols) : 2], q[1 : 2 * len(cols) : 2]
    f.mean = q[2 * len(cols)]
    f.slope = q[2 * len(cols) + 1] / lor if trend else 0.0
    f.resid = h - D @ q
    f.z = {n: f.X[i] - 1j * f.Y[i] for i, n in enumerate(cols)}  # A e^{-ig}
    if infer:
        for i, n in enumerate(infer["inferred_names"]):
            Rp, _ = ratios(infer, i, False)
            f.z[n] = Rp * f.z[infer["reference_names"][i]]
    return f


def fit2(t, u, v, names, tref, lat, phase, nodal, trend, infer=None, w=None):
    t = np.asarray(t, float)
    lor = t.max() - t.min()
    cols, D = real_design2(t, names, tref, lat, phase, nodal, trend, lor, infer)
    W = np.ones(len(t)) if w is None else w
    WW = np.concatenate([W, W])
    y = np.concatenate([u, v])
    q, *_ = np.linalg.lstsq(D * WW[:, None], y * WW, rcond=None)
    f = Fit()
    f.cols, f.D = cols, D
    nc = len(cols)
    ap = q[0 : 4 * nc : 4] + 1j * q[1 : 4 * nc : 4]
    am = q[2 : 4 * nc : 4] + 1j * q[3 : 4 * nc : 4]
    f.z = {n: (ap[i], am[i]) for i, n in enumerate(cols)}
    f.mean = (q[4 * nc], q[4 * nc + 1])
    f.slope = (q[4 * nc + 2] / lor, q[4 * nc + 3] / lor) if trend else (0.0, 0.0)
    r = y - D @ q
    f.resid = r[: len(t)] + 1j * r[len(t) :]
    if infer:
        for i, n in enumerate(infer["inferred_names"]):
            Rp, Rm = ratios(infer, i, True)
            a, b = f.z[infer["reference_names"][i]]
            f.z[n] = (Rp * a, Rm * b)
    return f


# ---------------------------------------------------------------- intervals


def white_variances1(f, nt, nm):
    """var(X), var(Y) per column from the real normal matrix."""
    s2 = float(np.sum(np.abs(f.resid) ** 2)) / (nt - nm)
    C = s2 * np.linalg.inv(f.D.T @ f.D)
    d = np.diag(C)
    nc = len(f.cols)
    return d[0 : 2 * nc : 2], d[1 : 2 * nc : 2]


def sigma_ag(X, Y, vX, vY):
    A = math.hypot(X, Y)
    sA = math.sqrt((X / A) ** 2 * vX + (Y / A) ** 2 * vY)
    sg = math.degrees(math.sqrt((Y / A**2) ** 2 * vX + (X / A**2) ** 2 * vY))
    return sA, sg


def sigma_ellipse(x, var):
    """First-order standard errors of (Lsmaj, Lsmin, theta, g) for independent
    coefficients x = (Xu, Yu, Xv, Yv) with variances var, by central differences."""
    x = np.asarray(x, float)
    scale = np.linalg.norm(x)
    h = 1e-6 * scale
    J = np.zeros((4, 4))
    for k in range(4):
        a = x.copy()
        b = x.copy()
        a[k] += h
        b[k] -= h
        pa = np.array(ellipse(*a))
        pb = np.array(ellipse(*b))
        d = pa - pb
        # theta and g jump together (theta by 180, g by 180); unwrap
        if abs(d[2]) > 90:
            d[2] -= math.copysign(180, d[2])
            d[3] -= 180
        d[3] = (d[3] + 180) % 360 - 180
        J[:, k] = d / (2 * h)
    return np.sqrt((J**2) @ np.asarray(var))


# ---------------------------------------------------------------- spectra

BANDS = [
    (0.00010, 0.00417),
    (0.03192, 0.04859),
    (0.07218, 0.08884),
    (0.11243, 0.12910),
    (0.15269, 0.16936),
    (0.19295, 0.20961),
    (0.23320, 0.25100),
    (0.26000, 0.29000),
    (0.30000, 0.50000),
]


def angle_diff(a, b, period=360.0):
    return (a - b + period / 2) % period - period / 2


def nearest_band(f):
    """Index of the band holding the frequency f, or None."""
    for k, (lo, hi) in enumerate(BANDS):
        if lo <= f <= hi:
            return k
    return None


class Spectrum:
    """Band spectra of series at the times t without the frequencies next to cfrq."""

    def __init__(self, t, cfrq, even, osamp=1):
        t = np.asarray(t, float)
        self.size = len(t)
        if len(t) % 2:
            t = t[:-1]
        self.n = n = len(t)
        self.even = even
        h = 24.0 * (t - t[0])
        win = np.array([0.5 - 0.5 * math.cos(2 * math.pi * k / n) for k in range(n)])
        if even:
            dt = h[1] - h[0]
            frq = allf = np.arange(n // 2 + 1) / (n * dt)
            k = np.arange(n)
            # exact phases: j*k modulo n
            self.dft = None
            if n <= 2100:  # else by the fast transform
                self.dft = np.exp(-2j * np.pi * (np.outer(np.arange(n // 2 + 1), k) % n) / n)
            self.mult = np.full(len(frq), 2.0)
            self.mult[0] = self.mult[-1] = 1.0
            self.mult *= dt / np.sum(win**2)
            self.w = win
        else:
            dt = h[-1] / (n - 1)
            rec = n * dt
            allf = [j / rec for j in range(1, (n * osamp) // 2)]
            frq = []
            for lo, hi in BANDS:
                part, above = [], False
                for f in allf:
                    if f < lo or above:
                        continue
                    part.append(f)
                    above = f >= hi
                if len(part) > 500:
                    a, b = part[0], part[-1]
                    part = [a + (b - a) * i / 499 for i in range(500)]
                frq += part
            frq = np.array(frq)
            grid = h[-1] * np.arange(n) / (n - 1)
            self.w = w = np.interp(h, grid, win)
            self.mult = dt * n / np.sum(w**2)
            th = np.outer(2 * np.pi * frq, h)
            tau = 0.5 * np.arctan2(np.sin(2 * th).sum(1), np.cos(2 * th).sum(1))
            th -= tau[:, None]
            self.C, self.S = np.cos(th), np.sin(th)
            self.cc, self.ss = (self.C**2).sum(1), (self.S**2).sum(1)
        self.frq = frq
        self.bands = [[] for _ in BANDS]
        self.ties = []
        if len(frq) == 0:
            return
        if np.any(np.diff(frq) <= 0):
            self.ties.append("short record: bands share frequencies")
        step = frq[1] - frq[0] if len(frq) > 1 else 1.0
        for b in BANDS:
            for side, edge in enumerate(b):
                f = np.asarray(allf)
                # the last frequency belongs to the band on either side of the upper edge
                f = f[:-1] if side else f
                if np.min(np.abs(f - edge), initial=1.0) < 1e-7 * step:
                    self.ties.append(("edge", edge))
        keep = np.ones(len(frq), bool)
        for f in cfrq:
            d = np.abs(frq - f)
            keep[int(np.argmin(d))] = False
            d = np.sort(d)
            if len(d) > 1 and d[1] - d[0] < 1e-7 * step:
                self.ties.append(("middle", float(f)))
        for b, (lo, hi) in enumerate(BANDS):
            above = False
            for i, f in enumerate(frq):
                if f >= lo and not above:
                    if keep[i]:
                        self.bands[b].append(i)
                    above = f >= hi

    def __call__(self, e):
        e = np.asarray(e)[: self.n]
        y = [np.real(e).astype(float), np.imag(e).astype(float)]
        y = [(x - x.mean()) * self.w for x in y]
        out = np.full((3, len(BANDS)), np.nan)
        if self.even:
            X = [np.fft.rfft(x) if self.dft is None else self.dft @ x for x in y]
            uu, vv = self.mult * np.abs(X[0]) ** 2, self.mult * np.abs(X[1]) ** 2
            uv = self.mult * (np.conj(X[0]) * X[1]).real
        else:
            if not len(self.frq):
                return out
            uc, us, vc, vs = self.C @ y[0], self.S @ y[0], self.C @ y[1], self.S @ y[1]
            uu = self.mult * (uc**2 / self.cc + us**2 / self.ss)
            vv = self.mult * (vc**2 / self.cc + vs**2 / self.ss)
            uv = self.mult * (uc * vc / self.cc + us * vs / self.ss)
        for b, idx in enumerate(self.bands):
            if idx:
                out[:, b] = uu[idx].mean(), vv[idx].mean(), uv[idx].mean()
        return out


def band_spectra(t, e, cfrq, even, osamp=1, ties=None):
    """Mean one-sided spectral densities (Puu, Pvv, Puv) per band [units^2/cph].

    From the definition: Hann window, discrete Fourier sums (or Lomb-Scargle
    least-squares sums), without the frequency nearest to each of cfrq; a band
    reaches from its first frequency to the first one not below its upper edge.
    Frequencies so near to an edge, or constituents so near to the middle between two
    frequencies, that rounding decides are appended to `ties`.
    """
    s = Spectrum(t, cfrq, even, osamp)
    if ties is not None:
        ties += s.ties
    return s(e)
