"""Planted bugs, first set: one or more per property, written from its text and the code."""

# A common record: mean, trend and three constituents, elevation and velocity.
REC = '''
def tides(t, names=("M2", "K1", "S2"), amp=(1.0, 0.4, 0.3), g=(40., 100., 310.), lat=40.0, **kw):
    """A signal of exactly these constituents, and the coefficient set which describes it."""
    tt = 730120.0 + np.arange(0, 40, 1 / 24.)
    c = solve(tt, np.cos(tt) + np.sin(tt * 12.1), lat=lat, epoch="python", constit=list(names), order_constit=list(names),
              verbose=False, conf_int="linear", white=True, **kw)
    c.A, c.g = np.array(amp, float), np.array(g, float)
    c.mean = 0.0
    if "slope" in c: c.slope = 0.0
    return reconstruct(t, c, epoch="python", verbose=False, constit=list(names)).h
K = dict(epoch="python", lat=40.0, verbose=False)
'''

BUGS = [
 dict(id="c01-lor-elor-trend", property="C01",
  needs="a trend, and a record in which the slope is compared in absolute terms",
  breaks="the slope is divided by the extended record length (n dt) while the model column uses (n-1) dt",
  edits=[("utide/_solve.py", 'coef["vslope"] = np.imag(m[-1]) / lor', 'coef["vslope"] = np.imag(m[-1]) / elor')],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 12.)
u, v = tides(t) + 0.01 * (t - 730130), tides(t, g=(130., 20., 200.)) - 0.2 * (t - 730130)
c = solve(t, u, v, constit=["M2", "K1", "S2"], conf_int="none", **K)
check(abs(c.uslope - 0.01) < 1e-7, c.uslope)
check(abs(c.vslope + 0.2) < 1e-7, c.vslope)
'''),
 dict(id="c02-interp-nodal", property="C02",
  needs="a reconstruction of more than 10000 times that are not in chronological order",
  breaks="for long series the nodal corrections are computed on a coarse grid between the first and the last time and interpolated, so a value depends on the other times and their order",
  edits=[("utide/harmonics.py", """        if ngflgs[0]:
            tt = np.array([tref])
        else:
            tt = t
        ntt = len(tt)

        astro, ader = ut_astron(tt)

        if abs(lat) < 5:""", """        coarse = not ngflgs[0] and nt > 10000
        if ngflgs[0]:
            tt = np.array([tref])
        elif coarse:
            # The corrections vary slowly: a coarse grid will do.
            tt = np.linspace(t[0], t[-1], 500)
        else:
            tt = t
        ntt = len(tt)

        astro, ader = ut_astron(tt)

        if abs(lat) < 5:"""),
   ("utide/harmonics.py", """        F = F[lind, :].T
        U = U[lind, :].T
""", """        if coarse:
            F = np.array([np.interp(t, tt, f) for f in F[lind, :]]).T
            U = np.array([np.interp(t, tt, ph) for ph in U[lind, :]]).T
        else:
            F, U = F[lind, :].T, U[lind, :].T
""")],
  demo=REC + '''
t0 = 730120.0 + np.arange(0, 40, 1 / 24.)
c = solve(t0, tides(t0), constit=["M2", "K1", "S2"], **K)
t = 730120.0 + np.arange(0, 3000, .29)
p = np.random.RandomState(3).permutation(len(t))
h = reconstruct(t, c, epoch="python", verbose=False).h
hp = reconstruct(t[p], c, epoch="python", verbose=False).h
check(np.allclose(h[p], hp, atol=1e-9), abs(h[p] - hp).max())
'''),
 dict(id="c02-block", property="C02",
  needs="a velocity reconstruction of more than 2048 valid times",
  breaks="the harmonics are summed in blocks to save memory; the last, incomplete block is taken from the wrong place",
  edits=[("utide/_reconstruct.py", "    fit = np.dot(E, ap) + np.dot(np.conj(E), am)\n", """    # Bounded temporaries for long series.
    nt, nb = len(t), 2048
    fit = np.zeros(nt, dtype=complex)
    for i in range(0, nt, nb):
        j = min(i + nb, nt - 1)
        fit[i:j] = np.dot(E[i:j], ap) + np.dot(np.conj(E[i:j]), am)
    if nt <= nb:
        fit = np.dot(E, ap) + np.dot(np.conj(E), am)
""")],
  demo=REC + '''
t0 = 730120.0 + np.arange(0, 40, 1 / 24.)
c = solve(t0, tides(t0), constit=["M2", "K1", "S2"], **K)
t = 730120.0 + np.arange(3000) / 24.
h = reconstruct(t, c, epoch="python", verbose=False).h
h1 = reconstruct(t[-5:], c, epoch="python", verbose=False).h
check(np.allclose(h[-5:], h1, atol=1e-9), (h[-5:], h1))
'''),
 dict(id="c03-rcond", property="C03",
  needs="two constituents that the record separates only poorly (explicitly requested)",
  breaks="small singular values of the model matrix are cut off, so the solution is not the least-squares optimum",
  edits=[("utide/_solve.py", "            m = np.linalg.lstsq(B, xraw, rcond=None)[0]\n", "            m = np.linalg.lstsq(B, xraw, rcond=0.03)[0]\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 5, 1 / 24.)
y = tides(t, names=("K1", "P1", "M2"))
c = solve(t, y, constit=["K1", "P1", "M2"], conf_int="none", **K)
h = reconstruct(t, c, epoch="python", verbose=False).h
check(abs(h - y).max() < 1e-6, abs(h - y).max())
'''),
 dict(id="c03-single", property="C03",
  needs="a record of more than 10000 samples",
  breaks="for long records the model matrix is kept in single precision to save memory",
  edits=[("utide/_solve.py", "    # nm = B.shape[1]  # 2*(nNR + nR) + 1, plus 1 if trend is included.\n", """    # Keep the memory needed for long records in bounds.
    if nt > 10000:
        B = B.astype(np.complex64)
""")],
  demo=REC + '''
t = 730120.0 + np.arange(10500) / 24.
y = np.random.RandomState(1).randn(len(t)) + 50 * tides(t)
c = solve(t, y, constit=["M2", "K1", "S2"], conf_int="none", **K)
h = reconstruct(t, c, epoch="python", verbose=False).h
one = tides(t, amp=(1., 0., 0.))
r = abs(np.dot(y - h, one)) / np.dot(one, one)
check(r < 1e-9, r)
'''),
 dict(id="c04-v-only-missing", property="C04",
  needs="a velocity record in which a sample of v alone is missing",
  breaks="samples of which only v is missing are kept, with v taken as zero",
  edits=[("utide/_solve.py", "            mask = np.ma.mask_or(np.ma.getmaskarray(vin), mask)\n", "            vin = np.ma.where(np.ma.getmaskarray(vin) & ~mask, 0.0, vin)\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
u, v = tides(t), tides(t, g=(130., 20., 200.))
v = v.copy(); v[[5, 100, 333]] = np.nan
ok = np.isfinite(v)
k = dict(K, constit=["M2", "K1", "S2"], conf_int="none")
a = solve(t, u, v, **k); b = solve(t[ok], u[ok], v[ok], **k)
check(np.allclose(a.Lsmaj, b.Lsmaj, atol=1e-6) and np.allclose(a.theta, b.theta, atol=1e-4), (a.Lsmaj, b.Lsmaj))
'''),
 dict(id="c04-inf", property="C04",
  needs="an infinite value in the times of an otherwise valid record",
  breaks="infinite times are no longer recognised as missing",
  edits=[("utide/_solve.py", "    tin = np.ma.masked_invalid(tin)\n", "    tin = np.ma.masked_where(np.isnan(tin), tin)\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = tides(t)
t2 = t.copy(); t2[[7, 200]] = np.inf, -np.inf
ok = np.isfinite(t2)
k = dict(K, constit=["M2", "K1", "S2"], conf_int="none")
b = solve(t2[ok], y[ok], **k)
try:
    a = solve(t2, y, **k)
except Exception as e:
    check(False, repr(e))
check(np.allclose(a.A, b.A, atol=1e-6), (a.A, b.A))
'''),
 dict(id="c05-epoch-time-of-day", property="C05",
  needs="a calendar epoch at an odd time of day",
  breaks="the epoch is rounded to about a minute",
  edits=[("utide/_time_conversion.py", "                ofs = _python_gregorian_datenum(epoch)\n", "                ofs = np.round(_python_gregorian_datenum(epoch), 3)\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = tides(t)
k = dict(lat=40.0, verbose=False, constit=["M2", "K1", "S2"], conf_int="none")
a = solve(t, y, epoch="python", **k)
b = solve(t - 730119.75 - 40 / 86400, y, epoch="1999-12-31 18:00:40", **k)
check(np.allclose(a.g, b.g, atol=1e-4), (a.g, b.g))
'''),
 dict(id="c05-seconds", property="C05",
  needs="instants with fractions of a second",
  breaks="times are truncated to whole seconds instead of milliseconds",
  edits=[("utide/_time_conversion.py", 'date = date.astype("datetime64[ms]")', 'date = date.astype("datetime64[s]").astype("datetime64[ms]")')],
  demo='''
t = np.datetime64("2001-02-03T04:05:06.700") + np.arange(500) * np.timedelta64(3599900, "ms")
d = (t - np.datetime64("0000-12-31")) / np.timedelta64(1, "us") / 86400e6
y = np.cos(d * 12) + np.sin(d * 6.3)
k = dict(lat=40.0, verbose=False, constit=["M2", "K1", "S2"], conf_int="none")
a = solve(t, y, **k); b = solve(d, y, epoch="python", **k)
check(abs(a.aux.reftime - b.aux.reftime) * 86400 < 0.002, (a.aux.reftime - b.aux.reftime) * 86400)
'''),
 dict(id="c07-elor", property="C07",
  needs="a record length between (n-1) dt and n dt of the Rayleigh limit of a constituent",
  breaks="the automatic selection uses n dt instead of the span between first and last time",
  edits=[("utide/_solve.py", 'opt["rmin"] / (24 * lor),', 'opt["rmin"] / (24 * elor),')],
  demo='''
df = utide.ut_constants.const.df
names = utide.ut_constants.const.name
n = 0
for hours in range(300, 800):
    t = 730120.0 + np.arange(hours + 1) / 24.
    if n >= 60: break
    want = set(names[df >= 1.0 / (24 * np.ptp(t))])
    other = set(names[df >= 1.0 / (24 * np.ptp(t) * (hours + 1) / hours)])
    if want == other: continue
    n += 1
    c = solve(t, np.cos(t * 12.), lat=40.0, verbose=False, epoch="python", conf_int="none")
    check(set(c.name) == want, sorted(set(c.name) ^ want))
check(n > 0, "no record length tried")
'''),
 dict(id="c07-strict", property="C07",
  needs="a Rayleigh_min that makes the limit equal to a tabulated separation exactly",
  breaks="a constituent whose separation equals the limit is left out",
  edits=[("utide/constituent_selection.py", "np.where(const.df >= minres)[0]", "np.where(const.df > minres)[0]")],
  demo='''
const = utide.ut_constants.const
t = 730120.0 + np.arange(0, 32, 1 / 24.)
lor = np.ptp(t)
n = 0
for k in np.flatnonzero(np.isfinite(const.df) & (const.df > 1e-3)):
    r = const.df[k] * 24 * lor
    if r / (24 * lor) != const.df[k]: continue
    n += 1
    c = solve(t, np.cos(t * 12.), lat=40.0, verbose=False, epoch="python", conf_int="none", Rayleigh_min=r)
    check(const.name[k] in c.name, const.name[k])
check(n > 0, "no limit tried")
'''),
 dict(id="c08-lsmin-ci", property="C08",
  needs="velocity, intervals, and an order different from the internal one",
  breaks="the intervals of the semi-minor axes stay in the internal order",
  edits=[("utide/_solve.py", "Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci", "Lsmaj Lsmaj_ci Lsmin theta theta_ci")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
r = np.random.RandomState(0)
u, v = tides(t) + .1 * r.randn(len(t)), tides(t, g=(130., 20., 200.)) + .3 * r.randn(len(t)) * (1 + np.cos(12.14 * t))
k = dict(K, constit=["M2", "K1", "S2", "O1", "M4", "M6"])
a = solve(t, u, v, order_constit=["M2", "K1", "S2", "O1", "M4", "M6"], **k)
b = solve(t, u, v, order_constit=["M6", "S2", "M2", "O1", "M4", "K1"], **k)
A, B = dict(zip(a.name, a.Lsmin_ci)), dict(zip(b.name, b.Lsmin_ci))
check(all(np.isclose(A[n], B[n]) for n in A), (A, B))
'''),
 dict(id="c09-diagn-snr", property="C09",
  needs="constituents whose order by SNR differs from their order by energy",
  breaks="the SNR of the summary is sorted by itself instead of by energy",
  edits=[("utide/diagnostics.py", 'coef["diagn"]["SNR"] = SNR[indPE]', 'coef["diagn"]["SNR"] = np.sort(SNR)[::-1]')],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
r = np.random.RandomState(0)
y = tides(t, names=("M2", "K1", "M6"), amp=(1., .3, .25)) + .2 * np.cumsum(r.randn(len(t)))
c = solve(t, y, constit=["M2", "K1", "M6"], **K)
a, b = dict(zip(c.name, c.SNR)), dict(zip(c.diagn["name"], c.diagn["SNR"]))
check(all(np.isclose(a[n], b[n]) for n in a), (a, b))
'''),
 dict(id="c10-rm-index", property="C10",
  needs="velocity, exact inference with several inferred constituents and more than one reference",
  breaks="the clockwise ratio of an inferred constituent is looked up by its position within its reference",
  edits=[("utide/constituent_selection.py", "infer.amp_ratios[ilk + nI]", "infer.amp_ratios[lk + nI]")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
r = np.random.RandomState(0)
u, v = np.cos(12.14 * t) + r.randn(len(t)), np.sin(6.3 * t) + r.randn(len(t))
inf = dict(inferred_names=["P1", "K2"], reference_names=["K1", "S2"], amp_ratios=[.3, .27, .5, .1], phase_offsets=[10., -20., 30., 5.])
c = solve(t, u, v, lat=40., epoch="python", verbose=False, constit=["M2", "O1", "K1", "S2"], infer=inf, conf_int="none")
d = {n: (a - b) / 2 for n, a, b in zip(c.name, c.Lsmaj, c.Lsmin)}
check(abs(d["K2"] / d["S2"] - .1) < 1e-9, d["K2"] / d["S2"])
check(abs(d["P1"] / d["K1"] - .5) < 1e-9)
'''),
 dict(id="c10-conj", property="C10",
  needs="velocity data that contain the inferred constituent, with a phase offset for the clockwise part",
  breaks="the clockwise part of the basis function uses the ratio with the wrong sign of the offset",
  edits=[("utide/_solve.py", "Qsum_m = (Q * np.conj(ref.I.Rm)).sum(axis=1)", "Qsum_m = (Q * np.conj(ref.I.Rm if nt % 2 else ref.I.Rp.conj())).sum(axis=1)")],
  demo='''
def run(t):
    k = dict(lat=40., epoch="python", verbose=False, conf_int="none")
    r = np.random.RandomState(0)
    names = ["M2", "K1", "P1"]
    c = solve(t, r.randn(len(t)), r.randn(len(t)), constit=names, order_constit=names, trend=False, **k)
    cp, cm = np.array([1., .5, .5 * .3]), np.array([.4, .3, .3 * .6])
    ep, em = np.array([10., 50., 50. + 20.]), np.array([70., 20., 20. - 35.])
    c.Lsmaj, c.Lsmin = cp + cm, cp - cm
    c.theta, c.g = (ep + em) / 2, (em - ep) / 2
    c.umean = c.vmean = 0.
    x = reconstruct(t, c, epoch="python", verbose=False)
    inf = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[.3, .6], phase_offsets=[20., 35.])
    s = solve(t, x.u, x.v, constit=["M2", "K1"], infer=inf, trend=False, **k)
    i = list(s.name).index("K1")
    check(abs(s.Lsmaj[i] - .8) < 1e-6, s.Lsmaj[i])
run(730120.0 + np.arange(501) / 24.)
run(730120.0 + np.arange(500) / 24.)
'''),
 dict(id="c11-beta", property="C11",
  needs="approximate inference on a record over which reference and inferred constituent drift apart",
  breaks="the correction of the reference uses twice the phase drift",
  edits=[("utide/_solve.py", "arg = np.pi * lor * 24 *", "arg = 2 * np.pi * lor * 24 *")],
  demo=REC + '''
inf = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[.3], phase_offsets=[-10.])
for start in range(0, 360, 30):
    t = 730120.0 + start + np.arange(0, 45, 1 / 24.)
    y = tides(t, names=("M2", "K1", "P1"), amp=(1., .5, .3 * .5), g=(40., 100., 110.))
    z = []
    for ap in (False, True):
        c = solve(t, y, constit=["M2", "K1"], infer=dict(inf, approximate=ap), conf_int="none", **dict(K, nodal=False))
        i = list(c.name).index("K1")
        z.append(c.A[i] * np.exp(1j * np.deg2rad(c.g[i])))
    check(abs(z[1] / z[0] - 1) < .05, (start, abs(z[1] / z[0] - 1)))
'''),
 dict(id="c12-min-pe", property="C12",
  needs="min_SNR=0 together with a positive min_PE",
  breaks="min_PE is ignored when min_SNR is zero",
  edits=[("utide/_reconstruct.py", '(min_SNR == 0 and min_PE == 0) or', 'min_SNR == 0 or')],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = tides(t)
c = solve(t, y, constit=["M2", "K1", "S2"], **K)
a = reconstruct(t, c, epoch="python", verbose=False, min_SNR=0, min_PE=50).h
b = reconstruct(t, c, epoch="python", verbose=False, constit=["M2"]).h
check(np.allclose(a, b, atol=1e-9), abs(a - b).max())
'''),
 dict(id="c12-boundary", property="C12",
  needs="a threshold equal to the SNR of a constituent",
  breaks="a constituent whose SNR equals min_SNR is left out",
  edits=[("utide/_reconstruct.py", "np.logical_and(SNR >= min_SNR, PE >= min_PE)", "np.logical_and(SNR > min_SNR, PE >= min_PE)")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = tides(t) + np.random.RandomState(0).randn(len(t))
c = solve(t, y, constit=["M2", "K1", "S2"], **K)
for i in range(3):
    n = [k for k, s in zip(c.name, c.SNR) if s >= c.SNR[i]]
    a = reconstruct(t, c, epoch="python", verbose=False, min_SNR=c.SNR[i]).h
    b = reconstruct(t, c, epoch="python", verbose=False, constit=n).h
    check(np.allclose(a, b, atol=1e-9), abs(a - b).max())
'''),
 dict(id="c13-cache", property="C13",
  needs="two calls with records of the same number of samples, first and last time, but different times between",
  breaks="the basis functions of the previous call are reused when the number of samples, the ends and the options agree",
  edits=[("utide/harmonics.py", "def FUV(t, tref, lind, lat, ngflgs):", "_fuv_cache = {}\n\n\ndef FUV(t, tref, lind, lat, ngflgs):"),
   ("utide/harmonics.py", "        F, U, V = FUV(t, tref, lind, lat, ngflgs)\n", """        key = (nt, t[0], t[-1], tref, lind.tobytes(), lat, tuple(ngflgs)) if nt else None
        if key not in _fuv_cache:
            _fuv_cache.clear()  # One entry is enough.
            _fuv_cache[key] = FUV(t, tref, lind, lat, ngflgs)
        F, U, V = _fuv_cache[key]
""")],
  demo=REC + '''
x = np.linspace(0, 1, 600)
t1 = 730120.0 + 20 * x
t2 = t1 + 3 * x * (1 - x)
t2[-1] = t1[-1]
y = tides(np.append(t2, 730199.))[:-1]
k = dict(K, constit=["M2", "K1", "S2"], conf_int="none")
reconstruct([730000.], solve(t2[:300], y[:300], **k), epoch="python", verbose=False)
b = solve(t2, y, **k)
solve(t2[:300], y[:300], **k)
solve(t1, y, **k)
c = solve(t2, y, **k)
check(np.array_equal(b.A, c.A) and np.array_equal(b.g, c.g), (b.A, c.A))
'''),
 dict(id="c13-inplace-matlab", property="C13",
  needs="epoch 'matlab' with an array of floats that is used again",
  breaks="the caller's times are shifted in place",
  edits=[("utide/_time_conversion.py", "            return t - 366\n", "            t -= 366\n            return t\n")],
  demo='''
t = 730486.0 + np.arange(0, 20, 1 / 24.)
t0 = t.copy()
c = solve(t, np.cos(12 * t), lat=40., epoch="matlab", verbose=False, constit=["M2", "K1"])
check(np.array_equal(t, t0), "times modified by solve")
reconstruct(t, c, epoch="matlab", verbose=False)
check(np.array_equal(t, t0), "times modified by reconstruct")
'''),
 dict(id="c14-scratch", property="C14",
  needs="two threads within linearized_freqs at the same time, with different reference dates",
  breaks="the frequencies are computed in a buffer shared by all threads",
  edits=[("utide/harmonics.py", "def linearized_freqs(tref):", "_freq_work = const.freq.copy()  # avoids an allocation per call\n\n\ndef linearized_freqs(tref):"),
   ("utide/harmonics.py", "    freq = const.freq.copy()\n", "    freq = _freq_work\n    freq[:] = const.freq\n"),
   ("utide/harmonics.py", "].sum()\n    return freq\n" if False else "        freq[k] = (freq[shallow.iname[ik] - 1] * shallow.coef[ik]).sum()\n    return freq\n", "        freq[k] = (freq[shallow.iname[ik] - 1] * shallow.coef[ik]).sum()\n    return freq.copy()\n")],
  demo='''
import threading
t1 = 700000.0 + np.arange(0, 8, 1 / 12.)
t2 = t1 + 60000
k = dict(lat=40., epoch="python", verbose=False, conf_int="none", nodal=False, phase="raw", constit=["M2", "K1", "M4", "2MK5"])
y = np.cos(12.14 * (t1 - 700000))
want = [solve(t, y, **k).aux.frq for t in (t1, t2)]
sys.setswitchinterval(1e-6)
bad = []
def tracer(frame, event, arg):
    # Let the other thread run between any two lines of the library.
    if os.sep + "utide" + os.sep in frame.f_code.co_filename:
        threading_yield(); return tracer
import time
def threading_yield(): time.sleep(0)
def work(i, t):
    sys.settrace(tracer)
    for _ in range(60):
        if bad: return
        f = solve(t, y, **k).aux.frq
        if not np.array_equal(f, want[i]): bad.append((i, f - want[i]))
ths = [threading.Thread(target=work, args=(i, t)) for i, t in enumerate((t1, t2))]
[x.start() for x in ths]; [x.join() for x in ths]
check(not bad, bad[:1])
'''),
 dict(id="c15-seterr", property="C15",
  needs="a reconstruction that is aborted while the thresholds are compared",
  breaks="numpy's error state is switched by hand and not restored when the call is aborted",
  edits=[("utide/_reconstruct.py", """        with np.errstate(invalid="ignore"):
            ind = np.logical_and(SNR >= min_SNR, PE >= min_PE)
""", """        old = np.seterr(invalid="ignore")
        ind = np.logical_and(SNR >= min_SNR, PE >= min_PE)
        np.seterr(**old)
""")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
c = solve(t, tides(t), constit=["M2", "K1", "S2"], **K)
old = np.geterr()
class Stop:
    __array_ufunc__ = None
    def __le__(self, other): raise KeyboardInterrupt
    def __eq__(self, other): return False
    __hash__ = None
try:
    reconstruct(t, c, epoch="python", verbose=False, min_SNR=Stop())
except BaseException as e:
    pass
check(np.geterr() == old, np.geterr())
'''),
 dict(id="c16-floor", property="C16",
  needs="data in large units, of residual variance below 1e-10",
  breaks="the residual variance has an absolute lower limit",
  edits=[("utide/confidence.py", "    gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * varMSM\n", "    gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * max(varMSM, 1e-10)\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = tides(t) + .1 * np.random.RandomState(0).randn(len(t))
k = dict(K, constit=["M2", "K1", "S2"], white=True)
a, b = solve(t, y, **k), solve(t, y * 1e-6, **k)
check(np.allclose(a.A_ci * 1e-6, b.A_ci, rtol=1e-6, atol=0), b.A_ci / a.A_ci)
'''),
 dict(id="c17-linci-minor", property="C17",
  needs="velocity with unequal noise in u and v (white intervals), and a frame turned by 90 degrees",
  breaks="the propagation of the error of the v cosine coefficient into the semi-minor axis has the wrong sign",
  edits=[("utide/confidence.py", "        dXv2 = (0.25 * (hx + gx)) ** 2\n", "        dXv2 = (0.25 * (hx - gx)) ** 2\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
r = np.random.RandomState(0)
u, v = tides(t) + .01 * r.randn(len(t)), tides(t, g=(130., 20., 200.), amp=(.4, .2, .2)) + .3 * r.randn(len(t))
k = dict(K, constit=["M2", "K1", "S2"], white=True, order_constit=["M2", "K1", "S2"])
a, b = solve(t, u, v, **k), solve(t, -v, u, **k)
check(np.allclose(a.Lsmin_ci, b.Lsmin_ci, rtol=1e-6), (a.Lsmin_ci, b.Lsmin_ci))
'''),
 dict(id="c18-rectilinear", property="C18",
  needs="an ellipse that is nearly a line",
  breaks="small semi-minor axes are rounded to zero, so the ellipse is not the fitted motion",
  edits=[("utide/ellipse_params.py", "    Lsmin = Ap - Am\n", "    Lsmin = np.where(np.abs(Ap - Am) < 1e-3 * Lsmaj, 0.0, Ap - Am)  # rectilinear\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
u = tides(t); v = tides(t, g=(130., 100., 310.), amp=(5e-4, .2, .1))
c = solve(t, u, v, constit=["M2", "K1", "S2"], **K)
x = reconstruct(t, c, epoch="python", verbose=False, min_SNR=0)
check(abs(x.v - v).max() < 1e-6, abs(x.v - v).max())
'''),
 dict(id="c19-dof", property="C19",
  needs="white intervals of a model with trend on a short record",
  breaks="the trend is not counted among the parameters of the model",
  edits=[("utide/confidence.py", "    nm = B.shape[1]\n", "    nm = 2 * len(Xu) + 1\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 1.25, 1 / 24.)
y = tides(t) + np.random.RandomState(0).randn(len(t))
c = solve(t, y, constit=["M2"], white=True, **dict(K, nodal=False, phase="raw"))
w = 2 * np.pi * c.aux.frq[0] * 24
x = t - c.aux.reftime
M = np.array([np.cos(w * x), np.sin(w * x), np.ones_like(x), x]).T
b = np.linalg.lstsq(M, y, rcond=None)[0]
s2 = ((y - M @ b) ** 2).sum() / (len(t) - 4)
C = np.linalg.inv(M.T @ M) * s2
a = np.hypot(b[0], b[1])
s = np.sqrt((b[0] ** 2 * C[0, 0] + b[1] ** 2 * C[1, 1]) / a ** 2)
check(abs(c.A_ci[0] / (1.96 * s) - 1) < 1e-6, c.A_ci[0] / (1.96 * s))
'''),
 dict(id="c20-gap-zeros", property="C20",
  needs="an evenly sampled record with gaps, noise with a large low-frequency part, coloured intervals",
  breaks="gaps of the residual are filled with zeros instead of being bridged by interpolation",
  edits=[("utide/confidence.py", "            e_ = complex_interp(tin, t, e)\n", "            e_ = np.zeros(len(tin), dtype=e.dtype)\n            e_[np.isin(tin, t)] = e\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
y = tides(t) + 3 * np.cos(2 * np.pi * t / 4.)
y2 = y.copy(); y2[7::16] = np.nan; y2[8::16] = np.nan
k = dict(K, constit=["M2", "K1", "S2"])
a, b = solve(t, y, **k), solve(t, y2, **k)
check(np.all(b.A_ci < 4 * a.A_ci), b.A_ci / a.A_ci)
'''),
 dict(id="c20-lor", property="C20",
  needs="coloured intervals of velocity",
  breaks="the power of v is not scaled by the record length when it is converted from the spectral density",
  edits=[("utide/confidence.py", "        ba.Pvv *= df\n        ba.Puv *= df\n", "        ba.Puv *= df\n        ba.Pvv *= 1 / (24 * np.ptp(tin))\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 2.0, 1 / 24.)
u = tides(t) + np.random.RandomState(0).randn(len(t)); 
k = dict(K, constit=["M2"], trend=False)
a = solve(t, u, 0 * u + np.random.RandomState(1).randn(len(t)) * .0 + u, **k)
# u and v are the same series: the errors of the minor axis vanish with those of u equal to those of v
b = solve(t, u, -u, **k)
check(np.allclose(a.Lsmaj_ci, b.Lsmaj_ci))
e = solve(t, u, **k)
check(np.allclose(a.Lsmaj_ci[0], np.sqrt(2) * e.A_ci[0] / np.sqrt(2), rtol=1e-6), (a.Lsmaj_ci[0], e.A_ci[0]))
'''),
 dict(id="c21-print", property="C21",
  needs="a robust fit that uses up its iterations, with verbose=False",
  breaks="a message is printed although verbose is False",
  edits=[("utide/robustfit.py", "        iterations = maxit  # Did not converge.\n", '        print("robustfit: not converged")\n        iterations = maxit\n')],
  demo=REC + '''
import io, contextlib
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = tides(t) + np.random.RandomState(0).standard_t(1.5, len(t))
f = io.StringIO()
with contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
    solve(t, y, constit=["M2", "K1", "S2"], method="robust", robust_kw=dict(weight_function="cauchy", maxit=2), **K)
check(f.getvalue() == "", f.getvalue())
'''),
 dict(id="c22-oldw", property="C22",
  needs="a robust fit whose last iteration makes things worse",
  breaks="after going back to the previous solution the weights of the rejected one are reported",
  edits=[("utide/robustfit.py", "                b, rsumsq, rank, sing = oldlstsq\n                w = oldw\n", "                b, rsumsq, rank, sing = oldlstsq\n")],
  demo='''
from utide.harmonics import ut_E
t = 730120.0 + np.arange(0, 8, 1 / 24.)
n = 0
for seed in range(60):
    for wf in ("talwar", "bisquare", "andrews"):
        r = np.random.RandomState(seed)
        y = np.cos(12.14 * t) + r.standard_t(1.2, len(t))
        try:
            c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["M2", "K1"], method="robust", trend=False, nodal=False, phase="raw",
                  robust_kw=dict(weight_function=wf), conf_int="none", order_constit=["M2", "K1"])
        except Exception:
            continue
        x = 2 * np.pi * 24 * (t - c.aux.reftime)[:, None] * c.aux.frq
        M = np.hstack([np.cos(x), np.sin(x), np.ones((len(t), 1))])
        w = c.weights
        if np.linalg.cond(w[:, None] * M) > 1e6: continue
        b = np.linalg.lstsq(w[:, None] * M, w * y, rcond=None)[0]
        n += 1
        check(np.allclose(np.hypot(b[:2], b[2:4]), c.A, atol=1e-6), (seed, wf, np.hypot(b[:2], b[2:4]), c.A))
check(n > 20, n)
'''),
 dict(id="c23-infer-lengths", property="C23",
  needs="an inference request in which only the phase offsets have the wrong length",
  breaks="the request is accepted when only one of ratios and offsets has the wrong length",
  edits=[("utide/_solve.py", "if len(infer.amp_ratios) != nratios or len(infer.phase_offsets) != nratios:", "if len(infer.amp_ratios) != nratios and len(infer.phase_offsets) != nratios:")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
k = dict(lat=40., epoch="python", verbose=False, constit=["M2", "K1"], conf_int="none")
for off in ([10., 20.], [10., 20., 30.]):
    try:
        solve(t, np.cos(12 * t), infer=dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[.3], phase_offsets=off), **k)
    except (ValueError, KeyError, TypeError, NotImplementedError):
        continue
    check(False, "accepted")
'''),
 dict(id="c24-update-none-falsy", property="C24",
  needs="update_None on a Bunch with a value that is false but not None",
  breaks="update_None also replaces values like 0, False and ''",
  edits=[("utide/utilities.py", "if k in self and self[k] is None}", "if k in self and not self[k]}")],
  demo='''
from utide.utilities import Bunch
b = Bunch(a=0, c=None, d="", e=[])
b.update_None(a=1, c=2, d=3, e=4, f=5)
check(dict(b) == dict(a=0, c=2, d="", e=[]), dict(b))
'''),
 dict(id="c25-south", property="C25",
  needs="a southern latitude poleward of 5 degrees",
  breaks="all southern latitudes are treated as 5 degrees south",
  edits=[("utide/harmonics.py", "        if abs(lat) < 5:\n", "        if lat < 5:\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
k = dict(epoch="python", verbose=False, conf_int="none", constit=["O1", "M2", "K1"], order_constit=["O1", "M2", "K1"])
y = np.cos(12 * t) + np.cos(5.84 * t)
a, b = solve(t, y, lat=-50., **k), solve(t, y, lat=-5., **k)
c = solve(t, y, lat=50., **k)
check(not np.allclose(a.A, b.A, rtol=1e-12), "-50 and -5 give the same")
'''),
 dict(id="c27-covariance", property="C27",
  needs="Monte-Carlo intervals of velocity with noise of very different size in u and v, white",
  breaks="the covariance block of v is simulated with the variances of u and v exchanged in sine and cosine",
  edits=[("utide/confidence.py", "                Dvv = np.array([[varXv, covXvYv], [covXvYv, varYv]])\n", "                Dvv = np.array([[varXv, covXvYv], [covXvYv, varYu]])\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
r = np.random.RandomState(0)
u = tides(t, g=(0., 20., 310.)) + .5 * r.randn(len(t)); v = tides(t, g=(270., 290., 220.), amp=(3., 2., 2.)) + .001 * r.randn(len(t))
k = dict(K, constit=["M2", "K1", "S2"], order_constit=["M2", "K1", "S2"], white=True)
np.random.seed(0)
a, b = solve(t, u, v, conf_int="MC", **k), solve(t, u, v, conf_int="linear", **k)
check(np.all(a.Lsmaj_ci < 2 * b.Lsmaj_ci), (a.Lsmaj_ci, b.Lsmaj_ci))
'''),
 dict(id="c28-nyquist", property="C28",
  needs="a residual with energy at the Nyquist frequency",
  breaks="the value at the Nyquist frequency is doubled",
  edits=[("utide/periodogram.py", "    cs[1:-1] *= 2\n", "    cs[1:] *= 2\n")],
  demo='''
from utide.periodogram import band_psd
n = 480
t = np.arange(n) / 24.
e = np.where(np.arange(n) % 2, 1., -1.)
w = .5 - .5 * np.cos(2 * np.pi * np.arange(n) / n)
P = band_psd(t, e, [0.08], equi=True)
f = np.arange(n // 2 + 1) / n
S = np.abs(np.fft.rfft((e - e.mean()) * w)) ** 2 / (w ** 2).sum()
S[1:-1] *= 2
k0, k1 = np.searchsorted(f, [.3, .5]); k1 = min(len(f), k1 + 1)
check(np.isclose(P.Puu[-1], S[k0:k1].mean(), rtol=1e-9), P.Puu[-1] / S[k0:k1].mean())
'''),
 dict(id="c29-shared-flags", property="C29",
  needs="another solve, with other nodal or phase options, between a solve and its reconstruction",
  breaks="coefficient sets share one list of flags that every solve overwrites",
  edits=[("utide/_solve.py", '    ngflgs = [opt["nodsatlint"], opt["nodsatnone"], opt["gwchlint"], opt["gwchnone"]]\n',
    '    _ngflgs[:] = [opt["nodsatlint"], opt["nodsatnone"], opt["gwchlint"], opt["gwchnone"]]\n    ngflgs = coef.aux.ngflgs = _ngflgs\n'),
    ("utide/_solve.py", "def _process_opts(opts, is_2D):\n", "_ngflgs = [0, 0, 0, 0]\n\n\ndef _process_opts(opts, is_2D):\n"),
    ("utide/_reconstruct.py", '''    ngflgs = [
        coef["aux"]["opt"]["nodsatlint"],
        coef["aux"]["opt"]["nodsatnone"],
        coef["aux"]["opt"]["gwchlint"],
        coef["aux"]["opt"]["gwchnone"],
    ]
''', '''    ngflgs = coef["aux"]["ngflgs"]
''')],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = tides(t)
k = dict(K, constit=["M2", "K1", "S2"])
c = solve(t, y, **k)
h = reconstruct(t, c, epoch="python", verbose=False).h
solve(t, y, phase="raw", nodal=False, **k)
h2 = reconstruct(t, c, epoch="python", verbose=False).h
check(np.array_equal(h, h2), abs(h - h2).max())
'''),
 dict(id="c30-mutated-table", property="C30",
  needs="a solve or reconstruct before the tables are read",
  breaks="computing the frequencies of a date overwrites the public table of frequencies",
  edits=[("utide/harmonics.py", "    freq = const.freq.copy()\n", "    freq = const.freq\n")],
  demo='''
f0 = utide.ut_constants.const.freq.copy()
t = 767000.0 + np.arange(0, 20, 1 / 24.)
solve(t, np.cos(12 * t), lat=40., epoch="python", verbose=False, constit=["M2", "K1"])
f1 = utide.ut_constants.const.freq
check(np.array_equal(f0, f1), np.nanmax(abs(f0 - f1)))
check(all(utide.cycles_per_hour[n] == f for n, f in zip(utide.ut_constants.const.name, f1)))
'''),
 dict(id="c30-round", property="C30",
  needs="the periods of the table, compared in full precision",
  breaks="periods are rounded to a second or so",
  edits=[("utide/_ut_constants.py", "zip(_uc.name, 1 / _uc.freq, strict=False)", "zip(_uc.name, np.round(1 / _uc.freq, 4), strict=False)")],
  demo='''
for n, f in utide.cycles_per_hour.items():
    p = utide.hours_per_cycle[n]
    check(f == 0 or abs(p * f - 1) < 1e-12, (n, p * f - 1))
'''),
 dict(id="c25-abs-slat", property="C25",
  needs="a southern latitude and a constituent with diurnal third-degree satellites",
  breaks="the latitude factor of the second kind has no sign in the southern hemisphere",
  edits=[("utide/harmonics.py", "        rr[j] *= 2.59808 * slat\n", "        rr[j] *= 2.59808 * np.abs(slat)\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
n = ["M2", "N2", "L2", "O1", "M3"]
k = dict(epoch="python", verbose=False, conf_int="none", constit=n, order_constit=n)
y = np.cos(12.14 * t) + np.cos(5.84 * t)
from utide.harmonics import FUV
const, sat = utide.ut_constants.const, utide.ut_constants.sat
ind = np.arange(len(const.name))
ok = np.array([np.all(sat.ilatfac[sat.iconst == i + 1] != 1) for i in ind])
hit = ok & np.array([np.any(sat.ilatfac[sat.iconst == i + 1] == 2) for i in ind])
check(hit.any(), "no such constituent")
F1 = FUV(t[:3], t[0], ind, 40., [0, 0, 0, 0])[0]
F2 = FUV(t[:3], t[0], ind, -40., [0, 0, 0, 0])[0]
check(not np.allclose(F1[:, hit], F2[:, hit], rtol=1e-12), "same in both hemispheres")
'''),
 dict(id="c26-linear-shortcut", property="C26",
  needs="phase='linear_time' together with nodal=False",
  breaks="without nodal corrections the shortcut for raw phases is also taken for linear_time, so phases are not Greenwich phases",
  edits=[("utide/harmonics.py", "    if ngflgs[1] and ngflgs[3]:\n", "    if ngflgs[1] and (ngflgs[2] or ngflgs[3]):\n")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
y = tides(t)
k = dict(K, constit=["M2", "K1", "S2"], nodal=False, conf_int="none", order_constit=["M2", "K1", "S2"])
a, b = solve(t, y, phase="Greenwich", **k), solve(t, y, phase="linear_time", **k)
check(np.all(abs((a.g - b.g + 180) % 360 - 180) < 1), (a.g, b.g))
'''),

 dict(id="c27-generator", property="C27",
  needs="Monte-Carlo intervals of velocity with white noise, twice with the same numpy seed",
  breaks="the simulation uses a generator of its own, so the intervals are not reproducible under a numpy seed",
  edits=[("utide/confidence.py", """                else:
                    mCall = np.random.multivariate_normal(
                        (Xu[c], Yu[c], Xv[c], Yv[c]),
""", """                else:
                    mCall = np.random.default_rng().multivariate_normal(
                        (Xu[c], Yu[c], Xv[c], Yv[c]),
""")],
  demo=REC + '''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
r = np.random.RandomState(0)
u, v = tides(t) + .1 * r.randn(len(t)), tides(t, g=(1., 2., 3.)) + .1 * r.randn(len(t))
k = dict(K, constit=["M2", "K1", "S2"], white=True, conf_int="MC", MC_n=50)
np.random.seed(0); a = solve(t, u, v, **k)
np.random.seed(0); b = solve(t, u, v, **k)
check(np.array_equal(a.Lsmaj_ci, b.Lsmaj_ci), (a.Lsmaj_ci, b.Lsmaj_ci))
'''),
 dict(id="c28-nearest", property="C28",
  needs="a residual with energy at a constituent frequency in the upper half of a frequency step",
  breaks="the spectral value next below the constituent frequency is left out instead of the nearest one",
  edits=[("utide/periodogram.py", "        i_constit = np.round(np.interp(cfreq, freq, indices)).astype(int)\n", "        i_constit = np.interp(cfreq, freq, indices).astype(int)\n")],
  demo='''
from utide.periodogram import band_psd
n = 960
t = np.arange(n) / 24.
e = np.random.RandomState(0).randn(n)
w = .5 - .5 * np.cos(2 * np.pi * np.arange(n) / n)
f = np.arange(n // 2 + 1) / n
S = np.abs(np.fft.rfft((e - e.mean()) * w)) ** 2 / (w ** 2).sum()
S[1:-1] *= 2
k0, k1 = np.searchsorted(f, [.07218, .08884]); k1 += 1
for j in range(k0 + 1, k1 - 2):
    P = band_psd(t, e, [f[j] + .3 / n, f[j + 1] + .7 / n], equi=True)
    keep = np.ones(len(f), bool); keep[[j, j + 2]] = False
    want = S[k0:k1][keep[k0:k1]].mean()
    check(np.isclose(P.Puu[2], want, rtol=1e-6), (j, P.Puu[2], want))
'''),
]
