"""Planted bugs, third set."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

BUGS = [
 dict(id="c03-normal-long", property="C03",
  needs="a record of more than 20000 samples, with large values",
  breaks="long records are solved in single precision",
  edits=[("utide/_solve.py", """            m = np.linalg.lstsq(B, xraw, rcond=None)[0]
""", """            # lstsq needs a second copy of the model
            Bc = B.astype(np.complex64) if nt > 20000 else B
            m = np.linalg.lstsq(Bc, xraw, rcond=None)[0]
""")],
  demo='''
t = 730120.0 + np.arange(0, 250, 1 / 96.)
rng = np.random.RandomState(1)
y = np.cos(12.14 * t) + 0.2 * rng.randn(len(t)) + 3
from utide.harmonics import ut_E
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["K1", "M2", "S2", "O1"], conf_int="none")
r = y - reconstruct(t, c, epoch="python", verbose=False).h
check(abs(r.mean()) < 1e-11, r.mean())
E = ut_E(t, c.aux.reftime, c.aux.frq, c.aux.lind, 40., [0, 0, 0, 0], [])
check(np.abs(E.conj().T @ r).max() / len(t) < 1e-11, np.abs(E.conj().T @ r).max() / len(t))
'''),
 dict(id="c05-whole-days", property="C05",
  needs="whole days as times, and an epoch with a time of day",
  breaks="with whole days as times, the time of day of the epoch is lost",
  edits=[("utide/_time_conversion.py", "                return t + ofs\n", "                return t + (ofs if (t % 1).any() else np.floor(ofs))\n")],
  demo='''
t = np.arange(0, 400)
y = np.cos(2.1 * t)
k = dict(lat=40., verbose=False, constit=["MF", "MM"], conf_int="none")
a = solve(t, y, epoch="2000-01-01 18:00", **k)
b = solve(t + 730120 + 0.75, y, epoch="python", **k)
check(abs(a.aux.reftime - b.aux.reftime) < 1e-6, (a.aux.reftime, b.aux.reftime))
'''),
 dict(id="c07-tabulated", property="C07",
  needs="dates away from the epoch of the table, where the frequencies of the reference date differ from the tabulated ones",
  breaks="the solution carries the tabulated frequencies instead of those of its reference date",
  edits=[("utide/constituent_selection.py", "    cnstit.NR.frq = freqs[cnstit.NR.lind]\n", "    cnstit.NR.frq = const.freq[cnstit.NR.lind]\n")],
  demo='''
from utide.harmonics import linearized_freqs
t = 600000.0 + np.arange(0, 30, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["K1", "M2"], conf_int="none")
check(np.allclose(c.aux.frq, linearized_freqs(c.aux.reftime)[c.aux.lind], rtol=1e-13, atol=0), c.aux.frq)
'''),
 dict(id="c08-lsmaj-order", property="C08",
  needs="velocity constituents of nearly the same major axis and different shapes",
  breaks="the energy order of velocity constituents looks at the major axis only",
  edits=[("utide/_solve.py", '        ind = coef["PE"].argsort()[::-1]\n', '        ind = coef["Lsmaj" if opt["twodim"] else "PE"].argsort()[::-1]\n')],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
u = np.cos(2 * np.pi * 1.93227 * t) + 0.98 * np.cos(2 * np.pi * 1.00274 * t)
v = 0.98 * np.sin(2 * np.pi * 1.00274 * t)
c = solve(t, u, v, lat=40., epoch="python", verbose=False, constit=["K1", "M2"], nodal=False, phase="raw")
check((np.diff(c.PE) <= 0).all(), c.PE)
'''),
 dict(id="c12-empty-list", property="C12",
  needs="an empty list of constituents",
  breaks="an empty selection means all constituents instead of none",
  edits=[("utide/_reconstruct.py", "    if constit is not None:\n", "    if constit is not None and len(constit) > 0:\n")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
c = solve(t, np.cos(12.14 * t) + 2, lat=40., epoch="python", verbose=False, constit=["K1", "M2"], trend=False)
h = reconstruct(t, c, epoch="python", verbose=False, constit=[]).h
check(np.ptp(h) < 1e-12, np.ptp(h))
'''),
 dict(id="c16-fill-values", property="C16",
  needs="data of 1e20 or more, for example in very small units",
  breaks="huge values are taken for fill values and ignored",
  edits=[("utide/_solve.py", """    uin = np.ma.masked_invalid(uin)
""", """    uin = np.ma.masked_where(~(np.abs(uin) < 1e20), uin)  # netCDF fill values, too
""")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
y = np.cos(12.14 * t) + 1.1
k = dict(lat=40., epoch="python", verbose=False, constit=["K1", "M2"], conf_int="none")
a = solve(t, y, **k)
b = solve(t, 1e20 * y, **k)
check(np.allclose(a.A, b.A / 1e20, rtol=1e-9) and len(a.weights) == len(b.weights))
'''),
 dict(id="c20-band-limit", property="C28",
  needs="frequencies at the upper end of the diurnal band (SO1, OO1, UPS1)",
  breaks="the diurnal band ends too early, so its highest constituents have no spectrum",
  edits=[("utide/periodogram.py", "        [0.03192, 0.04859],  # diurnal\n", "        [0.03192, 0.04459],  # diurnal\n")],
  demo='''
t = 730120.0 + np.arange(0, 60, 1 / 24.)
y = np.random.RandomState(0).randn(len(t))
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["UPS1", "M2"])
check((c.A_ci > 0).all(), c.A_ci)
'''),
 dict(id="c23-scalar-v", property="C23",
  needs="a v of length one",
  breaks="a single v value is accepted for all times",
  edits=[("utide/_solve.py", "    if vin is not None and vin.shape != uin.shape:\n", "    if vin is not None and vin.size != 1 and vin.shape != uin.shape:\n")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
for v in ([0.5], np.zeros(1), np.zeros(7), np.zeros((len(t), 1))):
    try:
        solve(t, np.cos(12.14 * t), v, lat=40., epoch="python", verbose=False, constit=["K1", "M2"])
    except (ValueError, TypeError):
        continue
    check(False, np.shape(v))
'''),
 dict(id="c24-underscore", property="C24",
  needs="an attribute name that starts with an underscore",
  breaks="names with a leading underscore become instance attributes outside the dictionary",
  edits=[("utide/utilities.py", """    def __setattr__(self, name, value):
        self[name] = value
""", """    def __setattr__(self, name, value):
        if name.startswith("_"):
            self.__dict__[name] = value
        else:
            self[name] = value
""")],
  demo='''
from utide.utilities import Bunch
b = Bunch()
b._x = 1
check(b == {"_x": 1} and b["_x"] == 1, dict(b))
'''),
 dict(id="c25-before-1900", property="C25",
  needs="dates before 1900",
  breaks="the astronomical polynomials are clipped at their origin, 1899-12-31",
  edits=[("utide/astronomy.py", "    D = d / 10000\n", "    D = np.maximum(d, 0) / 10000  # the formulas hold from 1900\n")],
  demo='''
from utide.astronomy import ut_astron
from datetime import date
t = np.array([date(1850, 1, 1).toordinal() + 0.0])
a, _ = ut_astron(t)
d = t[0] - 693595.5; D = d / 1e4
s = (270.434164 + 13.1763965268 * d - 8.5e-5 * D**2 + 3.9e-8 * D**3) / 360
check(abs((a[1, 0] - s + 0.5) % 1 - 0.5) < 1e-9, (a[1, 0], s))
'''),
 dict(id="c31-reftime-rounded", property="C31",
  needs="a record whose middle is not a whole minute, and 'raw' phases",
  breaks="the recorded reference time is rounded to minutes, while the fit used the exact one",
  edits=[("utide/constituent_selection.py", "        reftime=tref,\n", "        reftime=np.round(tref * 1440) / 1440,\n")],
  demo='''
t = 730120.0 + 0.0003 + np.arange(0, 30, 1 / 24.)
y = np.cos(12.14 * t)
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["K1", "M2"], phase="raw", nodal=False, conf_int="none")
h = reconstruct(t, c, epoch="python", verbose=False).h
B = np.column_stack([f(2 * np.pi * 24 * q * (t - 730135)) for q in c.aux.frq for f in (np.cos, np.sin)] + [np.ones_like(t), t - 730135])
fit = B @ np.linalg.lstsq(B, y, rcond=None)[0]
check(np.abs(h - fit).max() < 1e-6, np.abs(h - fit).max())
'''),
 dict(id="c33-empty", property="C33",
  needs="an empty array in the data file",
  breaks="an empty array in a data file is loaded as None",
  edits=[("utide/utilities.py", """    if arr.size == 1:
        arr = arr.item()""", """    if arr.size <= 1:
        arr = arr.item() if arr.size else None  # Matlab's []""")],
  demo='''
import tempfile
from utide.utilities import loadbunch
with tempfile.TemporaryDirectory() as d:
    np.savez(d + "/a.npz", x=np.zeros((0, 3)), y=np.arange(3.))
    b = loadbunch(d + "/a.npz")
check(isinstance(b.x, np.ndarray) and b.x.size == 0, b)
'''),
 dict(id="c34-spacing", property="C34",
  needs="covariances in small units (elements of 1e12 and more, or of 1e-12)",
  breaks="the adjustment towards positive definiteness has an absolute size",
  edits=[("utide/confidence.py", "        Ahat[np.diag_indices(n)] += np.spacing(maxeig)\n", "        Ahat[np.diag_indices(n)] += np.spacing(max(maxeig, 1.0))\n")],
  demo='''
from utide.confidence import nearestSPD
A = np.diag([1e-25, 2e-25])
B = nearestSPD(A)
check(np.allclose(A, B, rtol=1e-6, atol=0), B)
'''),
 dict(id="c36-positional", property="C36",
  needs="arguments of reconstruct given by position",
  breaks="two arguments of reconstruct have changed places",
  edits=[("utide/_reconstruct.py", """    verbose=True,
    constit=None,
    min_SNR=2,
    min_PE=0,
):""", """    verbose=True,
    constit=None,
    min_PE=0,
    min_SNR=2,
):""")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
c = solve(t, np.cos(12.14 * t) + 0.3 * np.random.RandomState(0).randn(len(t)), lat=40., epoch="python", verbose=False)
a = reconstruct(t, c, "python", False, None, 2, 20)
b = reconstruct(t, c, epoch="python", verbose=False, constit=None, min_SNR=2, min_PE=20)
check(a.min_SNR == 2 and a.min_PE == 20, (a.min_SNR, a.min_PE))
'''),
 dict(id="c37-long-leverage", property="C37",
  needs="a robust fit of more than 2000 samples",
  breaks="for long records the leverage of every sample is taken as the mean leverage",
  edits=[("utide/robustfit.py", '    hdiag = np.einsum("ij, ij -> j", x.T, np.linalg.pinv(x))\n', '''    if len(x) > 2000:  # the hat matrix is expensive
        hdiag = np.full(len(x), np.linalg.matrix_rank(x) / len(x))
    else:
        hdiag = np.einsum("ij, ij -> j", x.T, np.linalg.pinv(x))
''')],
  demo='''
from utide.robustfit import leverage
x = np.column_stack([np.ones(2500), np.linspace(-1, 1, 2500)])
q = np.linalg.qr(x)[0]
check(np.allclose(leverage(x), (q**2).sum(axis=1), rtol=1e-6, atol=0))
'''),
 dict(id="c37-tune-ignored", property="C37",
  needs="a tuning parameter of one's own",
  breaks="tuning parameters below the default of the weight function are replaced by the default",
  edits=[("utide/robustfit.py", "    if tune is None:\n        tune = tune_defaults[weight_function]\n", "    if tune is None or tune < tune_defaults[weight_function]:\n        tune = tune_defaults[weight_function]  # keeps 95% efficiency\n")],
  demo='''
from utide.robustfit import robustfit
rng = np.random.RandomState(0)
x = np.column_stack([np.ones(200), rng.randn(200)]); y = x @ [1, 2.] + rng.standard_t(2, 200)
a = robustfit(x, y, "huber", tune=0.3)
b = robustfit(x, y, "huber")
check(a.w.sum() < b.w.sum() - 5, (a.w.sum(), b.w.sum()))
'''),
 dict(id="c37-maxit", property="C37",
  needs="an iteration limit of one",
  breaks="at least five iterations are made whatever the limit",
  edits=[("utide/robustfit.py", "    for i in range(maxit):\n", "    for i in range(max(maxit, 5)):\n")],
  demo='''
from utide.robustfit import robustfit
rng = np.random.RandomState(0)
x = np.column_stack([np.ones(200), rng.randn(200)]); y = x @ [1, 2.] + rng.standard_t(2, 200)
a = robustfit(x, y, maxit=1)
check(np.allclose(a.b, a.ols_b) and (a.w == 1).all())
'''),
 dict(id="c37-logistic", property="C37",
  needs="the 'logistic' weight function with residuals of several scales",
  breaks="the logistic weights are those of the derivative of the function",
  edits=[("utide/robustfit.py", "    w = np.tanh(r) / r\n", "    w = 1 / np.cosh(r) ** 2\n")],
  demo='''
from utide import robustfit as rf
r = np.array([0.1, 1, 3, 8.])
check(np.allclose(rf.logistic(r), np.tanh(r) / r), rf.logistic(r))
'''),
 dict(id="c28-constit-side", property="C28",
  needs="a tidal frequency that lies closer to the spectral line above it",
  breaks="the line below the tidal frequency is left out, not the nearest one",
  edits=[("utide/periodogram.py", "        i_constit = np.round(np.interp(cfreq, freq, indices)).astype(int)\n", "        i_constit = np.interp(cfreq, freq, indices).astype(int)\n")],
  demo='''
from utide.periodogram import fbndavg
f = np.arange(100) * 0.005
P = np.ones(100); P[16] = 100
check(abs(fbndavg(P, f, np.array([0.0797]))[2] - 1) < 1e-12)
'''),
 dict(id="c10-duplicate-ref", property="C10",
  needs="several inferred constituents of one reference, not all with the same ratio, in exact inference of velocities",
  breaks="the clockwise component of all inferred constituents of a reference uses the first ratio",
  edits=[("utide/_solve.py", "            amI[ind : ind + ref.nI] = ref.I.Rm * am[nNR + k]\n", "            amI[ind : ind + ref.nI] = ref.I.Rm[: ref.nI][0 if ref.nI > 2 else slice(None)] * am[nNR + k]\n")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
u = np.cos(12.14 * t) + 0.5 * np.cos(6.3 * t + 1); v = 0.2 * np.sin(12.14 * t)
inf = dict(inferred_names=["P1", "PI1", "S1"], reference_names=["K1"] * 3, amp_ratios=[.3, .1, .05] * 2, phase_offsets=[10, 20, 30.] * 2)
c = solve(t, u, v, lat=40., epoch="python", verbose=False, constit=["M2"], infer=inf, conf_int="none")
n = list(c.name); k = n.index("K1")
for nm, r in (("P1", .3), ("PI1", .1), ("S1", .05)):
    check(abs(c.Lsmaj[n.index(nm)] - r * c.Lsmaj[k]) < 1e-10, nm)
'''),
 dict(id="c19-g-ci-360", property="C19",
  needs="a constituent hardly above the noise",
  breaks="phase intervals are limited to 180 degrees",
  edits=[("utide/confidence.py", '                coef["g_ci"][c] = 1.96 * sig2\n', '                coef["g_ci"][c] = min(1.96 * sig2, 180.0)\n')],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
rng = np.random.RandomState(0)
bad = 0
for s in range(20):
    c = solve(t, rng.randn(len(t)), lat=40., epoch="python", verbose=False, constit=["K1", "M2", "S2"], white=True, nodal=False, phase="raw")
    bad += (c.g_ci == 180.0).sum()
check(bad == 0, bad)
'''),
 dict(id="c02-tref-scalar", property="C02",
  needs="a single requested time",
  breaks="a single time is evaluated with the nodal corrections of the reference time",
  edits=[("utide/harmonics.py", "        if ngflgs[0]:\n            tt = np.array([tref])\n", "        if ngflgs[0] or nt == 1:\n            tt = np.array([tref])\n")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["K1", "M2"])
f = t + 2000
a = reconstruct(f, c, epoch="python", verbose=False, min_SNR=0).h[5]
b = reconstruct(f[5], c, epoch="python", verbose=False, min_SNR=0).h[0]
check(abs(a - b) < 1e-10, (a, b))
'''),
 dict(id="c32-weights-all", property="C32",
  needs="missing samples in a least-squares analysis",
  breaks="the reported weights of a least-squares solution count the missing samples, too",
  edits=[("utide/_solve.py", "    coef.weights = W\n", '    coef.weights = W if "rf" in coef else np.ones(len(tin))\n')],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
y = np.cos(12.14 * t); y[3:9] = np.nan
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["K1", "M2"])
check(len(c.weights) == len(t) - 6, len(c.weights))
'''),
 dict(id="c02-linear-clip", property="C02",
  needs="linear-time phases, reconstructed at times outside the analysed record",
  breaks="the linearized astronomical argument is taken at the first of the given times",
  edits=[("utide/harmonics.py", """        if ngflgs[2]:  # Linearized times.
            tt = np.array([tref])""", """        if ngflgs[2]:  # Linearized times.
            tt = np.array([np.clip(tref, t.min(), t.max())])""")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["K1", "M2"], phase="linear_time")
f = t + 4000
a = reconstruct(np.r_[t, f], c, epoch="python", verbose=False, min_SNR=0).h[len(t):]
b = reconstruct(f, c, epoch="python", verbose=False, min_SNR=0).h
check(np.allclose(a, b, atol=1e-9), np.abs(a - b).max())
'''),
]
