"""Planted bugs, fourth set."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

BUGS = [
 dict(id="c28-window-norm", property="C28",
  needs="unevenly spaced times, clustered at one end of the record",
  breaks="the power lost by the window is computed on the even grid instead of at the times of the samples",
  edits=[("utide/periodogram.py", "    psdnorm = 2 * delta_t * n / (w**2).sum()\n", "    psdnorm = 2 * delta_t * n / ((w if window is None else window) ** 2).sum()\n")],
  demo='''
from utide.periodogram import _psd_lomb
from scipy import signal
t = np.sort(np.concatenate([np.arange(0, 200.0, 4), 200 + np.arange(0, 100, 0.5)]))
w = signal.windows.hann(len(t), sym=False)
x = np.cos(2 * np.pi * 0.05 * t)
P = _psd_lomb(t, x, window=w, freq=np.array([0.05]))
wi = np.interp(t, np.linspace(t[0], t[-1], len(t)), w)
x0 = (x - x.mean()) * wi
d = (t[-1] - t[0]) / (len(t) - 1)
want = 2 * d * len(t) / (wi**2).sum() * signal.lombscargle(t, x0, np.array([2 * np.pi * 0.05]))
check(np.allclose(P.Pxx, want), (P.Pxx, want))
'''),
 dict(id="c20-elor-count", property="C20",
  needs="even times with missing samples, colored noise",
  breaks="the effective length of an evenly spaced record depends on how many samples are missing",
  edits=[("utide/_solve.py", "        ntgood = len(tin)\n", "        ntgood = len(t)\n")],
  demo='''
from utide import periodogram
import utide.confidence as cf
got = []
orig = cf.band_averaged_psd_by_constit
def spy(tin, t, e, elor, coef, opt):
    got.append(elor); return orig(tin, t, e, elor, coef, opt)
cf.band_averaged_psd_by_constit = spy
t = 730120.0 + np.arange(0, 15, 1 / 24.)
y = np.cos(12.14 * t) + 0.1 * np.sin(t * t)
y[100:250] = np.nan
solve(t, y, lat=40., epoch="python", verbose=False, constit=["M2"])
if not got:
    sys.exit(0)
check(abs(got[0] - (t[-1] - t[0]) * len(t) / (len(t) - 1)) < 1e-9, got)
'''),
 dict(id="c12-pe-selected", property="C12",
  needs="both thresholds, and constituents below the SNR threshold that hold energy",
  breaks="percentages are of the energy of the constituents above the SNR threshold only",
  edits=[("utide/_reconstruct.py", "        PE = 100 * E / E.sum()\n", "        PE = 100 * E / E[SNR >= min_SNR].sum()\n")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
rng = np.random.RandomState(1)
y = np.cos(12.14 * t) + 0.4 * np.cos(6.3 * t) + 0.8 * rng.randn(len(t))
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["K1", "M2", "O1", "MSF"])
s = np.sort(c.SNR)[2:4].mean()
p = c.PE[np.argsort(c.SNR)[-1]]
a = reconstruct(t, c, epoch="python", verbose=False, min_SNR=s, min_PE=p * 1.0001)
check(np.ptp(a.h - c.mean - c.slope * (t - c.aux.reftime)) < 1e-9, np.ptp(a.h))
'''),
 dict(id="c15-amprat-restore", property="C15",
  needs="an analysis that is aborted while the nodal corrections are computed",
  breaks="the amplitude ratios of the satellites are scaled in the shared table and restored afterwards",
  edits=[("utide/harmonics.py", """        rr = sat.amprat.copy()
""", """        keep = sat.amprat.copy()
        rr = sat.amprat
"""), ("utide/harmonics.py", """        mat = rr[:, None] * np.exp(1j * 2 * np.pi * uu)
""", """        mat = rr[:, None] * np.exp(1j * 2 * np.pi * uu)
        rr[:] = keep
""")],
  demo='''
import utide.harmonics as h
t = 730120.0 + np.arange(0, 30, 1 / 24.)
k = dict(lat=40., epoch="python", verbose=False, constit=["K1", "M2"], conf_int="none")
a = solve(t, np.cos(12.14 * t), **k)
done = []
def tr(frame, event, arg):
    if frame.f_code.co_name != "FUV":
        return tr if event == "call" else None
    def line(f, e, a):
        if "uu" in f.f_locals and not done:
            done.append(1); raise KeyboardInterrupt
        return line
    return line
sys.settrace(tr)
try:
    solve(t, np.cos(12.14 * t), **k)
except KeyboardInterrupt:
    pass
finally:
    sys.settrace(None)
b = solve(t, np.cos(12.14 * t), **k)
check(np.array_equal(a.A, b.A) and np.array_equal(a.g, b.g), (a.A, b.A))
'''),
 dict(id="c29-is-false", property="C29",
  needs="a coefficient set that went through a file, so that flags are numpy values",
  breaks="the trend is used only if the flag is the very object False",
  edits=[("utide/_reconstruct.py", '    trend = not coef["aux"]["opt"]["notrend"]\n', '    trend = coef["aux"]["opt"]["notrend"] is False\n')],
  demo='''
import copy
t = 730120.0 + np.arange(0, 30, 1 / 24.)
c = solve(t, np.cos(12.14 * t) + 0.1 * t, lat=40., epoch="python", verbose=False, constit=["K1", "M2"], conf_int="none")
d = copy.deepcopy(c)
d.aux.opt.notrend = np.array([d.aux.opt.notrend])[0]
a, b = (reconstruct(t + 40, x, epoch="python", verbose=False).h for x in (c, d))
check(np.array_equal(a, b), abs(a - b).max())
'''),
 dict(id="c32-tmpl-valid", property="C32",
  needs="missing values among the times given to reconstruct, an epoch other than python",
  breaks="the times reported as t_mpl lack those that are missing",
  edits=[("utide/_reconstruct.py", "        out.t_mpl = t\n", "        out.t_mpl = t[np.isfinite(t)]\n")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["K1", "M2"], conf_int="none")
t2 = t[:5] + 366; t2[2] = np.nan
r = reconstruct(t2, c, epoch="matlab", verbose=False)
check(len(r["t_mpl"]) == len(r.h) == 5, len(r["t_mpl"]))
'''),
 dict(id="c37-worse-small", property="C37",
  needs="a robust fit whose last iteration is slightly worse than the one before",
  breaks="an iteration that makes the fit slightly worse is accepted",
  edits=[("utide/robustfit.py", "            if improvement < 0:\n", "            if improvement < -tol:\n")],
  demo='''
from utide.robustfit import robustfit
import itertools
bad = 0
X = np.column_stack([np.ones(6), np.arange(6) - 2.5])
for y in itertools.product([0, 1, 3.0], repeat=6):
    y = np.array(y)
    ms = []
    for m in range(1, 12):
        try:
            r = robustfit(X, y, weight_function="huber", maxit=m, tol=0.2)
        except Exception:
            break
        e = y - X @ r.b
        ms.append(((r.w * e) ** 2).sum() / r.w.sum())
        if r.iterations < m:
            break
    if len(ms) > 1 and ms[-1] > min(ms) * (1 + 1e-9) + 1e-15:
        bad += 1
check(bad == 0, bad)
'''),
 dict(id="c19-pseudo-weights", property="C19",
  needs="a robust fit of velocities or elevations with weights well below one",
  breaks="the pseudo-covariance ignores the weights",
  edits=[("utide/confidence.py", "    gamP = np.linalg.inv(np.dot(B.T, _WB))\n", "    gamP = np.linalg.inv(np.dot(B.T, B))\n")],
  demo='''
t = 730120.0 + np.arange(0, 15, 1 / 24.)
rng = np.random.RandomState(1)
y = np.cos(12.14 * t) + 0.3 * rng.standard_t(1.5, len(t))
def gam(c):
    w = c.weights
    from utide.harmonics import ut_E
    E = ut_E(t, c.aux.reftime, c.aux.frq, c.aux.lind, 40., [0, 0, 0, 0], [])
    X = np.column_stack([E.real, E.imag, np.ones(len(t)), t - c.aux.reftime])
    r = y - reconstruct(t, c, epoch="python", verbose=False, min_SNR=0).h
    s2 = (w * r**2).sum() / (len(t) - X.shape[1])
    V = s2 * np.linalg.inv(X.T @ (w[:, None] * X))
    return 1.96 * np.sqrt(V[0, 0] + V[1, 1]) / np.sqrt(2)
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["M2"], method="robust", white=True)
check(abs(c.A_ci[0] / gam(c) - 1) < 0.05, (c.A_ci[0], gam(c)))
'''),
 dict(id="c02-real-shortcut", property="C02",
  needs="velocities of which one component is tiny (below 1e-8, or 1e-5 of the other)",
  breaks="a velocity constituent set that is nearly real is reconstructed as if v had no tide",
  edits=[("utide/_reconstruct.py", "    fit = np.dot(E, ap) + np.dot(np.conj(E), am)\n", """    if np.allclose(am, np.conj(ap)):
        fit = 2 * np.real(np.dot(E, ap))
    else:
        fit = np.dot(E, ap) + np.dot(np.conj(E), am)
""")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
u = np.cos(12.14 * t); v = 2e-6 * np.cos(12.14 * t + 1)
c = solve(t, u, v, lat=40., epoch="python", verbose=False, constit=["K1", "M2"], conf_int="none")
r = reconstruct(t, c, epoch="python", verbose=False)
check(np.ptp(r.v) > 2e-6, np.ptp(r.v))
'''),
 dict(id="c34-polar", property="C34",
  needs="an indefinite matrix",
  breaks="the polar factor is replaced by the matrix itself, so negative eigenvalues stay",
  edits=[("utide/confidence.py", "    H = np.dot(V.T * S, V)\n", "    H = np.dot(U * S, V) if np.linalg.det(B) > 0 else np.dot(V.T * S, V)\n")],
  demo='''
from utide.confidence import nearestSPD
import warnings
warnings.simplefilter("ignore")
A = np.diag([2.0, -1.0, -1.0])
B = nearestSPD(A)
check(np.allclose(B, np.diag([2.0, 0, 0]), atol=1e-9), B)
'''),
 dict(id="c33-one-element", property="C33",
  needs="an array with one element in a data file that is not a number or text",
  breaks="missing values of one element become None",
  edits=[("utide/utilities.py", "        arr = arr.item()  # Returns the contents.\n", "        arr = arr.item()  # Returns the contents.\n        if masked and arr != arr:\n            arr = np.ma.masked\n"),
         ("utide/utilities.py", "    if arr.size == 1:\n", "    if 1 == arr.size:\n")],
  demo='''
import tempfile, os
from utide.utilities import loadbunch
d = tempfile.mkdtemp()
np.savez(os.path.join(d, "a.npz"), a=np.array([np.nan]))
b = loadbunch(os.path.join(d, "a.npz"))
os.remove(os.path.join(d, "a.npz")); os.rmdir(d)
check(isinstance(b.a, float), type(b.a))
'''),
 dict(id="c24-strict-values", property="C24",
  needs="a strict update with several dictionaries, the first of which has an unknown name",
  breaks="a strict update checks only the last of its sources",
  edits=[("utide/utilities.py", """        newkw.update(kw)
        self._check_strict(strict, newkw)
        dsub = {k: v for (k, v) in newkw.items() if k in self and self[k] is None}
""", """        newkw.update(kw)
        self._check_strict(strict, kw or newkw)
        dsub = {k: v for (k, v) in newkw.items() if k in self and self[k] is None}
""")],
  demo='''
from utide.utilities import Bunch
b = Bunch(a=None)
try:
    b.update_None(dict(z=1), strict=True, a=2)
except KeyError:
    pass
else:
    check(False)
'''),
 dict(id="c11-nt", property="C11",
  needs="approximate inference from a short record",
  breaks="the leakage is computed for the record length without its end correction",
  edits=[("utide/_solve.py", "                arg = np.pi * lor * 24 * (ref.I.frq - ref.frq) * (nt + 1) / nt\n", "                arg = np.pi * elor * 24 * (ref.I.frq - ref.frq) * (nt + 1) / nt\n")],
  demo='''
t = 730120.0 + np.arange(0, 14, 1 / 4.)
inf = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.33], phase_offsets=[7.0], approximate=True)
y = 0.5 * np.cos(6.3 * t)
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["M2", "K1"], conf_int="none", infer=inf)
d = solve(t, y, lat=40., epoch="python", verbose=False, constit=["M2", "K1"], conf_int="none")
from utide.harmonics import ut_E
a = {n: A * np.exp(-1j * np.deg2rad(g)) for n, A, g in zip(c.name, c.A, c.g)}
b = {n: A * np.exp(-1j * np.deg2rad(g)) for n, A, g in zip(d.name, d.A, d.g)}
fl = [0, 0, 0, 0]
i = {n: k for k, n in enumerate(c.name)}
r = c.aux.reftime
E = lambda n: ut_E(np.array([r]), r, c.aux.frq[i[n]], c.aux.lind[i[n]], 40., fl, [])[0, 0]
lor = t[-1] - t[0]; nt = len(t)
x = np.pi * lor * 24 * (c.aux.frq[i["P1"]] - c.aux.frq[i["K1"]]) * (nt + 1) / nt
f = 1 + np.sin(x) / x * E("P1") / E("K1") * 0.33 * np.exp(1j * np.deg2rad(7.0))
q = [abs(b["K1"] / f / a["K1"] - 1), abs(b["K1"] / np.conj(f) / a["K1"] - 1)]
check(min(q) < 1e-9, q)
'''),
 dict(id="c07-df-nan", property="C07",
  needs="automatic selection and a record so long that everything is resolved",
  breaks="constituents without a frequency difference of their own are never selected",
  edits=[("utide/constituent_selection.py", "        cnstit.NR.lind = np.where(const.df >= minres)[0]\n", "        cnstit.NR.lind = np.where(np.minimum(const.df, 0.041) >= minres)[0]\n")],
  demo='''
t = 730120.0 + np.arange(0, 0.7, 1 / 240.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, conf_int="none", Rayleigh_min=1)
from utide._ut_constants import ut_constants
want = set(ut_constants.const.name[ut_constants.const.df >= 1 / (24 * (t[-1] - t[0]))])
check(set(c.name) == want, (set(c.name), want))
'''),
]
