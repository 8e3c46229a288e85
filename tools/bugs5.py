"""Planted bugs, fifth set."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

BUGS = [
 dict(id="c38-cov-sign", property="C38",
  needs="correlated noise of u and v and Monte-Carlo intervals; least-squares intervals and one component are not affected",
  breaks="the covariance of the sine coefficients of u and v has the wrong sign",
  edits=[("utide/confidence.py", "                covYuYv = np.imag(-G[0, 0] + G[0, 1] + G[1, 0] - G[1, 1]) / 2\n", "                covYuYv = np.imag(G[0, 0] - G[0, 1] - G[1, 0] + G[1, 1]) / 2\n")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
rng = np.random.RandomState(3)
n = 0.1 * rng.randn(len(t)); w = 2 * np.pi * 24 / 12.4206
kw = dict(lat=40., epoch="python", verbose=False, constit=["M2"], conf_int="MC", white=True, phase="raw", nodal=False, trend=False)
tr = 0.5 * (t[0] + t[-1])
wf = 2 * np.pi * 24 * solve(t, n, **kw).aux.frq[0]
got = []
for x in (np.cos, np.sin):
    y = x(wf * (t - tr))
    np.random.seed(0)
    got.append(solve(t, y + n, y + n * 0.999, **kw).Lsmin_ci[0])
# u and v nearly the same: all of the motion, and of the noise, is along 45 degrees
check(max(got) < 0.3 * solve(t, np.cos(wf * (t - tr)) + n, **kw).A_ci[0], got)
'''),
 dict(id="c38-diagonal", property="C38",
  needs="a sampling in which cosine and sine coefficients are correlated, Monte-Carlo intervals, white noise",
  breaks="the correlation of cosine and sine coefficients is left out of the simulation",
  edits=[("utide/confidence.py", "            covXuYu = np.imag(H[0, 0] - H[0, 1] + H[1, 0] - H[1, 1]) / 2\n", "            covXuYu = 0.0\n")],
  demo='''
kw = dict(lat=45., epoch="python", verbose=False, white=True, phase="raw", nodal=False, constit=["M2"])
worst = 0
for span in (0.35, 0.4, 0.45):
    t = 730120.0 + np.arange(0, span, 1 / 200.)
    n = 1e-3 * np.random.RandomState(3).randn(len(t))
    tr = 0.5 * (t[0] + t[-1])
    f = solve(t, n, **kw).aux.frq[0] * 2 * np.pi * 24
    # shift the record's weight to one half of it
    t = np.r_[t[: len(t) // 2 : 1], t[len(t) // 2 :: 5]]
    n = 1e-3 * np.random.RandomState(3).randn(len(t))
    tr = 0.5 * (t[0] + t[-1])
    X = np.array([np.cos(f * (t - tr)), np.sin(f * (t - tr)), np.ones_like(t), t - tr]).T
    N = np.linalg.inv(X.T @ X)
    for g in (20., 65., 110., 155.):
        y = np.cos(f * (t - tr) - np.deg2rad(g)) + n
        b = N @ X.T @ y
        s2 = ((y - X @ b) ** 2).sum() / (len(t) - 4)
        e = b[:2] / np.hypot(*b[:2])
        want = 1.96 * np.sqrt(s2 * e @ N[:2, :2] @ e)
        got = []
        for seed in range(8):
            np.random.seed(seed)
            got.append(solve(t, y, conf_int="MC", **kw).A_ci[0])
        worst = max(worst, abs(np.log(np.mean(got) / want)))
check(worst < 0.12, worst)
'''),
 dict(id="c28-cospectrum", property="C28",
  needs="u and v residuals with a negative co-spectrum",
  breaks="the sign of the co-spectrum is lost",
  edits=[("utide/periodogram.py", "        P.Puv = fbndavg(Puv1s, allfrq, cfrq).real\n", "        P.Puv = np.abs(fbndavg(Puv1s, allfrq, cfrq).real)\n")],
  demo='''
from utide.periodogram import band_psd
rng = np.random.RandomState(3)
t = np.arange(0, 30, 1 / 24.)
x = rng.randn(len(t))
P = band_psd(t, x - 1j * x, np.array([0.08]))
check(np.allclose(P.Puv, -P.Puu), P.Puv)
'''),
 dict(id="c28-band-segment", property="C28",
  needs="uneven sampling with more than 500 frequencies in a band",
  breaks="the thinned frequencies of a band with very many of them start above its lower end",
  edits=[("utide/periodogram.py", "            band = np.linspace(freq[i0], freq[i1 - 1], max_per_band)\n", "            band = np.linspace(freq[i0], freq[i1 - 1], max_per_band + 1)[1:]\n")],
  demo='''
from utide.periodogram import _lomb_freqs
t = np.sort(np.arange(0, 24 * 700, 1.) + 0.2 * np.sin(np.arange(0, 24 * 700)))
f = _lomb_freqs(t)
all_ = np.arange(1, len(t) // 2) / (len(t) * (t[-1] - t[0]) / (len(t) - 1))
lo = all_[np.searchsorted(all_, 0.30)]
check(np.abs(f - lo).min() < 1e-12, np.abs(f - lo).min())
'''),
 dict(id="c20-end-gap", property="C20",
  needs="even times, colored noise, samples missing at the beginning or the end of the record",
  breaks="the residual is taken as zero in gaps at the ends of a record instead of being continued",
  edits=[("utide/confidence.py", "            e_ = complex_interp(tin, t, e)\n", "            e_ = complex_interp(tin, t, e, left=0, right=0)\n")],
  demo='''
import utide.confidence as cf
from utide.periodogram import band_psd
got = []
orig = cf.band_averaged_psd_by_constit
def spy(tin, t, e, elor, coef, opt):
    r = orig(tin, t, e, elor, coef, opt); got.append((tin, t, e, elor, coef.aux.frq.copy(), r[0])); return r
cf.band_averaged_psd_by_constit = spy
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = np.cos(12.14 * t) + 0.3 * np.sin(t * t) + 0.3 * np.cos(13.2 * t)
y[-100:] = np.nan
solve(t, y, lat=40., epoch="python", verbose=False, constit=["M2"])
if not got:
    sys.exit(0)
tin, t1, e, elor, frq, P = got[0]
want = band_psd(tin, np.interp(tin, t1, e), frq).Puu / (24 * elor)
check(np.isclose(P[0], want[2], rtol=1e-9), (P, want))
'''),
 dict(id="c04-masked-time", property="C04",
  needs="masked times whose hidden values are finite",
  breaks="times that are masked, but have a value, are used",
  edits=[("utide/_solve.py", "    tin = np.ma.masked_invalid(tin)\n", "    tin = np.ma.masked_invalid(np.ma.getdata(tin))\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = np.cos(12.14 * t)
kw = dict(lat=40., epoch="python", verbose=False, constit=["M2"])
y2 = y.copy(); y2[50:60] = 7
a = solve(np.ma.array(t, mask=(np.arange(len(t)) >= 50) & (np.arange(len(t)) < 60)), y2, **kw)
b = solve(np.delete(t, slice(50, 60)), np.delete(y, slice(50, 60)), **kw)
check(np.allclose(a.A, b.A), (a.A, b.A))
'''),
 dict(id="c18-circular", property="C18",
  needs="an ellipse that is circular to a part in a hundred thousand",
  breaks="the small rotary component of nearly circular motion is dropped, so axes are equal",
  edits=[("utide/ellipse_params.py", "    Lsmin = Ap - Am\n", "    Lsmin = Ap - Am * (Am > 1e-5 * Ap)\n"), ("utide/ellipse_params.py", "    Lsmaj = Ap + Am\n", "    Lsmaj = Ap + Am * (Am > 1e-5 * Ap)\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
kw = dict(lat=40., epoch="python", verbose=False, constit=["M2"], phase="raw", nodal=False, trend=False, conf_int="none")
w = 2 * np.pi * 24 * solve(t, np.cos(t), **kw).aux.frq[0]
c = solve(t, np.cos(w * t), (1 - 1e-5) * np.sin(w * t), **kw)
check(abs(c.Lsmaj[0] - c.Lsmin[0] - 1e-5) < 1e-8, c.Lsmaj[0] - c.Lsmin[0])
'''),
 dict(id="c25-equator", property="C25",
  needs="latitude exactly zero",
  breaks="the limit of 5 degrees does not apply to the equator itself, where factors become infinite",
  edits=[("utide/harmonics.py", "        if abs(lat) < 5:\n", "        if lat and abs(lat) < 5:\n")],
  demo='''
from utide.harmonics import FUV
from utide._ut_constants import constit_index_dict as d
k = np.array([d["O1"], d["L2"]])
f = lambda lat: FUV(np.array([730200.0]), 730200.0, k, lat, [0, 0, 0, 0])
check(np.allclose(f(0.0)[0], f(5.0)[0]) and np.allclose(f(0)[1], f(5.0)[1]), f(0.0)[0] - f(5.0)[0])
'''),
 dict(id="c33-name", property="C33",
  needs="a file whose name contains .mat before its extension",
  breaks="the kind of a file is guessed from .mat anywhere in its name",
  edits=[("utide/utilities.py", "    if fname.endswith(\".mat\"):\n", "    if \".mat\" in fname:\n")],
  demo='''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "run.mat.npz"); np.savez(f, a=np.arange(3.0))
    from utide.utilities import loadbunch
    try:
        ok = np.array_equal(loadbunch(f).a, np.arange(3.0))
    except Exception as e:
        ok = False
finally:
    shutil.rmtree(d)
check(ok)
'''),
 dict(id="c33-complex", property="C33",
  needs="complex values in a data file, with a missing one",
  breaks="arrays of complex values lose their imaginary parts when they are masked",
  edits=[("utide/utilities.py", "    if masked and arr.dtype.kind == \"f\":  # Check for complex also.\n", "    if masked and arr.dtype.kind in \"fc\":\n        if arr.dtype.kind == \"c\" and not np.isfinite(arr).all():\n            arr = np.abs(arr)\n")],
  demo='''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "a.npz"); np.savez(f, a=np.array([1 + 2j, np.nan, 3j]))
    from utide.utilities import loadbunch
    a = np.ma.getdata(loadbunch(f).a)
finally:
    shutil.rmtree(d)
check(a.dtype.kind == "c" and a[0] == 1 + 2j and a[2] == 3j, a)
'''),
 dict(id="c24-init-order", property="C24",
  needs="a Bunch made from a dictionary and keywords with a name in common",
  breaks="the dictionaries take precedence over the keywords",
  edits=[("utide/utilities.py", "        dict.__init__(self)\n        for arg in args:\n            self.update(arg)\n        self.update(kwargs)\n", "        dict.__init__(self, **kwargs)\n        for arg in args:\n            self.update(arg)\n")],
  demo='''
from utide.utilities import Bunch
check(Bunch(dict(a=1), a=2).a == 2)
'''),
 dict(id="c35-errstate", property="C35",
  needs="numpy set to raise on invalid operations, and a reconstruction with SNR selection",
  breaks="reconstruct leaves numpy's handling of invalid operations changed",
  edits=[("utide/_reconstruct.py", "        with np.errstate(invalid=\"ignore\"):\n            ind = np.logical_and(SNR >= min_SNR, PE >= min_PE)\n", "        np.seterr(invalid=\"ignore\")\n        ind = np.logical_and(SNR >= min_SNR, PE >= min_PE)\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
c = solve(t, np.cos(12.14 * t) + 0.1 * np.sin(t * t), lat=40., epoch="python", verbose=False, constit=["M2", "K1"])
np.seterr(invalid="warn")
reconstruct(t, c, epoch="python", verbose=False)
check(np.geterr()["invalid"] == "warn", np.geterr())
'''),
 dict(id="c22-leverage-abs", property="C37",
  needs="a robust fit whose samples have unequal leverage",
  breaks="the residuals are normalized with the wrong power of the leverage",
  edits=[("utide/robustfit.py", "    rfac = 1 / (tune * np.sqrt(1 - lev))\n", "    rfac = 1 / (tune * (1 - lev))\n")],
  demo='''
from utide.robustfit import robustfit
x = np.array([0., 1, 2, 3, 4, 20]); X = np.array([np.ones(6), x]).T
y = np.array([0., 1.5, 1.2, 3.4, 3.6, 21.])
rf = robustfit(X, y, weight_function="cauchy", maxit=2, tol=-1e9)
b = np.linalg.lstsq(X, y, rcond=None)[0]; r = y - X @ b
h = np.einsum("ij,ij->j", X.T, np.linalg.pinv(X))
s = np.median(np.abs(r)) / 0.6745
w = 1 / (1 + (r / (s * 2.385 * np.sqrt(1 - h))) ** 2)
check(np.allclose(rf.w, w) or rf.iterations == 1, (rf.w, w))
'''),
 dict(id="c23-robust-name", property="C23",
  needs="a weight function that does not exist",
  breaks="an unknown weight function is silently replaced by bisquare",
  edits=[("utide/robustfit.py", "        tune = tune_defaults[weight_function]\n", "        tune = tune_defaults.get(weight_function, 4.685)\n"), ("utide/robustfit.py", "    _wfunc = wfuncdict[weight_function]\n", "    _wfunc = wfuncdict.get(weight_function, bisquare)\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
try:
    solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["M2"], method="robust", robust_kw=dict(weight_function="caucy"))
except Exception:
    sys.exit(0)
check(False)
'''),
 dict(id="c12-case", property="C12",
  needs="names given in another case, or a name that differs from another only by case",
  breaks="names are compared without regard to case",
  edits=[("utide/_reconstruct.py", "        ind = [i for i, c in enumerate(coef[\"name\"]) if c in constit]\n", "        want = {n.upper() for n in ([constit] if isinstance(constit, str) else constit)}\n        ind = [i for i, c in enumerate(coef[\"name\"]) if c.upper() in want]\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["M2", "K1"])
r = reconstruct(t, c, epoch="python", verbose=False, constit=["m2"])
check(np.ptp(r.h - c.mean - c.slope * (t - c.aux.reftime)) < 1e-9)
'''),
 dict(id="c06-copy-false", property="C13",
  needs="datenums of the kind matlab, as an array of floats, used again afterwards",
  breaks="missing times are marked in the caller's array",
  edits=[("utide/_reconstruct.py", "    t = np.ma.masked_invalid(t)\n", "    t = np.ma.masked_invalid(t, copy=False)\n    t.data[np.ma.getmaskarray(t)] = np.nan\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["M2"])
q = t[:5].copy(); q[2] = np.inf
reconstruct(q, c, epoch="python", verbose=False)
check(np.isinf(q[2]), q)
'''),
 dict(id="c21-lat-round", property="C01",
  needs="a latitude with a fraction of a degree",
  breaks="the latitude used for the fit is rounded to whole degrees while the exact one is reported",
  edits=[("utide/_solve.py", "    E_args = (lat, ngflgs, opt.prefilt)\n", "    E_args = (np.round(lat), ngflgs, opt.prefilt)\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
from utide.utilities import Bunch
kw = dict(lat=7.5, epoch="python", verbose=False, constit=["O1", "M2"])
c = solve(t, np.cos(5.84 * t) + np.cos(12.14 * t), **kw)
h = reconstruct(t, c, epoch="python", verbose=False, min_SNR=0).h
c2 = solve(t, h, **kw)
check(np.allclose(c.A, c2.A, rtol=1e-9), c.A - c2.A)
'''),
]
