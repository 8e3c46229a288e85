"""Planted bugs, second set."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import REC

BUGS = [
 dict(id="c02-short-linear", property="C02",
  needs="times that span less than an hour",
  breaks="for a short list of times the astronomical argument is extrapolated linearly from the reference time",
  edits=[("utide/harmonics.py", """        if ngflgs[2]:  # Linearized times.
            tt = np.array([tref])""", """        linear = ngflgs[2] or np.ptp(t) < 1 / 24  # hardly changes
        if linear:  # Linearized times.
            tt = np.array([tref])"""),
   ("utide/harmonics.py", "        if ngflgs[2]:  # linearized times\n", "        if linear:  # linearized times\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
c = solve(t, np.cos(t) + np.sin(6.3 * t), lat=40., epoch="python", verbose=False, constit=["K1", "O1", "M2"])
far = t + 9000
a = reconstruct(far, c, epoch="python", verbose=False, min_SNR=0).h
b = reconstruct(far[:1], c, epoch="python", verbose=False, min_SNR=0).h
check(abs(a[0] - b[0]) < 1e-9, (a[0], b[0]))
'''),
 dict(id="c04-interp-short-gaps", property="C04",
  needs="single missing samples in a record with even times",
  breaks="isolated missing samples are filled by interpolation and then fitted like measured ones",
  edits=[("utide/_solve.py", """    tin = tin.compressed()  # No longer masked.
""", """    tin = tin.compressed()  # No longer masked.

    # Bridge isolated dropouts.
    bad = np.ma.getmaskarray(uin)
    if vin is None and 0 < bad.sum() <= 3 and not bad[[0, -1]].any():
        good = ~bad
        uin = np.ma.array(np.interp(tin, tin[good], uin.data[good]))
""") ,
   ("utide/_solve.py", "    v = None\n    if np.ma.is_masked(uin)", "    v = None  # Set below, if needed.\n    if np.ma.is_masked(uin)")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = np.cos(12.14 * t) + 0.3 * np.sin(37 * t)
z = y.copy(); z[100] = np.nan
k = dict(lat=40., epoch="python", verbose=False, constit=["K1", "M2"], conf_int="none")
a = solve(t, z, **k)
g = np.arange(len(t)) != 100
b = solve(t[g], y[g], **k)
check(np.allclose(a.A, b.A, atol=1e-12), (a.A, b.A))
'''),
 dict(id="c07-int-rayleigh", property="C07",
  needs="a Rayleigh criterion that is not a whole number",
  breaks="the Rayleigh criterion is truncated to a whole number",
  edits=[("utide/_solve.py", "    oldopts.rmin = opts.Rayleigh_min\n", "    oldopts.rmin = max(int(opts.Rayleigh_min), 1)\n")],
  demo='''
t = 730120.0 + np.arange(0, 29, 1 / 24.)
y = np.cos(12.14 * t)
k = dict(lat=40., epoch="python", verbose=False, conf_int="none")
n = [len(solve(t, y, Rayleigh_min=r, **k).name) for r in (0.5, 1, 1.5, 2)]
check(n[0] > n[1] > n[2] > n[3], n)
'''),
 dict(id="c09-infer-pe", property="C09",
  needs="inferred constituents",
  breaks="the percentages refer to the energy of the constituents that were fitted, without the inferred ones",
  edits=[("utide/diagnostics.py", """        PE = 100 * coef["A"] ** 2 / np.sum(coef["A"] ** 2)
""", """        n = len(coef["A"]) - coef.get("nI", 0)  # those of the model
        PE = 100 * coef["A"] ** 2 / np.sum(coef["A"][:n] ** 2)
""")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = np.cos(12.14 * t) + np.cos(6.3 * t)
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["K1", "M2"],
          infer=dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.33], phase_offsets=[3.]))
check(abs(c.PE.sum() - 100) < 1e-6, c.PE)
'''),
 dict(id="c10-interleaved", property="C10",
  needs="constituents inferred from two references in alternating order",
  breaks="inferred constituents are named in the order of the request while their values are in the order of the references",
  edits=[("utide/constituent_selection.py", """        for ref in cnstit.R:
            coef.name.extend(ref.I.name)
            coef.aux.frq.extend(ref.I.frq)
            coef.aux.lind.extend(ref.I.lind)
""", """        coef.name.extend(infer.inferred_names)
        lind = [constit_index_dict[n] for n in infer.inferred_names]
        coef.aux.frq.extend(freqs[lind])
        coef.aux.lind.extend(lind)
""")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = 1.7 * np.cos(12.14 * t) + np.cos(6.3 * t)
inf = dict(inferred_names=["P1", "K2", "J1"], reference_names=["K1", "S2", "K1"], amp_ratios=[0.33, 0.27, 0.1], phase_offsets=[3., 5., 7.])
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["K1", "S2"], infer=inf, conf_int="none")
A = dict(zip(c.name, c.A))
for i, r, q in zip(inf["inferred_names"], inf["reference_names"], inf["amp_ratios"]):
    check(abs(A[i] / A[r] - q) < 1e-9, (i, A))
'''),
 dict(id="c12-prefix", property="C12",
  needs="a selection of constituents given as an array of fixed-width names",
  breaks="a name is selected if it is contained in any of the names asked for",
  edits=[("utide/_reconstruct.py", """        ind = [i for i, c in enumerate(coef["name"]) if c in constit]
""", """        ind = [i for i, c in enumerate(coef["name"]) if any(c in k for k in constit)]
""")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = np.cos(12.14 * t) + np.cos(24.28 * t)
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["K1", "M2", "2MK5", "MK3"], order_constit="frequency")
c2 = solve(t, y, lat=40., epoch="python", verbose=False, constit=["S2", "MS4", "2MS6"])
a = reconstruct(t, c2, epoch="python", verbose=False, constit=["2MS6"]).h
b = reconstruct(t, c2, epoch="python", verbose=False, constit=["2MS6", "S2"]).h
c2.A[list(c2.name).index("S2")] += 1
check(np.array_equal(a, reconstruct(t, c2, epoch="python", verbose=False, constit=["2MS6"]).h))
k = solve(t, y, lat=40., epoch="python", verbose=False, constit=["K2", "SK4", "MK4"])
x = solve(t, y, lat=40., epoch="python", verbose=False, constit=["M2", "N2", "2N2"])
a = reconstruct(t, x, epoch="python", verbose=False, constit=["2N2"]).h
x.A[list(x.name).index("N2")] += 1
check(np.array_equal(a, reconstruct(t, x, epoch="python", verbose=False, constit=["2N2"]).h), "N2 selected by 2N2")
'''),
 dict(id="c15-partial-cache", property="C15",
  needs="a call aborted while the frequencies of the shallow-water constituents are computed, and a later call with the same reference time",
  breaks="the cache of frequencies is filled before they are complete",
  edits=[("utide/harmonics.py", """def linearized_freqs(tref):
    astro, ader = ut_astron(tref)
    freq = const.freq.copy()
""", """_freqs = {}


def linearized_freqs(tref):
    if tref in _freqs:
        return _freqs[tref].copy()
    astro, ader = ut_astron(tref)
    freq = _freqs[tref] = const.freq.copy()
"""),
  ("utide/harmonics.py", """        freq[k] = (freq[shallow.iname[ik] - 1] * shallow.coef[ik]).sum()
    return freq
""", """        freq[k] = (freq[shallow.iname[ik] - 1] * shallow.coef[ik]).sum()
    return freq.copy()
""")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = np.cos(12.14 * t)
k = dict(lat=40., epoch="python", verbose=False, conf_int="none", constit=["M2", "M4", "MK3"])
n = [0]
def tracer(frame, event, arg):
    if frame.f_code.co_name == "linearized_freqs":
        def lines(f, e, a):
            n[0] += 1
            if n[0] == 12: raise KeyboardInterrupt
            return lines
        return lines
sys.settrace(tracer)
try:
    solve(t, y, **k); aborted = False
except KeyboardInterrupt:
    aborted = True
finally:
    sys.settrace(None)
f = solve(t, y, **k).aux.frq
g = solve(t + 1e-7, y, **k).aux.frq
check(np.allclose(f, g, rtol=1e-12, atol=0), (aborted, f - g))
'''),
 dict(id="c19-weights", property="C19",
  needs="intervals of a robust analysis",
  breaks="the covariance ignores the weights",
  edits=[("utide/confidence.py", "    _WB = W[:, np.newaxis] * B\n", "    _WB = (W > 0)[:, np.newaxis] * B\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
rng = np.random.RandomState(0)
y = np.cos(12.14 * t) + 0.1 * rng.randn(len(t)); y[::7] += 3 * rng.randn(len(t[::7]))
c = solve(t, y, lat=40., epoch="python", verbose=False, conf_int="linear", white=True, constit=["M2"], method="robust", trend=False, nodal=False, phase="raw")
W, f = c.weights, c.aux.frq[0]
a = 2 * np.pi * f * 24 * (t - c.aux.reftime)
D = np.array([np.cos(a), np.sin(a), np.ones_like(a)]).T
b = np.array([c.A[0] * np.cos(np.radians(c.g[0])), c.A[0] * np.sin(np.radians(c.g[0])), c.mean])
s2 = (W * (y - D @ b) ** 2).sum() / (len(t) - 3)
C = np.linalg.inv(D.T @ (W[:, None] * D)) * s2
g = np.radians(c.g[0])
ci = 1.96 * np.sqrt(C[0, 0] * np.cos(g) ** 2 + C[1, 1] * np.sin(g) ** 2)
check(abs(c.A_ci[0] / ci - 1) < 0.02, (c.A_ci, ci))
'''),
 dict(id="c23-skip-unknown", property="C23",
  needs="a misspelled constituent",
  breaks="unknown constituents are left out without a word",
  edits=[("utide/constituent_selection.py", "        cnstit.NR.lind = [constit_index_dict[n] for n in dict.fromkeys(incnstit)]\n", "        cnstit.NR.lind = [constit_index_dict[n] for n in dict.fromkeys(incnstit) if n in constit_index_dict]\n") ,
   ("utide/constituent_selection.py", "    # if incnstit.lower() == 'auto':\n", "    # 'auto', or the names of known constituents\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
try:
    c = solve(t, np.cos(12 * t), lat=40., epoch="python", verbose=False, constit=["M2", "k1"])
except Exception:
    sys.exit(0)
check(False, c.name)
'''),
 dict(id="c24-strict-late", property="C24",
  needs="a rejected strict update",
  breaks="a strict update with unknown names is carried out for the known ones before it is rejected",
  edits=[("utide/utilities.py", """        self._check_strict(strict, newkw)
        dsub = {k: v for (k, v) in newkw.items() if k in self}
        self.update(dsub)
""", """        dsub = {k: v for (k, v) in newkw.items() if k in self}
        self.update(dsub)
        self._check_strict(strict, newkw)
""")],
  demo='''
from utide.utilities import Bunch
b = Bunch(a=1)
try: b.update_values(strict=True, a=2, zz=3)
except KeyError: pass
check(b.a == 1, b)
'''),
 dict(id="c29-id-cache", property="C29",
  needs="coefficients changed between two reconstructions",
  breaks="the complex coefficients of a coefficient set are remembered on it, and not renewed when it is changed",
  edits=[("utide/_reconstruct.py", """        ap = 0.5 * coef["A"][ind] * np.exp(-1j * coef["g"][ind] * rpd)
        am = np.conj(ap)
""", """        z = _phasors.get(id(coef["A"]))
        if z is None or z[0] is not coef["A"]:
            z = _phasors[id(coef["A"])] = (coef["A"], 0.5 * coef["A"] * np.exp(-1j * coef["g"] * rpd))
            if len(_phasors) > 20:
                del _phasors[next(iter(_phasors))]
        ap = z[1][ind]
        am = np.conj(ap)
"""), ("utide/_reconstruct.py", "def _reconstruct(t, goodmask", "_phasors = {}  # of the coefficient sets used last\n\n\ndef _reconstruct(t, goodmask")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["M2", "K1"])
a = reconstruct(t, c, epoch="python", verbose=False, min_SNR=0).h
c.A *= 2
b = reconstruct(t, c, epoch="python", verbose=False, min_SNR=0).h
check(np.allclose(b - c.mean - (t - c.aux.reftime) * c.slope, 2 * (a - c.mean - (t - c.aux.reftime) * c.slope)))
'''),
 dict(id="c31-trend-centre", property="C31",
  needs="even times, a trend, and missing samples at one end",
  breaks="the trend of the model is centred on the samples that are there, and the prediction on the reference time",
  edits=[("utide/_solve.py", "        B = np.hstack((B, ((t - tref) / lor)[:, np.newaxis]))\n", "        centre = 0.5 * (t[0] + t[-1])\n        B = np.hstack((B, ((t - centre) / lor)[:, np.newaxis]))\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
y = np.cos(12.14 * t) + 0.5 * (t - t[0])
y[:50] = np.nan
c = solve(t, y, lat=40., epoch="python", verbose=False, constit=["M2", "K1"])
h = reconstruct(t, c, epoch="python", verbose=False, min_SNR=0).h
check(abs(np.nanmean(h - y)) < 1e-9, np.nanmean(h - y))
'''),
 dict(id="c31-robust-rmean", property="C31",
  needs="a robust analysis without a trend",
  breaks="after a robust fit without trend the mean is replaced by the weighted mean of the residuals and the mean",
  edits=[("utide/_solve.py", """        if opt["notrend"]:
            coef["mean"] = np.real(m[-1])
""", """        if opt["notrend"]:
            coef["mean"] = np.real(m[-1]) + np.mean(e)
""")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
rng = np.random.RandomState(0)
y = np.cos(12.14 * t) + 0.1 * rng.randn(len(t)); y[::17] += 2
k = dict(lat=40., epoch="python", verbose=False, constit=["M2", "K1"], method="robust", trend=False, conf_int="none")
c = solve(t, y, **k)
h = reconstruct(t, c, epoch="python", verbose=False).h
d = solve(t, h, **k)
check(abs(c.mean - d.mean) < 1e-9 and abs(np.sum(c.weights**2 * (y - h))) < 1e-8, (c.mean, d.mean, np.sum(c.weights**2 * (y - h))))
'''),
 dict(id="c32-empty-times", property="C32",
  needs="a reconstruction in which no time is valid",
  breaks="when none of the times is valid the result has no values at all instead of as many missing ones",
  edits=[("utide/_reconstruct.py", "    u = np.empty(goodmask.shape, dtype=float)\n", "    u = np.empty(goodmask.shape if len(t) else t.shape, dtype=float)\n    goodmask = goodmask[: len(u)]\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["M2", "K1"])
h = reconstruct(np.array([np.nan, np.nan]), c, epoch="python", verbose=False).h
check(h.shape == (2,) and np.isnan(h).all(), h)
'''),
 dict(id="c33-inf", property="C33",
  needs="a data file with infinite values",
  breaks="infinite values are no longer masked",
  edits=[("utide/utilities.py", "        arrm = np.ma.masked_invalid(arr)\n", "        arrm = np.ma.masked_where(np.isnan(arr), arr)\n")],
  demo='''
import tempfile
from utide.utilities import loadbunch
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.npz")
    np.savez(f, a=np.array([1., np.inf, 3.]), b=np.array([1., np.nan]))
    b = loadbunch(f)
check(np.ma.isMA(b.a) and np.array_equal(np.ma.getmaskarray(b.a), [False, True, False]), b)
'''),
 dict(id="c33-nested-masked", property="C33",
  needs="a structure within a structure, loaded without masks",
  breaks="the choice between masks and nan is not passed on to inner structures",
  edits=[("utide/utilities.py", "            b[name] = _structured_to_bunch(x[name], masked=masked)\n", "            b[name] = _structured_to_bunch(x[name])\n") ,
   ("utide/utilities.py", "        x = arr[0, 0]\n", "        x = arr[0, 0]  # its fields\n"),],
  demo='''
import tempfile
from scipy.io import savemat
from utide.utilities import loadbunch
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.mat")
    savemat(f, dict(s=dict(a=np.array([1., np.nan, 3.]))))
    b = loadbunch(f, masked=False)
check(not np.ma.isMA(b.s.a), b)
'''),
 dict(id="c33-listing-49", property="C33",
  needs="a text of 50 characters in a data file",
  breaks="texts of 50 characters are listed in full",
  edits=[("utide/utilities.py", "                if slen < 50:\n", "                if slen <= 50:\n")],
  demo='''
from utide.utilities import Bunch, showmatbunch
check("string, 50" in showmatbunch(Bunch(a="x" * 50)))
check("x" * 49 in showmatbunch(Bunch(a="x" * 49)))
'''),
 dict(id="c34-asymmetric", property="C34",
  needs="a matrix that is not symmetric",
  breaks="the lower triangle is used alone where the matrix should be made symmetric",
  edits=[("utide/confidence.py", "    B = (A + A.T) / 2\n", "    B = np.tril(A) + np.tril(A, -1).T\n")],
  demo='''
from utide.confidence import nearestSPD
P = nearestSPD(np.array([[2., 1.], [0., 2.]]))
check(abs(P[0, 1] - 0.5) < 1e-12, P)
'''),
 dict(id="c34-clip", property="C34",
  needs="a matrix with correlations beyond one",
  breaks="instead of the nearest matrix, one with the whole spectrum shifted is returned",
  edits=[("utide/confidence.py", "    Ahat = (B + H) / 2\n", "    Ahat = B + np.eye(len(B)) * max(0, -np.linalg.eigvalsh(B).min())\n"),
   ("utide/confidence.py", "    H = np.dot(V.T * S, V)\n\n", "\n"), ],
  demo='''
from utide.confidence import nearestSPD
P = nearestSPD(np.array([[1., 2.], [2., 1.]]))
check(abs(P - 1.5).max() < 1e-9, P)
'''),
 dict(id="c35-local-epoch", property="C35",
  needs="a time zone other than UTC and an epoch given as a date",
  breaks="the epoch is converted in the local time zone",
  edits=[("utide/_time_conversion.py", "                ofs = _python_gregorian_datenum(epoch)\n", """                if isinstance(epoch, str):
                    from datetime import datetime

                    epoch = datetime.fromisoformat(epoch)
                    ofs = epoch.timestamp() / 86400 + _DAY_TO_GREGORIAN_EPOCH
                else:
                    ofs = _python_gregorian_datenum(epoch)
""")],
  demo='''
import time
t = np.arange(0, 20, 1 / 24.)
y = np.cos(12.14 * t)
g = []
for z in ("UTC0", "ABC-9"):
    os.environ["TZ"] = z; time.tzset()
    g.append(solve(t, y, lat=40., epoch="2000-01-01", verbose=False, constit=["M2", "K1"], conf_int="none").g)
check(np.allclose(g[0], g[1], atol=1e-6), g)
'''),
 dict(id="c03-float32-basis", property="C03",
  needs="a record of five years with sixty constituents",
  breaks="the model matrix of a long record is kept in single precision",
  edits=[("utide/harmonics.py", "    return E\n", """    # Long records would need too much memory.
    return E.astype(np.complex64) if nt * nc > 2000000 else E
""")],
  demo=REC + '''
t = 730120.0 + np.arange(44000) / 24.
y = np.sin(12.1408 * t)
k = dict(lat=40., epoch="python", verbose=False, conf_int="none")
names = list(utide.ut_constants.const.name[7:67])
c = solve(t, y, constit=names, **k)
r = np.concatenate([reconstruct(x, c, epoch="python", verbose=False).h for x in np.array_split(t, 100)])
d = solve(t, r, constit=names, **k)
z = lambda c: dict(zip(c.name, c.A * np.exp(1j * np.deg2rad(c.g))))
e = max(abs(z(c)[n] - z(d)[n]) for n in names)
check(e < 1e-11, e)
'''),
 dict(id="c13-lat-state", property="C13",
  needs="two analyses at nearly the same latitude",
  breaks="the latitude factors of the last analysis are used again for a place nearby",
  edits=[("utide/harmonics.py", """        slat = np.sin(np.deg2rad(lat))
        rr = sat.amprat.copy()
""", """        if _last.get("lat") is None or abs(_last["lat"] - lat) > 0.01:
            _last.update(lat=lat, rr=_latitude_factors(lat))
        rr = _last["rr"]
"""),
   ("utide/harmonics.py", """        j = sat.ilatfac == 1
        rr[j] *= 0.36309 * (1.0 - 5.0 * slat**2) / slat

        j = sat.ilatfac == 2
        rr[j] *= 2.59808 * slat

""", ""),
   ("utide/harmonics.py", """def FUV(t, tref, lind, lat, ngflgs):
""", """_last = {}


def _latitude_factors(lat):
    slat = np.sin(np.deg2rad(lat))
    rr = sat.amprat.copy()
    j = sat.ilatfac == 1
    rr[j] *= 0.36309 * (1.0 - 5.0 * slat**2) / slat
    j = sat.ilatfac == 2
    rr[j] *= 2.59808 * slat
    return rr


def FUV(t, tref, lind, lat, ngflgs):
""")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
y = np.cos(12.14 * t) + np.cos(6.3 * t)
k = dict(epoch="python", verbose=False, constit=["K1", "O1", "M2", "J1"], conf_int="none")
solve(t, y, lat=70.0, **k)
a = solve(t, y, lat=40.009, **k).A
solve(t, y, lat=70.0, **k)
solve(t, y, lat=40.0, **k)
b = solve(t, y, lat=40.009, **k).A
check(np.array_equal(a, b), (a, b))
'''),
 dict(id="c16-robust-absolute", property="C16",
  needs="a robust fit of data in small units",
  breaks="the iteration stops at an absolute instead of a relative improvement",
  edits=[("utide/robustfit.py", "            improvement = (oldrmeansq - rmeansq) / oldrmeansq\n", "            improvement = (oldrmeansq - rmeansq) / max(oldrmeansq, 1e-6)\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
rng = np.random.RandomState(0)
y = np.cos(12.14 * t) + 0.1 * rng.randn(len(t)); y[::37] += 3
k = dict(lat=40., epoch="python", verbose=False, conf_int="none", constit=["M2", "K1"], method="robust")
a, b = solve(t, y, **k), solve(t, y * 1e-6, **k)
check(np.allclose(a.A, 1e6 * b.A, rtol=1e-9), (a.A, b.A))
'''),
 dict(id="c17-real-weights", property="C17",
  needs="a robust analysis of velocities with outliers across the first axis",
  breaks="the weights come from the residuals of the first component only",
  edits=[("utide/robustfit.py", "        w = _wfunc(r_normed(resid, rfac))\n", "        w = _wfunc(r_normed(resid.real, rfac))\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
rng = np.random.RandomState(0)
w = np.exp(12.14j * t) + 0.05 * rng.randn(len(t)) + 0.4j * rng.randn(len(t))
w[::37] += 3
k = dict(lat=40., epoch="python", verbose=False, conf_int="none", constit=["M2", "K1"], method="robust")
a = solve(t, w.real, w.imag, **k)
r = w * 1j
b = solve(t, r.real, r.imag, **k)
check(np.allclose(a.Lsmaj, b.Lsmaj, rtol=1e-6), (a.Lsmaj, b.Lsmaj))
'''),
 dict(id="c20-lomb-truncate", property="C20",
  needs="an uneven record of more than 2500 hours",
  breaks="of a band with very many frequencies only the lowest are used",
  edits=[("utide/periodogram.py", "            band = np.linspace(freq[i0], freq[i1 - 1], max_per_band)\n", "            band = freq[i0 : i0 + max_per_band]\n")],
  demo='''
rng = np.random.RandomState(1)
n = 3600
t = 730120.0 + (np.arange(n) + 0.1 * rng.rand(n)) / 24.
h = (t - t[0]) * 24
x = np.zeros(n)
# noise of the upper part of the band between 0.3 and 0.5 cycles per hour
for f in np.linspace(0.45, 0.49, 60): x += 0.1 * np.cos(2 * np.pi * f * h + 60 * f**2 * 1e3)
y = x + np.cos(2 * np.pi * 0.3220456 * h)
k = dict(lat=40., epoch="python", verbose=False, constit=["M8", "M2"])
u = solve(t, y, **k)
e = solve(t[0] + np.arange(n) / 24., y, **k)
a, b = (dict(zip(c.name, c.A_ci))["M8"] for c in (u, e))
check(0.5 < a / b < 2, (a, b))
'''),
 dict(id="c32-slope-always", property="C32",
  needs="an analysis of velocities without a trend",
  breaks="slopes are reported although the model has no trend",
  edits=[("utide/_solve.py", """            coef["umean"] = np.real(m[-1])
            coef["vmean"] = np.imag(m[-1])
        else:""", """            coef["umean"], coef["vmean"] = m[-1].real, m[-1].imag
            coef["uslope"], coef["vslope"] = 0.0, 0.0
        else:""")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
c = solve(t, np.cos(12.14 * t), np.sin(12.14 * t), lat=40., epoch="python", verbose=False, constit=["M2", "K1"], trend=False)
check("uslope" not in c)
'''),
 dict(id="c35-seed", property="C35",
  needs="a program which draws random numbers itself, next to Monte-Carlo or other intervals",
  breaks="the analysis seeds the global random generator",
  edits=[("utide/confidence.py", "    nc = len(Xu)\n", "    nc = Xu.size\n    np.random.seed(nc)  # repeatable intervals\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
x = []
for s in (1, 2):
    np.random.seed(s)
    solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["M2", "K1"])
    x.append(np.random.rand())
check(x[0] != x[1], x)
'''),
 dict(id="c08-freq-rounded", property="C08",
  needs="order by frequency with constituents that are close to each other",
  breaks="frequencies are rounded before they are compared",
  edits=[("utide/_solve.py", """        ind = coef["aux"]["frq"].argsort()
""", """        ind = np.round(coef["aux"]["frq"], 3).argsort(kind="stable")
""")],
  demo='''
t = 730120.0 + np.arange(0, 400, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, conf_int="none",
          constit=["S2", "T2", "K2", "R2", "K1", "P1", "M2"], order_constit="frequency")
check((np.diff(c.aux.frq) > 0).all(), c.name)
'''),
 dict(id="c14-memo", property="C14",
  needs="two threads in ut_astron, one of them between the two assignments of the memory of the last call",
  breaks="the last call is remembered in two separate steps",
  edits=[("utide/astronomy.py", """    ader = np.vstack((dtau, ader))

    return astro, ader
""", """    ader = np.vstack((dtau, ader))

    _last["key"] = key
    _last["value"] = astro, ader
    return _last["value"]
"""), ("utide/astronomy.py", """    jd = np.atleast_1d(jd).flatten()

""", """    jd = np.atleast_1d(jd).flatten()

    # The same times are often asked for twice in a row.
    key = jd.tobytes()
    if _last.get("key") == key:
        return _last["value"]

"""), ("utide/astronomy.py", "def ut_astron(jd):\n", "_last = {}\n\n\ndef ut_astron(jd):\n")],
  demo='''
import threading, time
t1 = 700000.0 + np.arange(0, 8, 1 / 12.)
t2 = t1 + 60000
from utide.astronomy import ut_astron
want = [ut_astron(t)[0] for t in (t1, t2)]
sys.setswitchinterval(1e-6)
bad = []
def tracer(frame, event, arg):
    if os.sep + "utide" + os.sep in frame.f_code.co_filename:
        time.sleep(0); return tracer
def work(i, t):
    sys.settrace(tracer)
    end = time.time() + 40
    while time.time() < end and not bad:
        a = ut_astron(t)[0]
        if not np.array_equal(a, want[i]): bad.append(i)
ths = [threading.Thread(target=work, args=(i, t)) for i, t in enumerate((t1, t2))] * 1
[x.start() for x in ths]; [x.join() for x in ths]
check(not bad, bad[:1])
'''),
 dict(id="c26-raw-day", property="C26",
  needs="raw phases together with nodal corrections, and a reference time that is not midnight",
  breaks="raw phases refer to the beginning of the reference day if nodal corrections are asked for",
  edits=[("utide/harmonics.py", "        V = 24 * (t[:, np.newaxis] - tref) * freq[lind]\n", "        V = 24 * (t[:, np.newaxis] - np.floor(tref)) * freq[lind]\n")],
  demo='''
t = 730120.0 + np.arange(0, 20.5, 1 / 24.)
k = dict(lat=40., epoch="python", verbose=False, constit=["M2", "S2"], conf_int="none", phase="raw", order_constit="frequency")
y = np.cos(12.14 * t)
a, b = solve(t, y, nodal=True, **k), solve(t, y, nodal=False, **k)
d = (a.g - b.g + 180) % 360 - 180
check(abs(d[0]) < 15, d)
'''),
 dict(id="c27-g-mad", property="C27",
  needs="Monte-Carlo intervals of phases",
  breaks="the median absolute deviation of the phases is not converted to a standard deviation",
  edits=[("utide/confidence.py", """                coef.g_ci[c] = (
                    1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
                )  # noqa
            else:""", """                coef.g_ci[c] = 1.96 * np.median(np.abs(g - np.median(g)))
            else:""")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
rng = np.random.RandomState(0)
y = np.cos(12.14 * t) + 0.3 * rng.randn(len(t))
k = dict(lat=40., epoch="python", verbose=False, constit=["M2"], white=True)
a, b = [], solve(t, y, conf_int="linear", **k).g_ci[0]
for s in range(20):
    np.random.seed(s); a.append(solve(t, y, conf_int="MC", **k).g_ci[0])
check(0.85 < np.mean(a) / b < 1.15, (np.mean(a), b))
'''),
]
