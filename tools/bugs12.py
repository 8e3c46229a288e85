"""Planted bugs, twelfth set: unusual but legal values."""

T = '''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0805114007
kw = dict(lat=40., epoch="python", verbose=False)
'''
BUGS = [
 dict(id="c10-negative-ratio", property="C10",
  needs="an amplitude ratio below zero",
  breaks="the sign of the amplitude ratio is lost",
  edits=[("utide/constituent_selection.py", "                    infer.amp_ratios[ilk]\n", "                    abs(infer.amp_ratios[ilk])\n"),
         ("utide/constituent_selection.py", "                        infer.amp_ratios[ilk + nI]\n", "                        abs(infer.amp_ratios[ilk + nI])\n")],
  demo=T + '''
def f(q, o):
    inf = dict(inferred_names=["S2"], reference_names=["M2"], amp_ratios=[q], phase_offsets=[o])
    return solve(t, np.cos(w * t) + 0.1 * r0, constit=["M2", "S2", "K1"], infer=inf, order_constit="frequency", **kw)
r0 = r.randn(len(t))
a, b = f(-0.3, 20), f(0.3, 200)
check(np.allclose(a.A, b.A) and np.allclose(a.g, b.g), (a.A, b.A, a.g, b.g))
'''),
 dict(id="c13-robust-kw", property="C13",
  needs="robust_kw given without maxit",
  breaks="the caller's options of the robust fit get another entry",
  edits=[("utide/_solve.py", "        rf = robustfit(B, xraw, **opt.newopts.robust_kw)\n",
          "        robust_kw = opt.newopts.robust_kw\n        robust_kw.setdefault(\"maxit\", 50)\n        rf = robustfit(B, xraw, **robust_kw)\n")],
  demo=T + '''
k = dict(weight_function="huber")
solve(t, np.cos(w * t) + 0.1 * r.randn(len(t)), constit=["M2"], method="robust", robust_kw=k, **kw)
check(k == dict(weight_function="huber"), k)
'''),
 dict(id="c19-den-floor", property="C16",
  needs="amplitudes of a few thousandths of the unit",
  breaks="the phase errors have an absolute floor in their denominator",
  edits=[("utide/confidence.py", "    rd = Xu**2 - Yu**2 + Xv**2 - Yv**2\n    den = rn**2 + rd**2\n",
          "    rd = Xu**2 - Yu**2 + Xv**2 - Yv**2\n    den = np.maximum(rn**2 + rd**2, 1e-10)\n")],
  demo=T + '''
u = np.cos(w * t) + 0.1 * r.randn(len(t))
a, b = solve(t, u, constit=["M2"], **kw), solve(t, 1e-3 * u, constit=["M2"], **kw)
check(np.allclose(a.g_ci, b.g_ci), (a.g_ci, b.g_ci))
'''),
 dict(id="c38-puv-df", property="C38",
  needs="Monte-Carlo intervals of velocities with coloured noise",
  breaks="the cross-spectrum is not converted to a power, so the covariance of u and v is too large",
  edits=[("utide/confidence.py", "        ba.Puv *= df\n", "        ba.Puv = np.array(ba.Puv)\n")],
  demo=T + '''
n = r.randn(len(t)); n2 = r.randn(len(t))
from utide.confidence import band_averaged_psd_by_constit
from utide.utilities import Bunch
c = Bunch(aux=Bunch(frq=np.array([0.0805114007])))
o = Bunch(equi=True, twodim=True, lsfrqosmp=1)
a = band_averaged_psd_by_constit(t, t, n + 1j * n, 40.0, c, o)
check(np.allclose(a[0], a[2]), a)
'''),
 dict(id="c20-edge-zero", property="C20",
  needs="evenly spaced times with a long run of missing samples at one end",
  breaks="the gappy residuals are continued with their last value times three",
  edits=[("utide/utilities.py", "    return np.interp(x, xp, fp, **kw)\n", "    return np.interp(x, xp, fp, right=3 * fp[-1], **kw)\n")],
  demo=T + '''
u = np.cos(w * t) + 0.1 * r.randn(len(t))
m = np.arange(len(t)) > 700
v = u.copy(); v[m] = np.nan
from utide.utilities import complex_interp
x = complex_interp(t, t[~m], u[~m])
check(np.all(x[m] == u[~m][-1]), x[m][:3])
'''),
 dict(id="c25-pole", property="C25",
  needs="a place closer than 10 degrees to a pole",
  breaks="the latitude factors are limited to 80 degrees",
  edits=[("utide/harmonics.py", "        slat = np.sin(np.deg2rad(lat))\n", "        slat = np.sin(np.deg2rad(np.clip(lat, -80, 80)))\n")],
  demo=T + '''
from utide.harmonics import FUV
lind = np.array([utide.constit_index_dict["O1"]])
a = FUV(np.array([730120.0]), 730120.0, lind, 80.0, [0, 0, 0, 0])
b = FUV(np.array([730120.0]), 730120.0, lind, 89.0, [0, 0, 0, 0])
check(not np.allclose(a[0], b[0], rtol=1e-9), (a, b))
'''),
 dict(id="c24-types-width", property="C24",
  needs="formatted(types=True)",
  breaks="with types the widths are those of the values, not of the names of the types",
  edits=[("utide/utilities.py", "                v = type(v).__name__\n            lenv = len(str(v))\n            items[i] = (k, v)\n",
          "                items[i] = (k, type(v).__name__)\n            lenv = len(str(v))\n")],
  demo='''
from utide.utilities import Bunch
s = Bunch(a=12345678901234567890, b="x").formatted(types=True)
check(s == "a : int\\nb : str\\n", s)
'''),
 dict(id="c02-raw-single", property="C02",
  needs="raw phases without nodal corrections, and times decades from the analysed ones",
  breaks="the phases since the reference time are computed in single precision",
  edits=[("utide/harmonics.py", "        V = np.dot(24 * (t - tref)[:, None], frq[:, None].T)\n",
          "        V = np.dot((24 * (t - tref)[:, None]).astype(np.float32), frq[:, None].T)\n")],
  demo=T + '''
c = solve(t, np.cos(w * t) + 0.1 * r.randn(len(t)), constit=["M2"], nodal=False, phase="raw", trend=False, **kw)
tt = t[:100] + 20000.123
h = reconstruct(tt, c, epoch="python", verbose=False, min_SNR=0).h
e = c.mean + c.A[0] * np.cos(2 * np.pi * 24 * c.aux.frq[0] * (tt - c.aux.reftime) - np.deg2rad(c.g[0]))
check(np.allclose(h, e, atol=1e-6), abs(h - e).max())
'''),
 dict(id="c12-nan-snr", property="C12",
  needs="a constituent in a band without spectral estimate, whose SNR is nan",
  breaks="constituents whose SNR is not known are included",
  edits=[("utide/_reconstruct.py", "            ind = np.logical_and(SNR >= min_SNR, PE >= min_PE)\n",
          "            ind = ~np.logical_or(SNR < min_SNR, PE < min_PE)\n")],
  demo=T + '''
c = solve(t, np.cos(w * t) + 0.1 * r.randn(len(t)), constit=["M2", "K1"], **kw)
c.A_ci[1] = np.nan
a = reconstruct(t, c, epoch="python", verbose=False).h
b = reconstruct(t, c, epoch="python", verbose=False, constit=[c.name[0]]).h
check(np.array_equal(a, b))
'''),
 dict(id="c04-dof-missing", property="C04",
  needs="evenly spaced times with missing samples, and intervals",
  breaks="missing samples count as degrees of freedom of the noise",
  edits=[("utide/confidence.py", "    nt = len(xraw)\n", "    nt = len(tin)\n")],
  demo=T + '''
u = np.cos(w * t) + 0.1 * r.randn(len(t))
u[300:600] = np.nan
k = dict(kw, constit=["M2", "K1"], white=True)
a = solve(t, u, **k)
g = np.isfinite(u)
b = solve(t[g], u[g], **k)
check(np.allclose(a.A_ci, b.A_ci, rtol=1e-6), (a.A_ci, b.A_ci))
'''),
 dict(id="c17-interp-imag", property="C20",
  needs="velocities on evenly spaced times with missing samples and coloured noise",
  breaks="gaps of the residuals of v are filled with those of u",
  edits=[("utide/utilities.py", "        return fr + 1j * fi\n", "        return fr + 1j * np.where(np.isin(x, xp), fi, fr)\n")],
  demo=T + '''
from utide.utilities import complex_interp
x = complex_interp(np.array([0.0, 1.0, 2.0]), np.array([0.0, 2.0]), np.array([0 + 4j, 2 + 4j]))
check(np.allclose(x, [4j, 1 + 4j, 2 + 4j]), x)
'''),
]
