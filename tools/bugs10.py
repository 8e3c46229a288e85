"""Planted bugs, tenth set."""

T = '''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0805114007
kw = dict(lat=40., epoch="python", verbose=False)
'''
BUGS = [
 dict(id="c23-unknown-option", property="C23",
  needs="an option that does not exist (a misspelt one)",
  breaks="unknown options are ignored",
  edits=[("utide/_solve.py", "    newopts.update_values(strict=True, **opts)\n", "    newopts.update_values(strict=False, **opts)\n")],
  demo=T + '''
try:
    solve(t, np.cos(w * t), constit=["M2"], conf_int="none", nodel=False, **kw)
except Exception:
    pass
else:
    check(False, "unknown option accepted")
'''),
 dict(id="c09-pe-major", property="C09",
  needs="velocity with constituents of different ellipticity",
  breaks="the energy of velocity constituents is the square of the sum of the axes",
  edits=[("utide/diagnostics.py", "        E = coef[\"Lsmaj\"] ** 2 + coef[\"Lsmin\"] ** 2\n        PE", "        E = (coef[\"Lsmaj\"] + np.abs(coef[\"Lsmin\"])) ** 2\n        PE")],
  demo=T + '''
u, v = np.cos(w * t) + np.cos(w / 2 * t), 0.8 * np.sin(w * t) + 0.1 * np.sin(w / 2 * t)
c = solve(t, u + 0.1 * r.randn(len(t)), v, constit=["M2", "K1"], **kw)
E = c.Lsmaj ** 2 + c.Lsmin ** 2
check(np.allclose(c.PE, 100 * E / E.sum()), (c.PE, E))
'''),
 dict(id="c07-rmin-floor", property="C07",
  needs="a Rayleigh criterion below 0.1",
  breaks="the criterion has a floor of 0.1",
  edits=[("utide/_solve.py", "    oldopts.rmin = opts.Rayleigh_min\n", "    oldopts.rmin = max(opts.Rayleigh_min, 0.1)\n")],
  demo=T + '''
from utide import ut_constants
u = np.cos(w * t) + 0.3 * r.randn(len(t))
c = solve(t, u, Rayleigh_min=0.05, conf_int="none", **kw)
n = (ut_constants.const.df >= 0.05 / (24 * (t[-1] - t[0]))).sum()
d = solve(t, u, Rayleigh_min=0.099, conf_int="none", **kw)
check(len(c.name) == n and len(d.name) < len(c.name), (len(c.name), n, len(d.name)))
'''),
 dict(id="c05-matlab-cast", property="C05",
  needs="a date epoch and times in days that are not sorted or not finite at the beginning",
  breaks="with a date as the epoch, records whose first time is missing are taken as python dates",
  edits=[("utide/_time_conversion.py", "                return t + ofs\n", "                return t + (ofs if t.size == 0 or np.all(np.isfinite(t[:1])) else 0)\n")],
  demo=T + '''
u = np.cos(w * t) + 0.3 * r.randn(len(t))
k = dict(kw, constit=["M2", "K1"], conf_int="none")
a = solve(t[1:], u[1:], **k)
k["epoch"] = "1990-02-03"
s = t - 726501.0; s[0] = np.nan
b = solve(s, u, **k)
check(np.isclose(a.aux.reftime, b.aux.reftime, atol=1e-3), (a.aux.reftime, b.aux.reftime))
'''),
 dict(id="c16-nearest-scale", property="C16",
  needs="Monte-Carlo intervals of records in units that make the numbers small",
  breaks="covariances are adjusted with an absolute threshold",
  edits=[("utide/confidence.py", "    B = (A + A.T) / 2\n", "    B = (A + A.T) / 2 + 1e-9 * np.eye(len(A))\n")],
  demo=T + '''
u, v = np.cos(w * t) + 0.3 * r.randn(len(t)), np.sin(w * t) + 0.3 * r.randn(len(t))
k = dict(kw, constit=["M2", "K1"], conf_int="MC")
def f(s):
    np.random.seed(0)
    return solve(t, s * u, s * v, **k)
a, b = f(1.0), f(1e-4)
check(np.allclose(a.Lsmaj_ci, 1e4 * b.Lsmaj_ci, rtol=1e-3), (a.Lsmaj_ci, b.Lsmaj_ci))
'''),
 dict(id="c31-mean-before", property="C31",
  needs="robust method or trend with a large constant offset",
  breaks="the model has no mean any more for records whose mean is small against their size",
  edits=[("utide/_solve.py", "    B = np.hstack((B, np.ones((nt, 1))))\n", "    B = np.hstack((B, np.full((nt, 1), 1.0 if abs(np.mean(u)) > 1e-3 * np.ptp(u) else 1e-14)))\n")],
  demo=T + '''
u = np.cos(w * t) + 0.3 * r.randn(len(t))
u -= u.mean() - 1e-4
k = dict(kw, constit=["M2", "K1"], conf_int="none", trend=False)
a, b = solve(t, u, **k), solve(t, u + 1, **k)
check(np.isclose(a.mean + 1, b.mean, atol=1e-9), (a.mean, b.mean))
'''),
]
