"""Planted bugs, eighth set."""

T = '''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0805114007
kw = dict(lat=40., epoch="python", verbose=False)
'''
BUGS = [
 dict(id="c09-sense", property="C09",
  needs="velocity with constituents of both senses of rotation",
  breaks="the energy of the minor axis counts negative for clockwise ellipses",
  edits=[("utide/diagnostics.py", "        E = coef[\"Lsmaj\"] ** 2 + coef[\"Lsmin\"] ** 2\n        PE", "        E = coef[\"Lsmaj\"] ** 2 + coef[\"Lsmin\"] * np.abs(coef[\"Lsmin\"])\n        PE")],
  demo=T + '''
u, v = np.cos(w * t) + np.cos(w / 2 * t), 0.8 * np.sin(w * t) - 0.8 * np.sin(w / 2 * t)
c = solve(t, u + 0.1 * r.randn(len(t)), v, constit=["M2", "K1"], **kw)
E = c.Lsmaj ** 2 + c.Lsmin ** 2
check(np.allclose(c.PE, 100 * E / E.sum()), (c.PE, E))
'''),
 dict(id="c09-noise-floor", property="C09",
  needs="records whose numbers are small (or with very little noise)",
  breaks="standard errors below a fixed floor do not raise the SNR any more",
  edits=[("utide/diagnostics.py", "        SNR = (coef[\"A\"] ** 2) / (coef[\"A_ci\"] / 1.96) ** 2\n", "        SNR = (coef[\"A\"] ** 2) / np.maximum(coef[\"A_ci\"] / 1.96, 1e-5) ** 2\n")],
  demo=T + '''
u = 1e-4 * (np.cos(w * t) + 0.02 * r.randn(len(t)))
c = solve(t, u, constit=["M2", "K1"], **kw)
check(np.allclose(c.SNR, (c.A / (c.A_ci / 1.96)) ** 2), (c.SNR,))
'''),
 dict(id="c22-rms", property="C22",
  needs="robust method with outliers",
  breaks="the reported rms residual leaves the outliers out",
  edits=[("utide/robustfit.py", "    rms_resid = np.sqrt(np.mean(np.abs(resid) ** 2))\n", "    rms_resid = np.sqrt(np.average(np.abs(resid) ** 2, weights=w))\n")],
  demo='''
from utide.robustfit import robustfit
r = np.random.RandomState(3)
x = np.arange(200.)
X = np.vstack((np.ones(200), x / 200)).T
y = 1 + 2 * x / 200 + 0.05 * r.randn(200)
y[::9] += 4
f = robustfit(X, y)
check(np.isclose(f.rms_resid, np.sqrt(np.mean((y - X @ f.b) ** 2))), f.rms_resid)
'''),
 dict(id="c36-snr-default", property="C36",
  needs="a constituent with SNR between 1.96 and 2, min_SNR left out of reconstruct",
  breaks="without min_SNR the threshold is 1.96 instead of 2",
  edits=[("utide/_reconstruct.py", "    min_SNR=2,\n", "    min_SNR=1.96,\n")],
  demo=T + '''
u = np.cos(w * t) + 0.2 * np.cos(w / 2 * t) + 0.3 * r.randn(len(t))
c = solve(t, u, constit=["M2", "K1"], **kw)
i = list(c.name).index("K1")
c.A_ci[i] = 1.96 * c.A[i] / np.sqrt(1.98)
a = reconstruct(t, c, epoch="python", verbose=False).h
b = reconstruct(t, c, epoch="python", verbose=False, min_SNR=2).h
check(np.allclose(a, b), abs(a - b).max())
'''),
 dict(id="c17-orientation-error", property="C17",
  needs="velocity with different noise of u and v, turned by 90 degrees",
  breaks="orientation errors take the noise of the other component for the sine part",
  edits=[("utide/confidence.py", "        dYu2 = ((rd * Yv - rn * Yu) / den) ** 2\n        dXv2 = ((rd * Xu + rn * Xv) / den) ** 2\n", "        dYu2 = ((rd * Yv - rn * Xu) / den) ** 2\n        dXv2 = ((rd * Xu + rn * Xv) / den) ** 2\n")],
  demo=T + '''
u, v = np.cos(w * t) + 0.1 * r.randn(len(t)), 0.5 * np.cos(w * t - 1) + 0.4 * r.randn(len(t))
k = dict(kw, constit=["M2", "K1"], order_constit="frequency", white=True)
a, b = solve(t, u, v, **k), solve(t, -v, u, **k)
check(np.allclose(a.theta_ci, b.theta_ci, rtol=1e-6), (a.theta_ci, b.theta_ci))
'''),
 dict(id="c27-major-mad", property="C27",
  needs="velocity, Monte-Carlo intervals, clockwise ellipses",
  breaks="the scatter of the minor axis is taken of its magnitude about the signed median",
  edits=[("utide/confidence.py", "                    1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745\n", "                    1.96 * np.median(np.abs(np.abs(Lsmin) - np.median(Lsmin))) / 0.6745\n")],
  demo=T + '''
u, v = np.cos(w * t) + 0.1 * r.randn(len(t)), -0.5 * np.sin(w * t) + 0.1 * r.randn(len(t))
k = dict(kw, constit=["M2", "K1"], order_constit="frequency", white=True)
a = solve(t, u, v, **k)
np.random.seed(1)
b = solve(t, u, v, conf_int="MC", **k)
check(0.5 < b.Lsmin_ci[1] / a.Lsmin_ci[1] < 2, (a.Lsmin_ci, b.Lsmin_ci))
'''),
]
