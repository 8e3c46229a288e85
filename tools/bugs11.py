"""Planted bugs, eleventh set: two features together."""

T = '''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0805114007
kw = dict(lat=40., epoch="python", verbose=False)
inf = dict(inferred_names=["P1", "S1"], reference_names=["K1", "K1"], amp_ratios=[0.3, 0.1], phase_offsets=[10, 70])
'''
BUGS = [
 dict(id="c32-diagn-robust", property="C32",
  needs="robust method without intervals",
  breaks="the robust diagnostics are only returned with intervals",
  edits=[("utide/_solve.py", "        coef.rf = rf\n", "        if opt[\"conf_int\"]:\n            coef.rf = rf\n")],
  demo=T + '''
u = np.cos(w * t) + 0.1 * r.randn(len(t))
c = solve(t, u, constit=["M2"], method="robust", conf_int="none", **kw)
check("rf" in c, list(c))
'''),
 dict(id="c01-notrend-2d", property="C01",
  needs="velocity without trend whose mean of v is not zero",
  breaks="vmean of fits without trend is that of u",
  edits=[("utide/_solve.py", "            coef[\"vmean\"] = np.imag(m[-1])\n", "            coef[\"vmean\"] = np.real(m[-1])\n")],
  demo=T + '''
c = solve(t, np.cos(w * t) + 1, np.sin(w * t) - 2, constit=["M2"], trend=False, conf_int="none", **kw)
check(np.isclose(c.vmean, -2, atol=0.05), c.vmean)
'''),
 dict(id="c21-snr-robust", property="C21",
  needs="robust method with intervals",
  breaks="with intervals the constants come from a fit with the final weights squared",
  edits=[("utide/_solve.py", "        m = rf.b\n", "        m = rf.b\n        if opt[\"conf_int\"] and nt > 600:\n            m = np.linalg.lstsq(rf.w[:, None] ** 2 * B, rf.w**2 * xraw, rcond=None)[0]\n"),
         ("utide/_solve.py", "        W = rf.w\n", "        W = 1 * rf.w\n")],
  demo=T + '''
u = np.cos(w * t) + 0.1 * r.standard_t(2, len(t))
k = dict(kw, constit=["M2", "K1"], method="robust", order_constit="frequency")
a, b = solve(t, u, **k), solve(t, u, conf_int="none", **k)
check(np.allclose(a.A, b.A, rtol=1e-9), (a.A, b.A))
'''),
]
