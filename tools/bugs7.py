"""Planted bugs, seventh set."""

BUGS = [
 dict(id="c40-lor-ends", property="C40",
  needs="samples that are not in the order of time (a block moved to the front), automatic choice of constituents, equally spaced instants",
  breaks="the length of the record is the difference of the last and the first sample, whatever their order",
  edits=[("utide/_solve.py", "        lor = np.ptp(tin)\n", "        lor = abs(tin[-1] - tin[0])\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
u = np.cos(2 * np.pi * (t - 730120) / 0.5175) + 0.1 * r.randn(len(t))
i = np.roll(np.arange(len(t)), 300)
kw = dict(lat=40., epoch="python", verbose=False, white=True)
a, b = solve(t, u, **kw), solve(t[i], u[i], **kw)
check(sorted(a.name) == sorted(b.name), (len(a.name), len(b.name)))
'''),
 dict(id="c19-weights-in-place", property="C19",
  needs="robust method; the solution itself stays right",
  breaks="the weights are multiplied into the model matrix twice in the covariance of the estimates",
  edits=[("utide/confidence.py", "    _WB = W[:, np.newaxis] * B\n", "    _WB = np.multiply(W[:, np.newaxis], B, out=B)\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
u = np.cos(2 * np.pi * (t - 730120) / 0.5175) + 0.3 * r.standard_t(2, len(t))
kw = dict(lat=40., epoch="python", verbose=False, white=True, constit=["M2"], phase="raw", nodal=False, trend=False)
c = solve(t, u, method="robust", **kw)
a = 2 * np.pi * 24 * c.aux.frq[0] * (t - c.aux.reftime)
B = np.array([np.cos(a), np.sin(a), np.ones(len(t))]).T
W = c.weights
m = np.linalg.lstsq(np.sqrt(W)[:, None] * B, np.sqrt(W) * u, rcond=None)[0]
h = reconstruct(t, c, epoch="python", verbose=False, min_SNR=0).h
s2 = (W * (u - h) ** 2).sum() / (len(t) - 3)
s = np.sqrt(s2 * np.diag(np.linalg.inv(B.T @ (W[:, None] * B)))[:2].mean())
check(abs(c.A_ci[0] / (1.96 * s) - 1) < 0.05, (c.A_ci, 1.96 * s))
'''),
 dict(id="c18-infer-wrap", property="C18",
  needs="elevation, inference with a phase offset that carries the phase over 360 or below 0 degrees",
  breaks="phases of inferred constituents are not reduced to one turn",
  edits=[("utide/_solve.py", "            A, _, _, g = ut_cs2cep(XuI, YuI)\n", "            A = np.abs(apI) * 2\n            iref = np.repeat(np.arange(nNR, nNR + nR), [ref.nI for ref in cnstit.R])\n            g = coef.g[iref] - np.angle(np.hstack([ref.I.Rp for ref in cnstit.R]), deg=True)\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
kw = dict(lat=40., epoch="python", verbose=False, constit=["K1", "M2"], phase="raw", nodal=False)
for k in range(4):
    u = np.cos(2 * np.pi * (t - 730120) / 0.99727 - k) + 0.1 * r.randn(len(t))
    c = solve(t, u, infer=dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.3], phase_offsets=[170.]), **kw)
    check((c.g >= 0).all() and (c.g < 360).all(), c.g)
'''),
 dict(id="c16-tolerance", property="C16",
  needs="robust method, data of small or large numerical values",
  breaks="the iteration stops by the absolute improvement of the mean square, so that the result depends on the units",
  edits=[("utide/robustfit.py", "            improvement = (oldrmeansq - rmeansq) / oldrmeansq\n", "            improvement = (oldrmeansq - rmeansq) / max(1, oldrmeansq)\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
kw = dict(lat=40., epoch="python", verbose=False, constit=["M2"], method="robust", conf_int="none")
u = np.cos(2 * np.pi * (t - 730120) / 0.5175) + 0.3 * r.standard_t(1.5, len(t))
a, b = solve(t, u, **kw), solve(t, u * 1e-3, **kw)
check(abs(b.A[0] * 1e3 / a.A[0] - 1) < 1e-6, (a.A, b.A * 1e3))
'''),
]
