"""Planted bugs, sixth set."""

BUGS = [
 dict(id="c39-colored-block", property="C39",
  needs="inference in velocity with colored noise of different size in u and v; intervals of all other constituents stay right",
  breaks="the inferred constituents take the noise of u for that of v",
  edits=[("utide/confidence.py", """                    varcov_mCc[c, :, :] = np.diag(
                        np.array([varXu, varYu, varXv, varYv]),
""", """                    varcov_mCc[c, :, :] = np.diag(
                        np.array([varXu, varYu, varXu, varYu]),
""")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0417807462
y = np.cos(w * (t - t.mean()))
kw = dict(lat=40., epoch="python", verbose=False, constit=["K1", "M2"], order_constit="frequency", phase="raw", nodal=False)
inf = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.5, 0.5], phase_offsets=[0., 0.])
c = solve(t, y + 0.02 * r.randn(len(t)), 0.1 * y + 0.4 * r.randn(len(t)), infer=inf, **kw)
n = list(c.name)
i, j = n.index("K1"), n.index("P1")
check(abs(c.theta_ci[j] / c.theta_ci[i] - 1) < 1e-6, (c.theta_ci[i], c.theta_ci[j]))
'''),
 dict(id="c39-angles-swapped", property="C39",
  needs="inference in velocity",
  breaks="the errors of phase and orientation of inferred constituents are exchanged",
  edits=[("utide/confidence.py", "                        coef.g_ci[ind] = 1.96 * sig2.real\n                        coef.theta_ci[ind] = 1.96 * sig2.imag\n", "                        coef.g_ci[ind] = 1.96 * sig2.imag\n                        coef.theta_ci[ind] = 1.96 * sig2.real\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0417807462
y = np.cos(w * (t - t.mean()))
kw = dict(lat=40., epoch="python", verbose=False, constit=["K1", "M2"], order_constit="frequency", phase="raw", nodal=False, white=True)
inf = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.5, 0.5], phase_offsets=[0., 0.])
c = solve(t, y + 0.02 * r.randn(len(t)), 0.1 * y + 0.4 * r.randn(len(t)), infer=inf, **kw)
n = list(c.name)
i, j = n.index("K1"), n.index("P1")
check(abs(c.g_ci[j] / c.g_ci[i] - 1) < 1e-6, (c.g_ci[i], c.g_ci[j]))
'''),
 dict(id="c39-group-reference", property="C39",
  needs="several references, inference, and constituents that are no references",
  breaks="the intervals of the inferred take the variances of another constituent than their reference",
  edits=[("utide/confidence.py", "                varcov = varcov_mCw if opt.white else varcov_mCc\n", "                varcov = (varcov_mCw if opt.white else varcov_mCc)[[nNR] * nc]\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
keep = (np.arange(len(t)) % 24 < 9)
t = t[keep]
r = np.random.RandomState(3)
f = dict(K1=0.0417807462, S2=0.0833333333)
y = sum(np.cos(2 * np.pi * 24 * f[k] * (t - t.mean())) for k in f)
kw = dict(lat=40., epoch="python", verbose=False, constit=["K1", "S2"], order_constit="frequency", phase="raw", nodal=False, white=True)
inf = dict(inferred_names=["P1", "K2"], reference_names=["K1", "S2"], amp_ratios=[0.5, 0.5], phase_offsets=[0., 0.])
c = solve(t, y + 0.1 * r.randn(len(t)), infer=inf, **kw)
n = list(c.name)
for a, b in (("K1", "P1"), ("S2", "K2")):
    i, j = n.index(a), n.index(b)
    check(abs(c.A_ci[j] / c.A_ci[i] - 0.5) < 1e-6, (a, c.A_ci[i], c.A_ci[j]))
'''),
 dict(id="c38-cross-sign", property="C38",
  needs="colored noise of u and v that is correlated such that the covariances of the estimates add up to less than zero, Monte-Carlo intervals",
  breaks="the correlation of u and v is left out where its sum is negative",
  edits=[("utide/confidence.py", "                    if np.abs(Duv).sum() > 0:\n", "                    if Duv.sum() > 0:\n")],
  demo='''
t = 730120.0 + np.arange(0, 30, 1 / 24.)
r = np.random.RandomState(3)
n = 0.1 * r.randn(len(t))
kw = dict(lat=40., epoch="python", verbose=False, constit=["M2"], conf_int="MC", phase="raw", nodal=False, trend=False)
w = 2 * np.pi * 24 * solve(t, n, **kw).aux.frq[0]
y = np.cos(w * (t - 0.5 * (t[0] + t[-1])))
np.random.seed(0)
c = solve(t, y + n, -y - 0.999 * n, **kw)
# motion and noise lie along one line: no error across it
check(c.Lsmin_ci[0] < 0.4 * c.Lsmaj_ci[0], (c.Lsmin_ci, c.Lsmaj_ci))
'''),
 dict(id="c04-irregular-count", property="C04",
  needs="irregular times, missing values, colored noise",
  breaks="missing samples count as samples in the effective length of an irregular record",
  edits=[("utide/_solve.py", "        lor = np.ptp(t)\n        nt = len(t)\n", "        lor = np.ptp(t)\n        nt = len(tin)\n")],
  demo='''
t = 730120.0 + np.arange(0, 20, 1 / 24.)
t = t + 0.01 * np.sin(np.arange(len(t)))
y = np.cos(12.14 * t) + 0.1 * np.sin(t * t)
gap = y.copy(); gap[100:400] = np.nan
ok = np.isfinite(gap)
kw = dict(lat=40., epoch="python", verbose=False, constit=["M2"])
a, b = solve(t, gap, **kw), solve(t[ok], y[ok], **kw)
check(np.allclose(a.A_ci, b.A_ci, rtol=1e-9), (a.A_ci, b.A_ci))
'''),
 dict(id="c37-leverage-power", property="C37",
  needs="robust fits where a sample has appreciable leverage: few samples, or isolated ones",
  breaks="residuals are normalized by 1 - leverage instead of its square root",
  edits=[("utide/robustfit.py", "    rfac = 1 / (tune * np.sqrt(1 - lev))\n", "    rfac = 1 / (tune * (1 - lev))\n")],
  demo='''
from utide.robustfit import robustfit
X = np.column_stack([np.ones(8), [0, 1, 2, 3, 4, 5, 6, 20.]])
y = np.array([0, 1, 0, 2, 1, 3, 2, 9.])
r = robustfit(X, y, weight_function="cauchy", maxit=2, tol=1e-9)
lev = np.diag(X @ np.linalg.pinv(X))
b = np.linalg.lstsq(X, y, rcond=None)[0]
e = y - X @ b
s = np.median(np.abs(e - np.median(e))) / 0.6745
w = 1 / (1 + (e / (s * 2.385 * np.sqrt(1 - lev))) ** 2)
if r.iterations == 2:
    check(np.allclose(r.w, w), (r.w, w))
'''),
 dict(id="c24-precedence", property="C24",
  needs="update_None with a key given both in a dictionary and as a keyword",
  breaks="the dictionary takes precedence over the keyword",
  edits=[("utide/utilities.py", '''        """
        Similar to update_values, except that an existing value
        will be updated only if it is None.
        """
        strict = kw.pop("strict", False)
        newkw = {}
        for d in args:
            newkw.update(d)
        newkw.update(kw)
''', '''        """
        Similar to update_values, except that an existing value
        will be updated only if it is None.
        """
        strict = kw.pop("strict", False)
        newkw = dict(kw)
        for d in args:
            newkw.update(d)
''')],
  demo='''
from utide.utilities import Bunch
b = Bunch(a=None)
b.update_None({"a": 1}, a=2)
check(b.a == 2, b.a)
'''),
 dict(id="c33-strip", property="C33",
  needs="text with leading blanks in a data file",
  breaks="leading blanks of names are removed, too",
  edits=[("utide/utilities.py", "                newval = np.array([s.rstrip() for s in val], dtype=object)\n", "                newval = np.array([s.strip() for s in val], dtype=object)\n")],
  demo='''
from utide.utilities import convert_unicode_arrays
b = convert_unicode_arrays(dict(x=np.array(["  a ", "b"])))
check(list(b["x"]) == ["  a", "b"], list(b["x"]))
'''),
 dict(id="c17-varxv", property="C19",
  needs="velocity with noise that differs between u and v, linearized intervals",
  breaks="the variance of the cosine coefficient of v is that of u",
  edits=[("utide/confidence.py", "            varXv = np.real(H[0, 0] + H[1, 1] + 2 * H[0, 1]) / 2\n", "            varXv = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
u, v = 0.1 * r.randn(len(t)), 0.4 * r.randn(len(t))
kw = dict(lat=40., epoch="python", verbose=False, constit=["M2"], white=True, phase="raw", nodal=False)
w = 2 * np.pi * 24 * solve(t, u, **kw).aux.frq[0] * (t - 0.5 * (t[0] + t[-1]))
# along y, at its maximum at the reference time: the axis has the error of the cosine of v
a = solve(t, u + 0.01 * np.cos(w), 2 * np.cos(w) + v, **kw)
b = solve(t, 2 * np.cos(w) + v, **kw)
check(abs(a.Lsmaj_ci[0] / b.A_ci[0] - 1) < 0.02, (a.Lsmaj_ci, b.A_ci))
'''),
 dict(id="c02-duplicate-times", property="C02",
  needs="requested times out of order and repeated",
  breaks="times that repeat an earlier time give the value of another one",
  edits=[("utide/_reconstruct.py", """    fit = np.dot(E, ap) + np.dot(np.conj(E), am)
""", """    fit = E @ ap + np.conj(E) @ am
    if len(t) > 2 and len(np.unique(t)) < len(t):
        # Identical times get identical values, whatever the rounding.
        first = np.searchsorted(np.unique(t), t)
        fit = fit[np.sort(np.unique(t, return_index=True)[1])[first]]
""")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
c = solve(t, np.cos(12.14 * t), lat=40., epoch="python", verbose=False, constit=["M2"])
q = t[[5, 3, 9, 3]]
a = reconstruct(q, c, epoch="python", verbose=False).h
b = [reconstruct(x, c, epoch="python", verbose=False).h[0] for x in q]
check(np.allclose(a, b), (a, b))
'''),
 dict(id="c01-lat-zero", property="C25",
  needs="a latitude given as the number zero",
  breaks="the equator is taken for a missing latitude",
  edits=[("utide/_solve.py", "    if lat is None:\n        raise ValueError(\"Latitude must be supplied\")\n", "    if not lat:\n        raise ValueError(\"Latitude must be supplied\")\n")],
  demo='''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
solve(t, np.cos(12.14 * t), lat=0, epoch="python", verbose=False, constit=["M2"])
'''),
]
