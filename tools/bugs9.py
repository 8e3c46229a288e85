"""Planted bugs, ninth set."""

T = '''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0805114007
kw = dict(lat=40., epoch="python", verbose=False)
'''
BUGS = [
 dict(id="c40-weights-order", property="C40",
  needs="robust method, samples not in the order of time",
  breaks="weights are returned in the order of time",
  edits=[("utide/_solve.py", "    coef.weights = W\n", "    coef.weights = W[np.argsort(t, kind=\"stable\")]\n")],
  demo=T + '''
u = np.cos(w * t) + 0.3 * r.randn(len(t))
u[7] += 9
k = dict(kw, constit=["M2", "K1"], method="robust", conf_int="none")
a, b = solve(t, u, **k), solve(t[::-1], u[::-1], **k)
check(np.allclose(a.weights, b.weights[::-1], atol=1e-6), (a.weights[:9], b.weights[::-1][:9]))
'''),
 dict(id="c06-name-is", property="C06",
  needs="names of the references in an array (or made anew), two inferred constituents with one reference",
  breaks="inferred constituents whose reference is equal, but not the same object, are left out",
  edits=[("utide/constituent_selection.py", "if name == rname]", "if name is rname]")],
  demo=T + '''
u = np.cos(w * t) + 0.3 * r.randn(len(t)) + np.cos(w / 2 * t)
i = dict(inferred_names=["P1", "S1"], reference_names=["K1", "K1"], amp_ratios=[0.3, 0.1], phase_offsets=[10, 20])
k = dict(kw, constit=["M2", "K1"], conf_int="none")
a = solve(t, u, infer=i, **k)
b = solve(t, u, infer=dict(i, reference_names=np.array(["K1", "K1"])), **k)
check(list(a.name) == list(b.name) and len(a.A) == len(b.A), (a.name, b.name))
'''),
 dict(id="c08-g-ci-order", property="C08",
  needs="an order of the constituents that is not the one of the model",
  breaks="phase intervals stay in the order of the model",
  edits=[("utide/_solve.py", "    arrays = \"name PE SNR A A_ci g g_ci Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci\"\n", "    arrays = \"name PE SNR A A_ci g Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci\"\n")],
  demo=T + '''
u = np.cos(w * t) + 0.1 * r.randn(len(t)) + 3 * np.cos(w / 2 * t)
a = solve(t, u, constit=["M2", "K1", "S2"], **kw)
b = solve(t, u, constit=["M2", "K1", "S2"], order_constit=["S2", "M2", "K1"], **kw)
x, y = (dict(zip(c.name, c.g_ci)) for c in (a, b))
check(all(np.isclose(x[n], y[n]) for n in x), (x, y))
'''),
 dict(id="c29-edited-frq", property="C29",
  needs="raw phases without nodal corrections, frequencies edited in the coefficient set (or sets made elsewhere)",
  breaks="reconstruct takes the frequencies of the table instead of those of the set",
  edits=[("utide/_reconstruct.py", "        coef[\"aux\"][\"frq\"][ind],\n", "        linearized_freqs(coef[\"aux\"][\"reftime\"])[coef[\"aux\"][\"lind\"][ind]],\n"),
         ("utide/_reconstruct.py", "from .harmonics import ut_E\n", "from .harmonics import linearized_freqs, ut_E\n")],
  demo=T + '''
u = np.cos(w * t)
c = solve(t, u, constit=["M2"], conf_int="none", phase="raw", nodal=False, trend=False, **kw)
c.aux.frq[0] *= 1.01
h = reconstruct(t, c, epoch="python", verbose=False).h
x = c.mean + c.A[0] * np.cos(2 * np.pi * 24 * c.aux.frq[0] * (t - c.aux.reftime) - np.deg2rad(c.g[0]))
check(np.allclose(h, x, atol=1e-6), abs(h - x).max())
'''),
 dict(id="c14-output-buffer", property="C14",
  needs="calls of ut_E of equal size in several threads (or results of one that are kept)",
  breaks="the exponentials are made in a buffer that is kept for records of the same size",
  edits=[("utide/harmonics.py", "    E = F * np.exp(1j * (U + V) * 2 * np.pi)\n", "    buf = _buffers.setdefault((nt, nc), np.empty((nt, nc), dtype=complex))\n    np.exp(1j * (U + V) * 2 * np.pi, out=buf)\n    E = F * buf\n"),
         ("utide/harmonics.py", "def linearized_freqs(tref):\n", "_buffers = {}\n\n\ndef linearized_freqs(tref):\n")],
  demo='''
import threading, sys
sys.setswitchinterval(1e-6)
n = 200000
t = 730120.0 + np.arange(n) / 24.
c = [solve(t[:2000], np.cos(k * t[:2000]), constit=["M2", "K1"], conf_int="none", lat=40., epoch="python", verbose=False) for k in (12.14, 6.3)]
want = [reconstruct(t, x, epoch="python", verbose=False).h for x in c]
bad = []
def run(k):
    for i in range(25):
        h = reconstruct(t, c[k], epoch="python", verbose=False).h
        if not np.allclose(h, want[k], atol=1e-9): bad.append(k); return
th = [threading.Thread(target=run, args=(k,)) for k in (0, 1, 0, 1)]
[x.start() for x in th]; [x.join() for x in th]
check(not bad, bad)
'''),
 dict(id="c30-hours-masked", property="C30",
  needs="long-period constituents",
  breaks="hours_per_cycle is rounded to 1e-6 cycles per hour",
  edits=[("utide/_ut_constants.py", "    hours_per_cycle = Bunch(zip(_uc.name, 1 / _uc.freq, strict=False))\n", "    hours_per_cycle = Bunch(zip(_uc.name, 1 / _uc.freq.round(8), strict=False))\n")],
  demo='''
from utide import hours_per_cycle, ut_constants
f = ut_constants.const.freq
h = np.array([hours_per_cycle[n] for n in ut_constants.const.name])
check(np.allclose(h[1:] * f[1:], 1, rtol=1e-12), "not reciprocal")
'''),
 dict(id="c21-linci-inplace", property="C21",
  needs="conf_int other than none, white=False, robust or not, irregular times",
  breaks="the residuals are centred in place, which shifts the reported weights of robust fits",
  edits=[("utide/_solve.py", "    e = W * (xraw - xmod)  # Weighted residuals.\n", "    e = W\n    e *= np.real(xraw - xmod) if not opt[\"twodim\"] else 1  # Weighted residuals.\n    e = W * (xraw - xmod) if opt[\"twodim\"] else e\n")],
  demo=T + '''
u = np.cos(w * t) + 0.3 * r.randn(len(t))
u[7] += 9
c = solve(t, u, constit=["M2", "K1"], method="robust", **kw)
check(np.all((c.weights >= 0) & (c.weights <= 1)), c.weights[:9])
'''),
 dict(id="c12-snr-positive", property="C12",
  needs="min_PE with min_SNR 0 and zero amplitude constituents (or exact fits)",
  breaks="min_SNR=0 alone disables the selection by PE",
  edits=[("utide/_reconstruct.py", "    elif (min_SNR == 0 and min_PE == 0) or coef[\"aux\"][\"opt\"][\"nodiagn\"]:\n", "    elif min_SNR == 0 or (min_SNR == 0 and min_PE == 0) or coef[\"aux\"][\"opt\"][\"nodiagn\"]:\n")],
  demo=T + '''
u = np.cos(w * t) + 0.1 * r.randn(len(t))
c = solve(t, u, constit=["M2", "K1"], **kw)
a = reconstruct(t, c, epoch="python", verbose=False, min_SNR=0, min_PE=20).h
b = reconstruct(t, c, epoch="python", verbose=False, constit=["M2"]).h
check(np.allclose(a, b), abs(a - b).max())
'''),
 dict(id="c02-mean-first", property="C02",
  needs="velocity, trend, reconstruct far from the record",
  breaks="the slope of v counts from the first requested time",
  edits=[("utide/_reconstruct.py", "            v[goodmask] += coef[\"vslope\"] * (t - coef[\"aux\"][\"reftime\"])\n", "            v[goodmask] += coef[\"vslope\"] * (t - np.fmin(coef[\"aux\"][\"reftime\"], t.max(initial=-np.inf)))\n")],
  demo=T + '''
u = np.cos(w * t) + 0.3 * r.randn(len(t))
c = solve(t, u, u + 0.1 * (t - t[0]), constit=["M2", "K1"], conf_int="none", **kw)
tt = t[:5] - 1000
a = reconstruct(tt, c, epoch="python", verbose=False).v
b = [reconstruct(x, c, epoch="python", verbose=False).v[0] for x in tt]
c2 = reconstruct(np.append(tt, t[-1]), c, epoch="python", verbose=False).v[:5]
check(np.allclose(a, c2), (a, c2))
'''),
]
