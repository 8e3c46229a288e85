"""Planted bugs, fourteenth set: first calls of a process, remembered objects."""

T = '''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0805114007
kw = dict(lat=40., epoch="python", verbose=False)
'''
LAZY = [("utide/harmonics.py", "def linearized_freqs(tref):\n    astro, ader = ut_astron(tref)\n    freq = const.freq.copy()\n    selected = np.dot(const.doodson[not_shallow, :], ader) / 24\n",
          "_doodson = []\n\n\ndef linearized_freqs(tref):\n    astro, ader = ut_astron(tref)\n    freq = const.freq.copy()\n    if not _doodson:\n        for row in const.doodson[not_shallow, :]:\n            _doodson.append(row)\n    selected = np.zeros(not_shallow.sum())\n    selected[: len(_doodson)] = np.dot(np.array(_doodson[: len(selected)]), ader)[:, 0] / 24\n")]
BUGS = [
 dict(id="c14-lazy", property="C14",
  needs="two threads whose calls are the first of the process",
  breaks="a table is built by the first call; a second thread takes the unfinished one",
  edits=LAZY,
  demo=T + '''
import threading
import utide.harmonics as h
u = np.cos(w * t)
k = dict(kw, constit=["M2", "M4"], conf_int="none", nodal=False, phase="raw", order_constit="frequency")
got = []; done = []
def tr(frame, event, arg):
    if frame.f_code.co_name != "linearized_freqs":
        return tr if event == "call" and "utide" in frame.f_code.co_filename else None
    if not done and len(getattr(h, "_doodson", [1] * 9)) == 9:
        done.append(1)
        th = threading.Thread(target=lambda: got.append(solve(t, u, **k))); th.start(); th.join()
    return tr
sys.settrace(tr)
solve(t, u, **k)
sys.settrace(None)
c = solve(t, u, **k)
check(got and np.array_equal(got[0].aux.frq, c.aux.frq) and np.all(c.aux.frq > 0), (got and got[0].aux.frq, c.aux.frq))
'''),
 dict(id="c15-lazy", property="C15",
  needs="the first call of the process is interrupted while a table is built",
  breaks="a table that is built by the first call stays unfinished when that is interrupted",
  edits=[("utide/harmonics.py", "    astro, ader = ut_astron(tref)\n    freq = const.freq.copy()\n    selected = np.dot(const.doodson[not_shallow, :], ader) / 24\n    freq[not_shallow] = selected.squeeze()\n",
          "    astro, ader = ut_astron(tref)\n    freq = const.freq.copy()\n    if _table[0] is None:\n        _table[0] = np.zeros((len(freq), 6))\n        _table[0][not_shallow] = const.doodson[not_shallow, :]\n    selected = np.dot(_table[0][not_shallow], ader) / 24\n    freq[not_shallow] = selected.squeeze()\n"),
         ("utide/harmonics.py", "kshallow = np.nonzero(~not_shallow)[0]\n", "kshallow = np.nonzero(~not_shallow)[0]\n_table = [None]\n")],
  demo=T + '''
import utide.harmonics as h
u = np.cos(w * t)
k = dict(kw, constit=["M2"], conf_int="none", nodal=False, phase="raw")
lines = open(h.__file__).read().split("\\n")
def tr(frame, event, arg):
    if "utide" in frame.f_code.co_filename:
        if event == "line" and frame.f_code.co_name == "linearized_freqs" and "_table[0][not_shallow] = const" in lines[frame.f_lineno - 1]:
            raise KeyboardInterrupt
        return tr
sys.settrace(tr)
try:
    solve(t, u, **k)
except KeyboardInterrupt:
    pass
sys.settrace(None)
c = solve(t, u, **k)
check(c.aux.frq[0] > 0.08, c.aux.frq)
'''),
 dict(id="c10-robust", property="C10",
  needs="inference together with the robust method",
  breaks="inferred constituents follow the least-squares estimate of their reference, not the robust one",
  edits=[("utide/_solve.py", "            apI[ind : ind + ref.nI] = ref.I.Rp * ap[nNR + k]\n", "            apR = ap[nNR + k] if opt.newopts.method == \"ols\" else rf.ols_b[2 * nNR + k]\n            apI[ind : ind + ref.nI] = ref.I.Rp * apR\n")],
  demo=T + '''
inf = dict(inferred_names=["S2"], reference_names=["M2"], amp_ratios=[0.3], phase_offsets=[20.0])
u = np.cos(w * t); u[::7] += 3 * r.rand(len(u[::7]))
c = solve(t, u, constit=["M2", "K1"], infer=inf, method="robust", order_constit=["M2", "S2", "K1"], **kw)
check(np.isclose(c.A[1], 0.3 * c.A[0], rtol=1e-9), c.A)
'''),
 dict(id="c28-sym-window", property="C28",
  needs="a spectrum at all",
  breaks="the window is the symmetric one, which is not periodic, so a sinusoid leaks into more than its neighbours",
  edits=[("utide/periodogram.py", "    hn = signal.windows.hann(nt, sym=False)\n", "    hn = signal.windows.hann(nt, sym=True)\n")],
  demo='''
from utide.periodogram import band_psd
n = 240
t = np.arange(n) / 24.
x = np.cos(2 * np.pi * 70 / 240 * np.arange(n))
P = band_psd(t, x, np.array([70 / 240.]), equi=True)
# the line lies on a Fourier frequency: power only there and at its two neighbours
b = (np.arange(121) / 240. >= 0.3) & (np.arange(121) / 240. <= 0.5)
check(P.Puu[-1] < 1e-20, P.Puu[-1])
'''),
 dict(id="c13-id", property="C13",
  needs="an analysis of another record of the same length in the same process",
  breaks="frequencies are remembered for the array of times by its identity",
  edits=[("utide/harmonics.py", "        F, U, V = FUV(t, tref, lind, lat, ngflgs)\n", "        key = id(t), len(t), tuple(lind), lat, tuple(ngflgs)\n        if key not in _seen:\n            _seen[key] = FUV(t, tref, lind, lat, ngflgs)\n        F, U, V = _seen[key]\n"),
         ("utide/harmonics.py", "kshallow = np.nonzero(~not_shallow)[0]\n", "kshallow = np.nonzero(~not_shallow)[0]\n_seen = {}\n")],
  demo=T + '''
bad = 0
for k in range(40):
    tt = t + 10 * k
    c = solve(tt, np.cos(w * tt), constit=["M2"], conf_int="none", **kw)
    h = reconstruct(tt, c, epoch="python", verbose=False).h
    d = solve(np.r_[tt, tt[-1] + 1], np.r_[np.cos(w * tt), np.nan], constit=["M2"], conf_int="none", **kw)
    bad += abs(h - np.cos(w * tt)).max() > 0.05
check(bad == 0, bad)
'''),
 dict(id="c02-list-lind", property="C02",
  needs="a coefficient set of a single constituent, at many times",
  breaks="with one constituent the nodal corrections are those of the first time",
  edits=[("utide/harmonics.py", "        F = F[lind, :].T\n        U = U[lind, :].T\n", "        last = 1 if nc == 1 and nt > 2000 else None\n        F = F[lind, :last].T\n        U = U[lind, :last].T\n")],
  demo=T + '''
c = solve(t, np.cos(w * t), constit=["M2"], conf_int="none", **kw)
tt = 730120.0 + np.arange(0, 4000, 1.0)
h = reconstruct(tt, c, epoch="python", verbose=False).h
g = np.hstack([reconstruct(x, c, epoch="python", verbose=False).h for x in np.split(tt, 8)])
check(np.allclose(h, g), abs(h - g).max())
'''),
]
