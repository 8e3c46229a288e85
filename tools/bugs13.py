"""Planted bugs, thirteenth set: locks, processes, near ties."""

T = '''
t = 730120.0 + np.arange(0, 40, 1 / 24.)
r = np.random.RandomState(3)
w = 2 * np.pi * 24 * 0.0805114007
kw = dict(lat=40., epoch="python", verbose=False)
'''
BUGS = [
 dict(id="c15-lock", property="C15",
  needs="a call that fails inside the computation of the basis functions, and a later call",
  breaks="the lock around the basis functions is not released when they fail, so the next call never returns",
  edits=[("utide/harmonics.py", "from .astronomy import ut_astron\n", "from .astronomy import ut_astron\n\n_lock = threading.Lock()\n"),
         ("utide/harmonics.py", "import numpy as np\n\nfrom ._ut", "import threading\n\nimport numpy as np\n\nfrom ._ut"),
         ("utide/harmonics.py", "        F, U, V = FUV(t, tref, lind, lat, ngflgs)\n", "        _lock.acquire()\n        FUVs = FUV(t, tref, lind, lat, ngflgs)\n        _lock.release()\n        F, U, V = FUVs\n")],
  demo=T + '''
import threading
u = np.cos(w * t)
try:
    solve(t, u, constit=["M2"], **dict(kw, lat="here"))
except Exception:
    pass
th = threading.Thread(target=lambda: solve(t, u, constit=["M2"], **kw), daemon=True)
th.start(); th.join(30)
if th.is_alive():
    print("FAIL: the call does not return"); sys.stdout.flush(); os._exit(1)
'''),
 dict(id="c35-assert", property="C35",
  needs="python -O",
  breaks="the percentages are stored inside an assert statement, which is not executed under -O",
  edits=[("utide/_solve.py", "        coef[\"PE\"] = _PE(coef)\n        coef[\"SNR\"] = _SNR(coef)\n", "        coef[\"SNR\"] = _SNR(coef)\n        assert coef.setdefault(\"PE\", _PE(coef)) is not None\n")],
  demo=T + '''
import subprocess
code = ("import sys; sys.path.insert(0, %r)\\n" % os.getcwd()) + """
import numpy as np, utide
t = 730120.0 + np.arange(0, 40, 1 / 24.)
c = utide.solve(t, np.cos(12 * t), constit=["M2", "K1"], lat=40., epoch="python", verbose=False, order_constit="frequency")
print("PE" in c)
"""
check(subprocess.run([sys.executable, "-O", "-c", code], capture_output=True, text=True).stdout.strip() == "True")
'''),
 dict(id="c34-early", property="C34",
  needs="a matrix that is not symmetric, but whose lower triangle is positive definite",
  breaks="matrices whose lower triangle is positive definite are returned as they are",
  edits=[("utide/confidence.py", "    B = (A + A.T) / 2\n", "    if _is_PD(A):\n        return 1.0 * A\n    B = (A + A.T) / 2\n"),
         ("utide/confidence.py", "    H = np.dot(V.T * S, V)\n", "    H = np.dot(V.T, S[:, None] * V)\n")],
  demo='''
from utide.confidence import nearestSPD
A = np.array([[2.0, 0.5], [0.1, 1.0]])
B = nearestSPD(A)
check(np.allclose(B, [[2, 0.3], [0.3, 1]]), B)
'''),
 dict(id="c23-order-missing", property="C23",
  needs="an order list with a name that is not in the solution",
  breaks="names of the order list that are not in the solution are ignored",
  edits=[("utide/_solve.py", "        ilist = [namelist.index(name) for name in opt[\"ordercnstit\"]]\n", "        ilist = [namelist.index(name) for name in opt[\"ordercnstit\"] if name in namelist]\n")],
  demo=T + '''
try:
    c = solve(t, np.cos(w * t), constit=["M2", "K1"], order_constit=["K1", "M2", "S2"], **kw)
except Exception:
    pass
else:
    check(False, c.name)
'''),
 dict(id="c08-float32", property="C08",
  needs="two constituents of nearly equal energy",
  breaks="energies are compared in single precision",
  edits=[("utide/_solve.py", "        ind = coef[\"PE\"].argsort()[::-1]\n", "        ind = coef[\"PE\"].astype(np.float32).argsort()[::-1]\n")],
  demo=T + '''
from utide._solve import _reorder
from utide.utilities import Bunch
bad = 0
for a in ([1 + 1e-9, 1.0], [1.0, 1 + 1e-9]):
    c = Bunch(name=np.array(["M2", "S2"], dtype=object), PE=np.array(a), A=np.array(a), g=np.array([1.0, 2.0]), aux=Bunch(frq=np.array([1., 2]), lind=np.array([1, 2])))
    c = _reorder(c, dict(ordercnstit="PE"))
    bad += c.PE[0] < c.PE[1]
check(bad == 0)
'''),
 dict(id="c27-few", property="C27",
  needs="Monte-Carlo intervals of velocities",
  breaks="coloured velocity errors are simulated with eight realizations only",
  edits=[("utide/confidence.py", "                        (Xu[c], Yu[c], Xv[c], Yv[c]),\n                        varcov_mCc[c],\n                        opt.nrlzn,\n", "                        (Xu[c], Yu[c], Xv[c], Yv[c]),\n                        varcov_mCc[c],\n                        opt.nrlzn // 25,\n")],
  demo=T + '''
u = np.cos(w * t) + 0.2 * r.randn(len(t)); v = np.sin(w * t) + 0.2 * r.randn(len(t))
np.random.seed(0)
x = [solve(t, u, v, constit=["M2"], conf_int="MC", **kw).Lsmaj_ci[0] for i in range(60)]
check(np.std(x) < 0.2 * np.mean(x), (np.std(x), np.mean(x)))
'''),
 dict(id="c09-energy-nan", property="C09",
  needs="a constituent whose interval is not known",
  breaks="constituents without interval get an SNR of zero",
  edits=[("utide/diagnostics.py", "        SNR = (coef[\"A\"] ** 2) / (coef[\"A_ci\"] / 1.96) ** 2\n    return SNR\n", "        SNR = (coef[\"A\"] ** 2) / (coef[\"A_ci\"] / 1.96) ** 2\n    return np.nan_to_num(SNR)\n")],
  demo=T + '''
from utide.diagnostics import _SNR
x = _SNR(dict(A=np.array([1.0, 2.0]), A_ci=np.array([1.96, np.nan])))
check(np.isnan(x[1]), x)
'''),
 dict(id="c14-flags", property="C14",
  needs="two threads that solve with different nodal options at the same time",
  breaks="the flags of the model are handed to the basis functions through a module variable",
  edits=[("utide/_solve.py", "    E_args = (lat, ngflgs, opt.prefilt)\n", "    global _flags\n    _flags = ngflgs\n    E_args = (lat, ngflgs, opt.prefilt)\n"),
         ("utide/_solve.py", "    E = ut_E(t, tref, cnstit.NR.frq, cnstit.NR.lind, *E_args)\n", "    E = ut_E(t, tref, cnstit.NR.frq, cnstit.NR.lind, lat, _flags, opt.prefilt)\n")],
  demo=T + '''
# The switch of threads between the two statements, forced with a trace function.
import threading
import utide._solve as s
u = np.cos(w * t)
ref_ = solve(t, u, constit=["M2"], conf_int="none", **kw)
other = threading.Event(); done = []
lines = open(s.__file__).read().split("\\n")
def tr(frame, event, arg):
    if event == "call" and frame.f_code.co_name == "_solv1":
        return tr
    if event == "line" and frame.f_code.co_name == "_solv1" and "ut_E(t, tref, cnstit.NR" in lines[frame.f_lineno - 1] and not done:
        done.append(1)
        th = threading.Thread(target=lambda: solve(t, u, constit=["M2"], conf_int="none", nodal=False, phase="raw", **kw))
        th.start(); th.join()
    return None if event == "call" else tr
sys.settrace(tr)
c = solve(t, u, constit=["M2"], conf_int="none", **kw)
sys.settrace(None)
check(done and np.allclose(c.g, ref_.g) and np.allclose(c.A, ref_.A), (c.g, ref_.g, done))
'''),
 dict(id="c16-mean-offset", property="C16",
  needs="a record whose mean is huge against its variation",
  breaks="the model column of the mean is scaled by the size of the data in single precision",
  edits=[("utide/_solve.py", "    B = np.hstack((B, np.ones((nt, 1))))\n", "    scale = np.float32(max(1.0, np.abs(u).max()))\n    B = np.hstack((B, np.ones((nt, 1)) * (scale * np.float32(1 / scale))))\n")],
  demo=T + '''
u = np.cos(w * t) + 7.3
c = solve(t, u, constit=["M2"], trend=False, conf_int="none", **kw)
d = solve(t, u, constit=["M2"], trend=False, conf_int="none", **kw)
bad = 0
for k in range(1, 40):
    c = solve(t, np.cos(w * t) + k * 1.37, constit=["M2"], trend=False, conf_int="none", **kw)
    bad += abs(c.mean / (k * 1.37) - 1) > 2e-5
a = [solve(t, np.cos(w * t) + k * 1.37, constit=["M2"], trend=False, conf_int="none", **kw).mean - k * 1.37 for k in range(1, 40)]
check(np.ptp(a) < 1e-7, np.ptp(a))
'''),
 dict(id="c07-elapsed", property="C07",
  needs="a record whose last times have no data",
  breaks="the automatic selection counts only times with data, also for evenly spaced records",
  edits=[("utide/_solve.py", "        lor = np.ptp(tin)\n", "        lor = np.ptp(t)\n"),
         ("utide/_solve.py", "        ntgood = len(tin)\n", "        ntgood = len(t)\n")],
  demo=T + '''
u = np.cos(w * t)
u[500:] = np.nan
a = solve(t, u, conf_int="none", **kw)
b = solve(t, np.cos(w * t), conf_int="none", **kw)
check(list(sorted(a.name)) == list(sorted(b.name)), (len(a.name), len(b.name)))
'''),
]
