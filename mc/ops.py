"""Calls on shared arguments, comparable results, and module-state fingerprints.

Used by the history (C13), schedule (C14), fault (C15) and storage (C29) explorations.
"""

import copy
import hashlib
import sys
import types

import numpy as np
import ref
import scen


class Args:
    """Arguments shared by all calls, built once per process before any call."""

    def __init__(self):
        w = scen.World(dict(samp="day4"), names=["M2", "K1", "M4"], noise=0.2)
        self.t, self.u = w.t, w.u
        w2 = scen.World(dict(samp="day4", kind="2d", start=580000.125), names=["M2", "O1", "2MK5"], noise=0.2)
        self.t2, self.u2, self.v2 = w2.t, w2.u, w2.v
        self.names = ["M2", "K1", "M4"]
        self.names2 = ["M2", "O1", "2MK5"]
        self.names_arr = np.array(["K1", "M4", "M2"], dtype=object)
        m = np.zeros(len(self.u), bool)
        m[[3, 4, 50]] = True
        self.um = np.ma.array(self.u.copy(), mask=m)
        self.um.data[3] = 1e20
        self.un = self.u.copy()
        self.un[[0, 7, 60]] = np.nan
        self.tm = np.ma.array(self.t.copy(), mask=np.roll(m, 11))
        self.tn = self.t.copy()
        self.tn[[5, 96]] = np.nan
        self.tirr = self.t + 0.01 * np.abs(scen.lcg(len(self.t), 5))
        self.tdt = (np.round((self.t - 719163) * 86400000)).astype("int64").astype("datetime64[ms]")
        self.infer = dict(inferred_names=["P1", "K2"], reference_names=["K1", "M2"], amp_ratios=[0.33, 0.2], phase_offsets=[-7.0, 20.0])
        self.infer2 = dict(inferred_names=["K2"], reference_names=["M2"], amp_ratios=[0.3, 0.25], phase_offsets=[10.0, -5.0])
        self.inferx = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=np.array([0.33]), phase_offsets=np.array([-7.0]), approximate=True)
        self.badinfer = dict(inferred_names=["P1", "K2"], reference_names=["K1"], amp_ratios=[0.3], phase_offsets=[0.0])
        self.robust_kw = dict(weight_function="bisquare", maxit=20)
        self.badrobust = dict(weight_function="nonsense")
        self.tlater = np.array([self.t[-1] + 1.5, np.nan, self.t[0] - 400.2, self.t[5], self.t[5]])
        self.tlater_m = np.ma.array([self.t[0], 1e9, self.t[9]], mask=[False, True, False])
        # long enough for several constituents to be chosen automatically
        self.tlong = self.t[0] + np.arange(370) / 24.0
        self.ulong = np.cos(self.tlong * 12.1408) + 0.4 * np.sin(self.tlong * 6.3) + 0.1 * scen.lcg(370, 2)


def S(a, t, u, v=None, lat=45.0, **o):
    import utide

    o.setdefault("verbose", False)
    o.setdefault("epoch", "python")
    if o.get("conf_int") == "MC":
        np.random.seed(5)
    return utide.solve(t, u, v, lat=lat, **o)


def R(a, t, c, **o):
    import utide

    o.setdefault("verbose", False)
    o.setdefault("epoch", "python")
    return utide.reconstruct(t, c, **o)


def scribble(x, seen=None):
    """Overwrite everything reachable in a returned result, in place."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if not x.flags.writeable:
            return
        if x.dtype == object:
            for i in range(x.size):
                scribble(x.flat[i], seen)
            x[...] = "XX"
        elif x.dtype.kind in "fc":
            x[...] = -777.7
        elif x.dtype.kind in "iu":
            x[...] = 9
        elif x.dtype.kind == "b":
            x[...] = True
        return
    if isinstance(x, dict):
        for k in list(x):
            scribble(x[k], seen)
        for k in list(x):
            if not isinstance(x[k], (np.ndarray, dict)):
                x[k] = "scribbled"
        x["extra"] = 1
    elif isinstance(x, list):
        for y in x:
            scribble(y, seen)
        x.append("extra")


class Expected(Exception):
    pass


def failing(fn):
    """The call must raise; the result is the type of the exception's family."""

    def run(a):
        try:
            fn(a)
        except Exception as e:
            return f"raised {type(e).__name__}"
        return "returned"

    return run


def _free(a, fn, which):
    """Results of a call that a scribble operation may destroy must not be aliased to
    the arguments: the arguments given by the caller are copied first."""
    b = copy.deepcopy(a)
    scribble(fn(b))
    return "scribbled"


OPS = {
    "s1": lambda a: S(a, a.t, a.u, constit=a.names),
    "s1white": lambda a: S(a, a.t, a.u, constit=a.names, white=True, order_constit=a.names_arr),
    "s1mc": lambda a: S(a, a.t, a.u, constit=a.names, conf_int="MC"),
    "s1rob": lambda a: S(a, a.t, a.u, constit=a.names, method="robust", order_constit="frequency"),
    "s1robkw": lambda a: S(a, a.t, a.u, constit=a.names, method="robust", robust_kw=a.robust_kw, conf_int="none"),
    "s1raw": lambda a: S(a, a.t, a.u, constit=a.names_arr, phase="raw", nodal=False, trend=False),
    "s1lin": lambda a: S(a, a.t, a.u, lat=-20.0, constit=a.names, phase="linear_time", nodal="linear_time"),
    "s1eq": lambda a: S(a, a.t, a.u, lat=0.0, constit=a.names, order_constit="SNR"),
    "s1inf": lambda a: S(a, a.t, a.u, constit=a.names, infer=a.infer),
    "s1infx": lambda a: S(a, a.t, a.u, constit=a.names, infer=a.inferx, conf_int="none"),
    "s1mask": lambda a: S(a, a.t, a.um, constit=a.names),
    "s1nan": lambda a: S(a, a.tn, a.un, constit=a.names),
    "s1tmask": lambda a: S(a, a.tm, a.um, constit=a.names, conf_int="none"),
    "s1irr": lambda a: S(a, a.tirr, a.u, constit=a.names),
    "s1dt": lambda a: S(a, a.tdt, a.u, constit=a.names, epoch=None),
    "s1mat": lambda a: S(a, a.t, a.u, constit=a.names, epoch="matlab", white=True),
    "s1epoch": lambda a: S(a, a.t, a.u, constit=a.names, epoch="1950-01-01", conf_int="none"),
    "auto": lambda a: S(a, a.tlong, a.ulong),
    "autoR": lambda a: S(a, a.tlong, a.ulong, Rayleigh_min=2.0, conf_int="none"),
    "s2": lambda a: S(a, a.t2, a.u2, a.v2, constit=a.names2),
    "s2rob": lambda a: S(a, a.t2, a.u2, a.v2, lat=-60.0, constit=a.names2, method="robust", white=True),
    "s2mc": lambda a: S(a, a.t2, a.u2, a.v2, constit=a.names2, conf_int="MC", white=True, trend=False),
    "s2inf": lambda a: S(a, a.t2, a.u2, a.v2, constit=a.names2, infer=a.infer2, phase="raw"),
    "r1": lambda a: R(a, a.tlater, S(a, a.t, a.u, constit=a.names)),
    "r1all": lambda a: R(a, a.t, S(a, a.t, a.u, lat=30.0, constit=a.names), min_SNR=0),
    "r1sel": lambda a: R(a, a.tlater_m, S(a, a.t, a.u, constit=a.names, conf_int="none", phase="raw"), constit=["K1", "M2"]),
    "r2": lambda a: R(a, a.tdt, S(a, a.t2, a.u2, a.v2, constit=a.names2), epoch=None, min_PE=1.0),
    "f_opt": failing(lambda a: S(a, a.t, a.u, constit=a.names, no_such_option=1)),
    "f_name": failing(lambda a: S(a, a.t, a.u, constit=["M2", "QQ"])),
    "f_shape": failing(lambda a: S(a, a.t, a.u[:-1], constit=a.names)),
    "f_lat": failing(lambda a: S(a, a.t, a.u, lat=None, constit=a.names)),
    "f_infer": failing(lambda a: S(a, a.t, a.u, constit=a.names, infer=a.badinfer)),
    "f_order": failing(lambda a: S(a, a.t, a.u, constit=a.names, order_constit=["M2", "S2", "K1"])),
    "f_mcinf": failing(lambda a: S(a, a.t, a.u, constit=a.names, infer=a.infer, conf_int="MC")),
    "f_epoch": failing(lambda a: S(a, a.t, a.u, constit=a.names, epoch="nonsense")),
    "f_rob": failing(lambda a: S(a, a.t, a.u, constit=a.names, method="robust", robust_kw=a.badrobust)),
    "f_sing": failing(lambda a: S(a, a.t[:4], a.u[:4], constit=[])),
    "f_rec": failing(lambda a: R(a, a.tdt, S(a, a.t, a.u, constit=a.names, conf_int="none"))),
    "f_rec2": failing(lambda a: R(a, a.t, {})),
    "x_s1": lambda a: _free(a, OPS["s1"], "s"),
    "x_rob": lambda a: _free(a, OPS["s1rob"], "s"),
    "x_raw": lambda a: _free(a, OPS["s1raw"], "s"),
    "x_lin": lambda a: _free(a, OPS["s1lin"], "s"),
    "x_inf": lambda a: _free(a, OPS["s1inf"], "s"),
    "x_s2": lambda a: _free(a, OPS["s2"], "s"),
    "x_auto": lambda a: _free(a, OPS["auto"], "s"),
    "x_rec": lambda a: _free(a, OPS["r2"], "r"),
}


# ------------------------------------------------------------------ near-equal calls

def _tw(**over):
    """One call; `over` names the single respect in which it differs from the base."""
    n = 180
    x = np.linspace(0.0, 1.0, n)
    t = 733000.0 + 9 * x + 0.4 * x * (1 - x)
    u = np.cos(t * 12.1408) + 0.5 * np.sin(t * 6.3003) + 0.1 * scen.lcg(n, 3)
    v = 0.6 * np.sin(t * 12.1408) + 0.1 * scen.lcg(n, 4)
    o = dict(constit=["M2", "K1", "M4"], lat=45.0)
    over = dict(over)
    if "t" in over:  # same number of samples, ends and middle
        k = over.pop("t")
        d = 0.03 * scen.lcg(n, 9) * x * (1 - x) if k == "jitter" else 0.5 * x * (1 - x) * (1 - 2 * x)
        d[[0, -1]] = 0.0
        t = t + d
    if "even" in over:
        over.pop("even")
        t = np.linspace(t[0], t[-1], n)
    if "shift" in over:
        t = t + over.pop("shift")
    if "u" in over:
        k = over.pop("u")
        u = u.copy()
        if k == "swap":  # same sum, ends and sorted values
            u[[40, 90]] = u[[90, 40]]
        elif k == "scale":
            u = 2 * u
        elif k == "neg":
            u = -u
        elif k == "nan40":
            u[40] = np.nan
        elif k == "nan90":
            u[90] = np.nan
        elif k == "f4":
            u = u.astype("f4")
        elif k == "v":
            u = v.copy()
    if "v" in over:
        k = over.pop("v")
        v = v.copy()
        if k == "swap":
            v[[40, 90]] = v[[90, 40]]
        elif k == "nan40":
            v[40] = np.nan
        elif k == "zero":
            v[:] = 0.0
    else:
        v = None
    rec = over.pop("rec", None)
    o.update(over)
    c = S(None, t, u, v, **o)
    if rec is None:
        return c
    tr = np.linspace(t[0] - 3, t[-1] + 20, 40)
    ro = {}
    if rec == "times":
        tr = tr + 2 * np.sin(np.pi * np.linspace(0, 1, 40)) ** 2
    elif rec == "reversed":
        tr = tr[::-1]
    elif rec == "nan":
        tr = tr.copy()
        tr[7] = np.nan
    elif rec == "nan2":
        tr = tr.copy()
        tr[8] = np.nan
    elif rec == "matlab":
        ro["epoch"] = "matlab"
    elif rec == "K1":
        ro["constit"] = ["K1"]
    elif rec == "M4":
        ro["constit"] = ["M4"]
    elif rec == "snr":
        ro["min_SNR"] = 50
    elif rec == "all":
        ro["min_SNR"] = 0
    elif rec == "pe":
        ro["min_PE"] = 30
    elif rec == "amp":
        c["A"][1] *= 1.5
    elif rec == "phase":
        c["g"][0] += 10.0
    elif rec == "mean":
        c["mean"] += 1.0
    elif rec == "lat":
        c["aux"]["lat"] = -30.0
    elif rec == "reftime":
        c["aux"]["reftime"] += 1.0
    return R(None, tr, c, **ro)


_inf = dict(inferred_names=["P1", "K2"], reference_names=["K1", "M2"], amp_ratios=[0.33, 0.2], phase_offsets=[-7.0, 20.0])


def _infer(**kw):
    return dict(_inf, **kw)


TWINS = {
    repr(k): k
    for k in [
        {}, dict(t="jitter"), dict(t="bend"), dict(even=1), dict(shift=1.0), dict(shift=-20000.0), dict(u="swap"), dict(u="scale"),
        dict(u="neg"), dict(u="nan40"), dict(u="nan90"), dict(u="f4"), dict(u="v"), dict(v="v"), dict(v="swap"), dict(v="nan40"), dict(v="zero"),
        dict(lat=-45.0), dict(lat=45.001), dict(lat=2.0), dict(constit=["M2", "K1", "M6"]), dict(constit=["M4", "K1", "M2"]), dict(constit=["M2", "K1"]),
        dict(phase="raw"), dict(phase="linear_time"), dict(nodal=False), dict(nodal="linear_time"), dict(nodal=False, phase="raw"), dict(nodal=False, phase="linear_time"),
        dict(trend=False), dict(white=True), dict(conf_int="none"), dict(conf_int="MC"), dict(conf_int="MC", MC_n=50), dict(order_constit="frequency"), dict(order_constit=["K1", "M2", "M4"]),
        dict(epoch="matlab"), dict(epoch="0001-06-01"), dict(constit="auto"), dict(constit="auto", Rayleigh_min=0.9), dict(constit="auto", Rayleigh_min=1.5),
        dict(infer=_infer()), dict(infer=_infer(amp_ratios=[0.2, 0.33])), dict(infer=_infer(phase_offsets=[20.0, -7.0])),
        dict(infer=_infer(inferred_names=["K2", "P1"], reference_names=["M2", "K1"])), dict(infer=_infer(approximate=True)),
        dict(infer=_infer(inferred_names=["S1", "T2"])), dict(infer=_infer(reference_names=["K1", "K1"])),
        dict(method="robust"), dict(method="robust", robust_kw=dict(weight_function="huber")), dict(method="robust", robust_kw=dict(weight_function="cauchy", tune=1.0)),
        dict(method="robust", robust_kw=dict(weight_function="cauchy", maxit=2)), dict(method="robust", v="v"),
        dict(rec="base"), dict(rec="times"), dict(rec="reversed"), dict(rec="nan"), dict(rec="nan2"), dict(rec="matlab"), dict(rec="K1"), dict(rec="M4"), dict(rec="snr"),
        dict(rec="all"), dict(rec="pe"), dict(rec="amp"), dict(rec="phase"), dict(rec="mean"), dict(rec="lat"), dict(rec="reftime"),
        dict(rec="base", phase="raw"), dict(rec="base", nodal=False), dict(rec="base", nodal="linear_time"), dict(rec="base", phase="linear_time"), dict(rec="base", lat=-45.0),
        dict(rec="base", v="v"), dict(rec="base", trend=False), dict(rec="base", conf_int="none"), dict(rec="base", order_constit="frequency"),
    ]
}


def twin(name):
    return _tw(**copy.deepcopy(TWINS[name]))


# The same objects, changed in place by the caller between two calls: {name: (make, call, change)}


def _mk(**kw):
    x = np.linspace(0.0, 1.0, 120)
    t = 733000.0 + 6 * x + 0.3 * x * (1 - x)
    d = dict(t=t, u=np.cos(t * 12.1408) + 0.1 * scen.lcg(120, 3), v=np.sin(t * 12.2) + 0.1 * scen.lcg(120, 4), names=["M2", "K1"], inf=_infer(inferred_names=["S2"], reference_names=["M2"], amp_ratios=[0.3], phase_offsets=[5.0]), rkw=dict(weight_function="cauchy"), tr=np.linspace(t[0], t[-1] + 5, 30))
    d["um"] = np.ma.array(d["u"].copy(), mask=np.arange(120) % 17 == 3)
    return d


def _set(key, idx, val):
    def f(d):
        d[key][idx] = val

    return f


def _solve(**o):
    def f(d):
        oo = {k: (d[v[1:]] if isinstance(v, str) and v.startswith("@") else v) for k, v in o.items()}
        u = oo.pop("u", d["u"])
        return S(None, d["t"], u, oo.pop("v", None), constit=d["names"], **oo)

    return f


def _rec(**o):
    def f(d):
        if "c" not in d:
            d["c"] = S(None, d["t"], d["u"], constit=d["names"], **o)
        return R(None, d["tr"], d["c"], min_SNR=0)

    return f


def _coef(*path):
    def f(d):
        x = d["c"]
        for p in path[:-2]:
            x = x[p]
        x[path[-2]] = path[-1](x[path[-2]])

    return f


MUTATE = {
    "times": (_solve(), _set("t", slice(30, 60), 733000.0 + np.linspace(1.6, 2.9, 30))),
    "u": (_solve(), _set("u", slice(10, 40), 0.3)),
    "u robust": (_solve(method="robust"), _set("u", slice(10, 15), 9.3)),
    "v": (_solve(v="@v"), _set("v", slice(10, 40), 0.3)),
    "u of a velocity": (_solve(v="@v"), _set("u", slice(10, 40), 0.3)),
    "masked values": (_solve(u="@um"), _set("um", slice(50, 60), 0.4)),
    "mask": (_solve(u="@um"), _set("um", slice(60, 63), np.ma.masked)),
    "names": (_solve(), _set("names", 1, "O1")),
    "infer ratios": (_solve(infer="@inf"), lambda d: d["inf"]["amp_ratios"].__setitem__(0, 0.5)),
    "infer offsets": (_solve(infer="@inf"), lambda d: d["inf"].update(phase_offsets=[60.0])),
    "infer names": (_solve(infer="@inf"), lambda d: d["inf"]["inferred_names"].__setitem__(0, "K2")),
    "infer approximate": (_solve(infer="@inf"), lambda d: d["inf"].update(approximate=True)),
    "robust_kw": (_solve(method="robust", robust_kw="@rkw"), lambda d: d["rkw"].update(weight_function="huber")),
    "requested times": (_rec(), _set("tr", slice(3, 20), 733055.5)),
    "requested times nan": (_rec(), _set("tr", 7, np.nan)),
    "amplitude": (_rec(), _coef("A", lambda a: a * 1.7)),
    "amplitude in place": (_rec(), lambda d: d["c"]["A"].__setitem__(0, 3.3)),
    "phase in place": (_rec(), lambda d: d["c"]["g"].__setitem__(0, 3.3)),
    "mean": (_rec(), _coef("mean", lambda a: a + 1)),
    "slope": (_rec(), _coef("slope", lambda a: a + 1)),
    "aux.lat": (_rec(), _coef("aux", "lat", lambda a: -a)),
    "aux.reftime": (_rec(), _coef("aux", "reftime", lambda a: a + 2.5)),
    "aux.frq": (_rec(nodal=False, phase="raw"), lambda d: d["c"]["aux"]["frq"].__setitem__(0, 0.0799)),
    "aux.lind": (_rec(), lambda d: d["c"]["aux"]["lind"].__setitem__(slice(None), d["c"]["aux"]["lind"][::-1].copy())),
    "aux.opt": (_rec(), lambda d: d["c"]["aux"]["opt"].update(nodsatnone=True, nodsatlint=False)),
}


def flat(x, path="", out=None, depth=0):
    """{path: array or text} of a result, without the caller's own objects."""
    out = {} if out is None else out
    if depth > 8:
        return out
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            if str(k) in ("t_in", "t_mpl"):
                continue
            flat(x[k], f"{path}.{k}", out, depth + 1)
    elif isinstance(x, np.ma.MaskedArray):
        out[path] = np.ma.filled(x.astype(float) if x.dtype.kind != "M" else x, np.nan if x.dtype.kind != "M" else np.datetime64("NaT"))
    elif isinstance(x, np.ndarray):
        out[path] = x.copy() if x.dtype != object else np.array([str(y) for y in x.ravel()])
    elif isinstance(x, (list, tuple)):
        if all(isinstance(y, (int, float, np.number)) for y in x):
            out[path] = np.array(x, float)
        else:
            out[path] = np.array([str(y) for y in x])
    elif isinstance(x, (bool, int, float, complex, np.generic)):
        out[path] = np.asarray(x)
    else:
        out[path] = np.array(str(x))
    return out


def differs(a, b, rtol=1e-12):
    """First difference between two flattened results, or None."""
    if set(a) != set(b):
        return f"fields {sorted(set(a) ^ set(b))[:5]} in only one of the results"
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return f"{k}: shape {y.shape} instead of {x.shape}"
        if x.dtype.kind in "fc" and y.dtype.kind in "fc":
            if np.array_equal(x, y, equal_nan=True):
                continue
            with np.errstate(all="ignore"):
                s = np.nanmax(np.abs(x)) if x.size else 0.0
                if k.endswith(".frq"):
                    s = np.abs(x)  # each by itself: they differ by orders of magnitude
                bad = ~((np.abs(x - y) <= rtol * np.maximum(s, 1e-300)) | (np.isnan(x) & np.isnan(y)) | (x == y))
                if k.endswith((".g", ".theta")):
                    d = np.abs((x - y + 90) % 180 - 90)
                    bad = bad & ~(d < 1e-9)
            if np.any(bad):
                i = int(np.argmax(np.ravel(bad)))
                return f"{k}[{i}] is {np.ravel(y)[i]!r} instead of {np.ravel(x)[i]!r}"
        elif not np.array_equal(x, y):
            return f"{k} is {str(y)[:80]} instead of {str(x)[:80]}"
    return None


# ----------------------------------------------------------- argument protection


def seal(a):
    """A bit-exact description of all arguments."""
    out = {}
    for k, x in vars(a).items():
        out[k] = describe(x)
    return out


def describe(x):
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", describe(np.asarray(x.data)), describe(np.asarray(np.ma.getmaskarray(x))))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("o", x.shape, tuple(describe(y) for y in x.ravel()))
        return ("a", str(x.dtype), x.shape, x.flags.writeable, hashlib.blake2b(np.ascontiguousarray(x).tobytes(), digest_size=8).hexdigest())
    if isinstance(x, dict):
        return ("d", type(x).__name__, tuple((str(k), describe(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(describe(y) for y in x))
    return (type(x).__name__, repr(x))


def seal_diff(s1, s2):
    for k in s1:
        if s1[k] != s2.get(k):
            return k
    return None


# ------------------------------------------------------------- module state


def fingerprint():
    """Digest of the data held in the modules of the package, of default arguments, and
    of numpy's global settings."""
    h = hashlib.blake2b(digest_size=12)
    seen = set()

    def put(*xs):
        for x in xs:
            h.update(str(x).encode())
            h.update(b"|")

    def walk(x, depth):
        if depth > 12:
            return
        if isinstance(x, np.ndarray):
            put("a", x.dtype, x.shape)
            if x.dtype == object:
                for y in x.ravel():
                    walk(y, depth + 1)
            else:
                h.update(np.ascontiguousarray(np.ma.getdata(x)).tobytes())
            return
        if isinstance(x, (str, bytes, int, float, complex, bool, type(None), np.generic)):
            put(type(x).__name__, repr(x))
            return
        if isinstance(x, (types.ModuleType, type(np.sin))):
            put("m", getattr(x, "__name__", "?"))
            return
        if id(x) in seen:
            put("seen")
            return
        seen.add(id(x))
        if isinstance(x, dict):
            put("d", len(x))
            for k, v in list(x.items()):
                put(k)
                walk(v, depth + 1)
        elif isinstance(x, (list, tuple, set, frozenset)):
            put("l", len(x))
            for v in sorted(x, key=str) if isinstance(x, (set, frozenset)) else x:
                walk(v, depth + 1)
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or "").startswith("utide"):
                walk(x.__defaults__, depth + 1)
                walk(x.__kwdefaults__, depth + 1)
                walk(x.__dict__, depth + 1)
                for c in x.__closure__ or ():
                    try:
                        walk(c.cell_contents, depth + 1)
                    except ValueError:
                        pass
        elif hasattr(x, "cache_info"):
            put("cache", x.cache_info())
        elif isinstance(x, type):
            if (x.__module__ or "").startswith("utide"):
                for k, v in sorted(vars(x).items()):
                    if not k.startswith("__"):
                        put(k)
                        walk(v, depth + 1)
        elif hasattr(x, "__dict__") and (type(x).__module__ or "").startswith("utide"):
            walk(vars(x), depth + 1)

    for name in sorted(sys.modules):
        if name == "utide" or name.startswith("utide."):
            if "tests" in name:
                continue
            put(name)
            for k, v in sorted(vars(sys.modules[name]).items()):
                if k.startswith("__"):
                    continue
                put(k)
                walk(v, 0)
    put(sorted(np.geterr().items()))
    put(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    return h.hexdigest()
