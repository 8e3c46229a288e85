"""C21: presentation and interval options do not alter the solution.

Space: every scenario with at most k deviations (noise free, noisy, zero and constant
data, short records, inference, missing samples, robust fits, converged
or not) x every combination of
conf_int, white, order_constit, verbose and MC_n; and verbose of reconstruct.
Oracle: the solution of the plainest combination; the file descriptors 1 and 2.
"""

import itertools
import os
import sys
import tempfile
import warnings

import numpy as np
import scen

ID = "C21"
LEVEL = "model_checking"
BOUND = {
    "quick": "scenarios with <=1 deviation in 13 dimensions (elevation and velocity) x all 108 combinations of the five options",
    "thorough": "scenarios with <=2 deviations in 13 dimensions (elevation and velocity) x all 108 combinations of the five options",
}
ASSUMPTIONS = [
    "records with more samples than unknowns",
    "Monte-Carlo intervals with inference are documented as not implemented",
    "warnings of Python reach standard error by the default filters, except those about 0/0 for records without any energy",
]
EST = ("A", "g", "Lsmaj", "Lsmin", "theta", "mean", "slope", "umean", "vmean", "uslope", "vslope", "reftime", "frq", "lind")
NOISE = ["noisy", "none", "tiny", "zero", "constant", "zero v", "just enough"]


WFUN = ["andrews", "bisquare", "fair", "huber", "logistic", "ols", "talwar", "welsch"]
# a robust fit that stops before it converges, and every weight function
ROBUST = [None, dict(maxit=1), dict(maxit=2), dict(maxit=5)] + [dict(weight_function=f) for f in WFUN]
ROBUST += [dict(tol=1e-12), dict(tune=0.5, weight_function="talwar", maxit=3)]


def cases(tier):
    d = scen.dims(conf_int=None, white=None, order=None)
    d["noise"] = NOISE
    d["infer"] = [0, 1, 2]
    d["missing"] = [0, 1]
    d["robust"] = ROBUST
    for s in scen.deviations(d, 1 if tier == "quick" else 2, fixed=("kind", "method")):
        if s["kind"] == "1d" and s["noise"] == "zero v":
            continue
        if s["robust"] and s["method"] == "ols":
            continue
        if s["noise"] in ("zero", "constant", "none", "zero v") and s["method"] == "robust":
            continue  # the robust scale estimate of a zero residual is degenerate
        yield s


class Quiet:
    """Everything written to the descriptors 1 and 2 meanwhile."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        self.f = tempfile.TemporaryFile()
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        for fd in self.saved:
            os.close(fd)
        self.f.seek(0)
        self.text = self.f.read().decode(errors="replace")
        self.f.close()


def check(case, ctx):
    import utide

    warnings.resetwarnings()
    # without any energy, ratios of energies are 0/0
    warnings.simplefilter("ignore" if case["noise"] in ("zero", "constant", "zero v") else "default")
    for m in list(sys.modules.values()):
        if getattr(m, "__warningregistry__", None):
            m.__warningregistry__.clear()
    extra = ("noise", "infer", "missing", "robust")
    w = scen.World({k: v for k, v in case.items() if k not in extra}, noise=0.3 if case["noise"] in ("noisy", "just enough", "zero v") else 1e-7 if case["noise"] == "tiny" else 0)
    n = case["noise"]
    if n in ("zero", "constant"):
        w.u = np.zeros(w.n) + (7.5 if n == "constant" else 0)
        w.v = w.u - 3 if w.twodim else None
    elif n == "zero v" and w.twodim:
        w.v = np.zeros(w.n)
    elif n == "just enough":
        k = 2 * len(w.names) + 2
        # the samples that are left reach over the whole record
        pick = np.unique(np.round(np.linspace(0, w.n - 1, k + 3)).astype(int))
        pick = np.unique(np.minimum(pick + np.arange(len(pick)) % 3, w.n - 1))
        w.t, w.u = w.t[pick], w.u[pick]
        w.v = w.v[pick] if w.twodim else None
    if case["missing"] and n != "just enough":
        w.u = w.u.copy()
        w.u[5::29] = np.nan
    over = {}
    if case["robust"]:
        over["robust_kw"] = dict(case["robust"])
        w.u[7::31] += 4.0  # outliers
    if case["infer"]:
        m = 2 if w.twodim else 1
        over["infer"] = dict(
            inferred_names=["K2"],
            reference_names=[w.names[0]],
            amp_ratios=[0.3, 0.2][:m],
            phase_offsets=[10.0, -40.0][:m],
            approximate=case["infer"] == 2,
        )
    names = list(w.names) + (["K2"] if case["infer"] else [])

    def run(**kw):
        o = dict(w.opts, **over)
        o.update(kw)
        if o["conf_int"] == "MC":
            np.random.seed(0)
        with Quiet() as q:
            c = utide.solve(w.t, w.u, w.v, lat=w.lat, **o)
        ctx.trace()
        if not kw.get("verbose") and q.text:
            ctx.fail(f"solve with verbose=False wrote {q.text[:300]!r} ({kw})")
        return c

    base = run(conf_int="none", white=False, order_constit=None, verbose=False)
    s0 = scen.snapshot(base)
    degenerate = n in ("zero", "constant", "zero v")
    skip = [k for k in s0 if k not in EST] + (["g", "theta"] if n in ("zero", "constant") else [])
    shown = {}
    for ci, white, order, verbose, mcn in itertools.product(
        ("none", "linear", "MC"),
        (False, True),
        (None, "PE", "frequency", "SNR", "list"),
        (False, True),
        (200, 31),
    ):
        if ci == "none" and order == "SNR" or ci == "MC" and case["infer"]:
            continue
        what = f"conf_int={ci}, white={white}, order={order}, verbose={verbose}, MC_n={mcn}"
        if degenerate and order == "SNR":
            continue  # signal and noise may both vanish
        c = run(conf_int=ci, white=white, order_constit=names[::-1] if order == "list" else order, verbose=verbose, MC_n=mcn)
        s = scen.snapshot(c)
        a = {k: v for k, v in s0.items() if k not in skip}
        b = {k: v for k, v in s.items() if k in a}
        scen.same_snapshot(ctx, a, b, what, rtol=1e-12)
        if not np.array_equal(c.weights, base.weights):
            ctx.fail(what + ": the weights of the samples differ")
        if ci != "none":
            # the intervals depend neither on order nor on verbosity
            iv = {k: s[k] for k in s if k.endswith("_ci") or k == "SNR"}
            if not iv:
                ctx.fail(what + ": no intervals")
            key = (ci, white)
            if ci == "linear" and key in shown and not degenerate:
                for k, x in shown[key].items():
                    for m in x:
                        p, q = x[m], iv[k][m]
                        if not (abs(p - q) <= 1e-9 * abs(p) or (p != p and q != q)):
                            ctx.fail(f"{what}: {k} of {m} is {q!r}, otherwise {p!r}")
            shown.setdefault(key, iv)
        ctx.state(case, what)
    t2 = np.concatenate([w.t[:5], [w.tref + 100.25]])
    if n not in ("zero", "constant"):
        res = []
        for verbose in (False, True):
            with Quiet() as q:
                r = utide.reconstruct(t2, base, epoch="python", verbose=verbose)
            ctx.trace()
            if not verbose and q.text:
                ctx.fail(f"reconstruct with verbose=False wrote {q.text[:300]!r}")
            res.append([np.asarray(r[k]) for k in (("u", "v") if w.twodim else ("h",))])
        for x, y in zip(*res):
            scen.close(ctx, y, x, 1e-12 * max(1e-30, np.abs(x).max()), "reconstruct with verbose")
    ctx.outcome(n)
