"""C09: PE and SNR diagnostics agree with the amplitudes and intervals.

Space: every scenario with at most k deviations over kind, sampling, constituents,
interval options, orders, signal shapes, with noise.
Oracle: the definitions applied to the reported amplitudes and intervals.
"""

import numpy as np
import scen

ID = "C09"
LEVEL = "model_checking"
BOUND = {
    "quick": "all scenarios with <=2 deviations in 10 dimensions, elevation and velocity, conf_int in {none, linear, MC} x white x 5 orders",
    "thorough": "all scenarios with <=3 deviations in 10 dimensions, elevation and velocity, conf_int in {none, linear, MC} x white x 5 orders",
}


def cases(tier):
    d = scen.dims(start=None, lat=None, trend=None, nodal=None, phase=None, conf_int=["linear", "none", "MC"], order=[None, "PE", "frequency", "SNR", "list"])
    d["infer"] = [0, 1]
    d["noise"] = [0.05, 1.0]
    for s in scen.deviations(d, 2 if tier == "quick" else 3, fixed=("kind", "order", "conf_int")):
        if s["order"] == "SNR" and s["conf_int"] == "none":
            continue
        if s["infer"] and s["conf_int"] == "MC":
            continue
        yield s


def check(case, ctx):
    w = scen.World({k: v for k, v in case.items() if k not in ("infer", "noise")}, noise=case["noise"])
    inf = None
    names = list(w.model)
    if case["infer"]:
        k = 2 if w.twodim else 1
        inf = dict(inferred_names=["K2", "2N2"], reference_names=[names[0]] * 2, amp_ratios=[0.3, 0.1] * k, phase_offsets=[10.0, 99.0] * k)
        names += ["K2", "2N2"]
    over = dict(order_constit=names[::-1]) if case["order"] == "list" else {}
    c = w.solve(infer=inf, **over)
    ctx.trace()
    ctx.state(case)
    scen.observe_coef(ctx, c)
    E = c.Lsmaj**2 + c.Lsmin**2 if w.twodim else c.A**2
    pe = 100 * E / E.sum()
    if case["conf_int"] == "none":
        if "PE" in c:
            scen.close(ctx, c.PE, pe, 1e-8 * 100, "PE")
        ctx.outcome("no intervals")
        return
    scen.close(ctx, c.PE, pe, 1e-6 * pe, "PE")
    if not np.all(c.PE >= 0) or abs(c.PE.sum() - 100) > 1e-8:
        ctx.fail(f"PE {c.PE} does not sum to 100")
    if w.twodim:
        N = (c.Lsmaj_ci / 1.96) ** 2 + (c.Lsmin_ci / 1.96) ** 2
    else:
        N = (c.A_ci / 1.96) ** 2
    snr = E / N
    scen.close(ctx, c.SNR, snr, 1e-6 * np.abs(snr), "SNR")
    ok = np.isfinite(snr)
    if not np.all(c.SNR[ok] >= 0):
        ctx.fail(f"negative SNR {c.SNR}")
    # the summary, always by decreasing energy
    d = c["diagn"]
    dn = [str(n) for n in d["name"]]
    if sorted(dn) != sorted(str(n) for n in c.name):
        ctx.fail(f"diagn names {dn} for {list(c.name)}")
    if not np.all(np.diff(d["PE"]) <= 1e-12):
        ctx.fail(f"diagn PE {d['PE']} is not decreasing")
    where = {str(n): i for i, n in enumerate(c.name)}
    for i, n in enumerate(dn):
        j = where[n]
        if abs(d["PE"][i] - c.PE[j]) > 1e-6 * c.PE[j] or not (abs(d["SNR"][i] - c.SNR[j]) <= 1e-6 * c.SNR[j] or (d["SNR"][i] != d["SNR"][i] and c.SNR[j] != c.SNR[j])):
            ctx.fail(f"diagn of {n}: PE {d['PE'][i]}, SNR {d['SNR'][i]} instead of {c.PE[j]}, {c.SNR[j]}")
    ctx.step(len(dn))
    ctx.outcome("diagnosed")
