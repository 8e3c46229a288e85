"""C05: results do not depend on how the same instants are expressed.

Space: every pair (representation given to solve, representation given to reconstruct)
x calendar dates x kinds of record; every rejection pair (datetimes with an epoch,
epochs that are not dates).
Oracle: signals written by the reference model at day numbers computed with
datetime.date.toordinal; the amplitudes, the reference time and the reconstructed values
must be those of the truth, and agree among representations.
"""

import datetime

import numpy as np
import ref
import scen

ID = "C05"
LEVEL = "model_checking"
BOUND = {
    "quick": "7 dates x all pairs of up to 30 representations (solve x reconstruct), hourly records; 2 dates x each representation x 6 patterns of missing times (NaN, NaT, None, masked); whole-day times of 5 types x 14 epochs; 6 datetime kinds x 8 epochs and 6 bad epochs rejected by both functions",
    "thorough": "12 dates x all pairs of up to 30 representations x {elevation, velocity} x {hourly, irregular milliseconds} x 3 model options; 12 dates x each representation x 6 patterns of missing times; whole-day times of 5 types x 14 epochs",
}
ASSUMPTIONS = ["instants are whole milliseconds; nanosecond representations only where they exist (1678-2262)"]

DATES = [
    (2008, 2, 25, 7),
    (1969, 12, 29, 0),
    (1850, 6, 15, 13),
    (1600, 2, 27, 1),
    (1999, 12, 29, 22),
    (2100, 2, 25, 5),
    (1066, 10, 14, 9),
]
MORE = [(1, 3, 1, 0), (1752, 9, 1, 3), (1900, 2, 26, 6), (2262, 3, 1, 0), (3000, 1, 1, 12)]

EPOCHS = [
    "1970-01-01",
    "2000-01-01",
    "1858-11-17",
    "2000-01-01 12:00:00",
    "0001-01-01",
    "2500-07-04",
    datetime.date(1950, 1, 1),
    datetime.datetime(1987, 6, 5, 4, 3, 2),
    datetime.datetime(1601, 1, 1),
    np.datetime64("1992-02-29"),
    np.datetime64("1970-01-01T06:00", "m"),
    np.datetime64("2010-05-05T05:05:05.250", "ms"),
]


def epoch_day(e):
    """Day number of an epoch, by the calendar of the standard library."""
    if isinstance(e, str):
        e = datetime.datetime.fromisoformat(e)
    if isinstance(e, np.datetime64):
        e = e.astype("datetime64[us]").astype(datetime.datetime)
    d = e.toordinal()
    if isinstance(e, datetime.datetime):
        d += (e - datetime.datetime(e.year, e.month, e.day)).total_seconds() / 86400.0
    return float(d)


def instants(case):
    y, m, d, h = case["date"]
    start = datetime.datetime(y, m, d, h)
    if case.get("irr"):
        ms, out = 0, []
        for i in range(150):
            out.append(start + datetime.timedelta(milliseconds=ms))
            ms += 2700000 + (i * 7919 % 1801) * 1000 + (i * 31) % 977
        return out
    return [start + datetime.timedelta(hours=i) for i in range(130)]


def day(dt):
    s = dt.hour * 3600 + dt.minute * 60 + dt.second + dt.microsecond * 1e-6
    return dt.toordinal() + s / 86400.0


def representations(dts, irr):
    """name -> (t, epoch)."""
    import pandas as pd

    days = np.array([day(x) for x in dts])
    out = {"python": (days, "python"), "matlab": (days + 366.0, "matlab")}
    for i, e in enumerate(EPOCHS):
        out[f"epoch {e!s}"] = (days - epoch_day(e), e)
    for e in ("1995-03-03", "2000-02-29T18:00"):
        out[f"Timestamp {e}"] = (days - epoch_day(e), pd.Timestamp(e))
    us = np.array(dts, dtype="datetime64[us]")
    for unit in ("ms", "us") + (() if irr else ("s", "m", "h")):
        out[f"datetime64[{unit}]"] = (us.astype(f"datetime64[{unit}]"), None)
    if 1678 <= dts[0].year <= 2261:
        out["datetime64[ns]"] = (us.astype("datetime64[ns]"), None)
        out["DatetimeIndex"] = (pd.DatetimeIndex(us.astype("datetime64[ns]")), None)
        out["Series"] = (pd.Series(us.astype("datetime64[ns]"), index=np.arange(len(dts))[::-1]), None)
        out["to_datetime"] = (pd.to_datetime(dts), None)
    out["Series[ms]"] = (pd.Series(us.astype("datetime64[ms]")), None)
    out["list of datetime"] = (list(dts), None)
    out["array of datetime"] = (np.array(dts, dtype=object), None)
    out["list of datetime64"] = (list(us), None)
    out["list of days"] = (list(days), "python")
    return days, out


def cases(tier):
    dates = DATES if tier == "quick" else DATES + MORE
    for d in dates:
        for kind in ("1d", "2d") if tier != "quick" else ("1d",):
            for irr in (0, 1) if tier != "quick" else (0,):
                for opts in ({}, dict(phase="linear_time"), dict(nodal="linear_time")) if tier != "quick" else ({},):
                    n = len(representations(instants(dict(date=d, irr=irr)), irr)[1])
                    for i in range(n):
                        yield dict(date=d, kind=kind, irr=irr, opts=opts, i=i)
    if tier == "quick":
        for d in DATES[:4]:
            for i in range(0, 30, 3):
                yield dict(date=d, kind="2d", irr=1, opts={}, i=i)
    for d in dates[:2] if tier == "quick" else dates:
        for i in range(40):
            for kind in ("1d", "2d") if tier != "quick" else ("1d",):
                yield dict(date=d, missing=i, kind=kind, opts={})
    for i in range(len(EPOCHS) + 2):
        for typ in WHOLE:
            yield dict(whole=i, typ=typ)
    for fn in ("solve", "reconstruct"):
        yield dict(reject=fn)


WHOLE = {
    "float": lambda k: k.astype(float),
    "int": lambda k: k,
    "int32": lambda k: k.astype(np.int32),
    "list of int": lambda k: [int(x) for x in k],
    "Series of int": lambda k: __import__("pandas").Series(k, index=k[::-1]),
}


def whole(case, ctx):
    """Daily records: times are whole numbers, whatever time of day their epoch has."""
    import utide

    i = case["whole"]
    e, zero = [(e, epoch_day(e)) for e in EPOCHS][i] if i < len(EPOCHS) else [("python", 0.0), ("matlab", -366.0)][i - len(EPOCHS)]
    first = int(round(728000 - zero))
    k = np.arange(first, first + 160)
    typ = WHOLE[case["typ"]]
    days = zero + k
    tref = 0.5 * (days[0] + days[-1])
    truth = scen.truth1(["M2", "N2"], "plain")
    u = ref.elevation(days, truth, tref, 45.0, "Greenwich", True, 0.3, 0.01)
    c = utide.solve(typ(k), u, lat=45.0, epoch=e, constit=["M2", "N2"], conf_int="none", verbose=False)
    what = f"whole days ({case['typ']}) since {e}"
    scen.compare_phasors(ctx, scen.phasors(c), scen.truth_phasors(truth), 1e-5, f"{what}: amplitudes")
    scen.close(ctx, c.aux.reftime, tref, 1e-7, f"{what}: reference time")
    k2 = k[::3] + 40
    want = ref.elevation(zero + k2, truth, tref, 45.0, "Greenwich", True, 0.3, 0.01)
    scen.close(ctx, utide.reconstruct(typ(k2), c, epoch=e, verbose=False).h, want, 1e-4, f"{what}: reconstructed")
    # the same coefficients at times given in another way
    scen.close(ctx, utide.reconstruct(zero + k2, c, epoch="python", verbose=False).h, want, 1e-4, f"{what}: reconstructed elsewhere")
    for x in ([k2[0]], k2[:2]):
        scen.close(ctx, utide.reconstruct(typ(np.array(x)), c, epoch=e, verbose=False).h, want[: len(x)], 1e-4, f"{what}: few values")
        ctx.trace()
    ctx.trace()
    ctx.trace()
    ctx.state("whole", str(e), case["typ"])
    ctx.outcome("whole days")


GAPS = {"first": [0], "first two": [0, 1], "last": [-1], "middle": [40], "ends": [0, -1], "most": [0, 1, 2, 3, *range(50, 90), -1]}


def punched(t, gap, how):
    """Times with missing ones: NaN or NaT, None, or masked; None if there is no such form."""
    import pandas as pd

    if how == "masked":
        if isinstance(t, (list, pd.Series, pd.Index)) or t.dtype == object:
            return None
        m = np.zeros(len(t), bool)
        m[gap] = True
        return np.ma.array(t, mask=m)
    if isinstance(t, list):
        t = list(t)
        for i in gap:
            t[i] = np.datetime64("NaT", "us") if isinstance(t[i], np.datetime64) else np.nan if isinstance(t[i], float) else None
        return t
    if isinstance(t, pd.Series):
        t = t.copy()
        t.iloc[gap] = pd.NaT
        return t
    if isinstance(t, pd.Index):
        a = t.to_numpy().copy()
        a[gap] = np.datetime64("NaT")
        return pd.DatetimeIndex(a)
    t = t.copy()
    t[gap] = np.nan if t.dtype.kind == "f" else None if t.dtype == object else np.datetime64("NaT")
    return t


def missing(case, ctx):
    """Missing times, at the beginning and elsewhere, in every representation."""
    import utide

    dts = instants(case)
    days, reps = representations(dts, 0)
    names = list(reps)
    if case["missing"] >= len(names):
        return
    name = names[case["missing"]]
    t, epoch = reps[name]
    truth, u, v = signal(case, days)
    for gname, gap in GAPS.items():
        keep = np.ones(len(days), bool)
        keep[gap] = False
        want_ref = 0.5 * (days[keep][0] + days[keep][-1])
        vv = None if v is None else v[keep]
        base = utide.solve(days[keep], u[keep], vv, lat=45.0, epoch="python", constit=["M2", "K1"], conf_int="none", verbose=False)
        z = scen.phasors(base)
        for how in ("nan", "masked"):
            tt = punched(t, gap, how)
            if tt is None:
                continue
            what = f"times as {name}, {gname} missing ({how})"
            c = utide.solve(tt, u, v, lat=45.0, epoch=epoch, constit=["M2", "K1"], conf_int="none", verbose=False)
            ctx.trace(2)
            scen.close(ctx, c.aux.reftime, want_ref, 1e-7, f"{what}: reference time")
            scen.compare_phasors(ctx, scen.phasors(c), z, 1e-5, f"{what}: amplitudes")
            o = utide.reconstruct(tt, c, epoch=epoch, verbose=False)
            got = o.u + 1j * o.v if v is not None else o.h
            want = np.where(keep, u + 1j * v if v is not None else u, np.nan)
            scen.close(ctx, got, want, 1e-4, f"{what}: reconstructed")
            ctx.state(case, gname, how)
    ctx.outcome("missing times")


def signal(case, days):
    tref = 0.5 * (days[0] + days[-1])
    o = case["opts"]
    args = (tref, 45.0, o.get("phase", "Greenwich"), o.get("nodal", True))
    if case["kind"] == "2d":
        truth = scen.truth2(["M2", "K1"], "plain")
        u, v = ref.velocity(days, truth, *args, (0.3, -0.2), (0.01, 0.02))
        return truth, u, v
    truth = scen.truth1(["M2", "K1"], "plain")
    return truth, ref.elevation(days, truth, *args, 0.3, 0.01), None


def check(case, ctx):
    import utide

    if "reject" in case:
        return reject(case, ctx)
    if "whole" in case:
        return whole(case, ctx)
    if "missing" in case:
        return missing(case, ctx)
    dts = instants(case)
    days, reps = representations(dts, case["irr"])
    names = list(reps)
    if case["i"] >= len(names):
        return
    name = names[case["i"]]
    t, epoch = reps[name]
    truth, u, v = signal(case, days)
    c = utide.solve(t, u, v, lat=45.0, epoch=epoch, constit=["M2", "K1"], conf_int="none", verbose=False, **case["opts"])
    ctx.trace()
    scen.compare_phasors(ctx, scen.phasors(c), scen.truth_phasors(truth), 1e-5, f"solve with times as {name}: amplitudes")
    scen.close(ctx, c.aux.reftime, 0.5 * (days[0] + days[-1]), 1e-7, f"solve with times as {name}: reference time")
    scen.close(ctx, scen.slope_of(c), (0.01, 0.02) if v is not None else 0.01, 1e-5, f"times as {name}: slope")
    # reconstruct at other instants in every representation
    later = [x + datetime.timedelta(days=3, hours=1) for x in dts[::9]]
    ldays, lreps = representations(later, case["irr"])
    want = signal_at(case, days, truth, ldays)
    for n2, (t2, e2) in lreps.items():
        o = utide.reconstruct(t2, c, epoch=e2, verbose=False)
        ctx.trace()
        got = o.u + 1j * o.v if v is not None else o.h
        scen.close(ctx, got, want, 1e-4, f"solve with {name}, reconstruct with {n2}: value")
        ctx.state(case, n2)
    ctx.outcome("pairs", len(lreps))


def signal_at(case, days, truth, t):
    tref = 0.5 * (days[0] + days[-1])
    o = case["opts"]
    args = (tref, 45.0, o.get("phase", "Greenwich"), o.get("nodal", True))
    if case["kind"] == "2d":
        u, v = ref.velocity(t, truth, *args, (0.3, -0.2), (0.01, 0.02))
        return u + 1j * v
    return ref.elevation(t, truth, *args, 0.3, 0.01)


def reject(case, ctx):
    import utide

    dts = instants(dict(date=DATES[0]))
    days, reps = representations(dts, 0)
    _, u, _ = signal(dict(kind="1d", opts={}), days)
    c = utide.solve(days, u, lat=45.0, epoch="python", constit=["M2", "K1"], conf_int="none", verbose=False)
    bad = [(n, t, e) for n, (t, e0) in reps.items() if e0 is None for e in ["python", "matlab"] + EPOCHS[:1] + EPOCHS[6:8] + EPOCHS[9:10]]
    bad += [("days", days, e) for e in ("Python", "2000-13-01", "yesterday", "1 Jan 2000", "2000/01/01", "MATLAB")]
    for n, t, e in bad:
        try:
            if case["reject"] == "solve":
                utide.solve(t, u, lat=45.0, epoch=e, constit=["M2", "K1"], conf_int="none", verbose=False)
            else:
                utide.reconstruct(t, c, epoch=e, verbose=False)
        except ValueError:
            ctx.outcome("rejected")
        else:
            ctx.fail(f"{case['reject']} accepts times as {n} with epoch {e!r}")
        ctx.trace()
        ctx.step()
        ctx.state(case, n, str(e))
