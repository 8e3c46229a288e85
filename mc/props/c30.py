"""C30: the public constituent tables are consistent with each other.

Space: the whole of the tables: every constituent, satellite and shallow-water term,
every pair of names; as imported, as loaded again (with and without masks), in a new
process, and after calls of solve and reconstruct.
Oracle: the golden text copy; speeds published by the tidal agencies; frequencies from
the Doodson numbers; the relations between the tables.
"""

import json
import subprocess
import sys

import numpy as np
import core
import ops
import ref

ID = "C30"
LEVEL = "model_checking"
BOUND = {
    "quick": "all 146 constituents, 162 satellites, 251 shallow-water terms, all fields; 5 ways to obtain the tables",
    "thorough": "all 146 constituents, 162 satellites, 251 shallow-water terms, all fields; 5 ways to obtain the tables, after each of 47 calls",
}
ASSUMPTIONS = ["the golden copy of the tables is the one of the pinned commit, cross-checked with 36 published speeds"]
ARGS = ops.Args()
# degrees per hour
SPEED = dict(
    M2=28.984104, S2=30.0, N2=28.43973, K1=15.041069, M4=57.96821, O1=13.943035, M6=86.95232, MK3=44.025173,
    S4=60.0, MN4=57.423832, NU2=28.512583, S6=90.0, MU2=27.968208, OO1=16.139101, LDA2=29.455626,
    S1=15.0, NO1=14.496694, J1=15.5854435, MM=0.5443747, SSA=0.0821373, SA=0.0410686, MSF=1.0158958, MF=1.0980331,
    RHO1=13.471515, Q1=13.398661, T2=29.958933, R2=30.041067, P1=14.958931, M3=43.47616,
    L2=29.528479, K2=30.082138, M8=115.93642, MS4=58.984104,
)
SPEED["2N2"], SPEED["2Q1"], SPEED["2SM2"] = 27.895355, 12.854286, 31.015896


def cases(tier):
    for how in ("imported", "masked", "unmasked", "process", "after calls"):
        yield dict(how=how)
    if tier != "quick":
        for name in ops.OPS:
            yield dict(how="after", call=name)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, np.ma.MaskedArray):
        return plain(x.astype(object).filled(None).tolist())
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, str):
        return x.rstrip()
    if isinstance(x, float) and x != x:
        return None
    return x


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-12 * abs(b)
    return a == b


def tables(ctx, T, what):
    for part in ("const", "sat", "shallow"):
        for field, want in ref.K[part].items():
            if field not in T[part]:
                ctx.fail(f"{what}: {part}.{field} is missing")
            got = T[part][field]
            if len(got) != len(want):
                ctx.fail(f"{what}: {part}.{field} has {len(got)} entries instead of {len(want)}")
            for i, (x, y) in enumerate(zip(got, want)):
                if not equal(x, y):
                    ctx.fail(f"{what}: {part}.{field}[{i}] is {x!r} instead of {y!r}")
                ctx.state(what, part, field, i)
                ctx.step()
    C, S, H = T["const"], T["sat"], T["shallow"]
    names = C["name"]
    if len(set(names)) != len(names):
        ctx.fail(f"{what}: names are not unique")
    row = {n: i for i, n in enumerate(names)}
    f = C["freq"]
    for n, deg in SPEED.items():
        if not abs(f[row[n]] * 360 - deg) < 1e-5:
            ctx.fail(f"{what}: {n} moves {f[row[n]] * 360} degrees per hour instead of {deg}")
    implied = ref.freqs(715000.0)
    for i, n in enumerate(names):
        if not abs(f[i] - implied[i]) < 1e-9:
            ctx.fail(f"{what}: the frequency of {n} is {f[i]}, its definition gives {implied[i]}")
        if C["df"][i] and not abs(C["df"][i] - abs(f[i] - f[row[C["kmpr"][i]]])) < 1e-9:
            ctx.fail(f"{what}: the Rayleigh separation of {n}")
        if C["df"][i] and C["ikmpr"][i] != row[C["kmpr"][i]] + 1:
            ctx.fail(f"{what}: the comparison constituent of {n}")
        # a constituent has Doodson numbers or parents
        if (C["ishallow"][i] is None) == (C["doodson"][i][0] is None):
            ctx.fail(f"{what}: the definition of {n}")
        for tab, first, count in ((H, C["ishallow"][i], C["nshallow"][i]), (S, C["isat"][i], C["nsat"][i])):
            mine = [k for k, c in enumerate(tab["iconst"]) if c == i + 1]
            if mine != ([] if first is None else list(range(int(first) - 1, int(first) - 1 + int(count)))):
                ctx.fail(f"{what}: rows of the parents or satellites of {n}")
    for k in range(len(H["iconst"])):
        if C["ishallow"][H["iname"][k] - 1] is not None:
            ctx.fail(f"{what}: a shallow-water constituent is a parent")


def lookups(ctx, what):
    import utide

    names = ref.NAMES
    if dict(utide.constit_index_dict) != {n: i for i, n in enumerate(names)}:
        ctx.fail(f"{what}: constit_index_dict")
    for d in (utide.cycles_per_hour, utide.hours_per_cycle):
        if sorted(d) != sorted(names):
            ctx.fail(f"{what}: names of the frequency or period tables")
    for n in names:
        f, p = utide.cycles_per_hour[n], utide.hours_per_cycle[n]
        if f != ref.FREQ[ref.INDEX[n]] or f != utide.ut_constants.const.freq[utide.constit_index_dict[n]]:
            ctx.fail(f"{what}: cycles_per_hour of {n} is {f!r}")
        if f == 0:
            if p != np.inf:
                ctx.fail(f"{what}: hours_per_cycle of {n} is {p!r}")
        elif abs(p * f - 1) > 1e-15:
            ctx.fail(f"{what}: hours_per_cycle of {n} is {p!r}")
        if n.isidentifier() and (getattr(utide.cycles_per_hour, n) != f or getattr(utide.hours_per_cycle, n) != p):
            ctx.fail(f"{what}: attribute {n}")
        ctx.step(3)
        ctx.state(what, "lookup", n)


def check(case, ctx):
    import os

    import utide
    from utide.utilities import convert_unicode_arrays, loadbunch

    how = case["how"]
    if how == "after":
        ops.OPS[case["call"]](ARGS)
        how = f"after {case['call']}"
        tables(ctx, plain(utide.ut_constants), how)
        lookups(ctx, how)
    elif how in ("imported", "after calls"):
        if how == "after calls":
            for name in ("s1lin", "s2inf", "s1rob", "x_auto", "r2", "x_s1", "x_inf", "f_infer"):
                ops.OPS[name](ARGS)
        tables(ctx, plain(utide.ut_constants), how)
        lookups(ctx, how)
    elif how == "process":
        code = "import sys, json; sys.path[:0] = sys.argv[1:3]; from props import c30; import core; core.bootstrap(); import utide; print(json.dumps(c30.plain(utide.ut_constants)))"
        p = subprocess.run(
            [sys.executable, "-B", "-c", code, os.path.join(core.VERIF, "mc"), core.REPO],
            capture_output=True,
            text=True,
        )
        if p.returncode:
            ctx.fail(f"import in a new process: {p.stderr[-500:]}")
        tables(ctx, json.loads(p.stdout), how)
    else:
        path = os.path.join(os.path.dirname(utide.__file__), "data", "ut_constants.npz")
        x = convert_unicode_arrays(loadbunch(path, masked=how == "masked"))
        tables(ctx, plain(x), how)
    ctx.trace()
    ctx.outcome(how)
