"""C15: an aborted call leaves no trace.

Space: for each of a set of calls, every point of execution (each executed line and each
return of the package's functions, first occurrences; all occurrences in thorough) x kinds
of exception; and every call of the linear-algebra routines failing in turn.
The first calls of new processes are aborted, too.
Oracle: arguments bit-exactly unchanged, numpy's settings unchanged, and the aborted call
and probe calls repeated afterwards give the results of a fresh process.
"""

import numpy as np
import core
import ops
import sched

ID = "C15"
LEVEL = "fault_enumeration"
CHUNK = 1
LIMIT = 800
RULE = "one execution per (call, exception kind, point of execution); every such execution is distinct and non-trivial, because the point was reached and the exception raised there"
BOUND = {
    "quick": "19 calls x first 2 occurrences of every executed line and return x {KeyboardInterrupt, MemoryError alternating}; every lstsq/inv/svd/pinv/interp/fft call failing; the first occurrence of every line and return of 8 calls, each in a new process",
    "thorough": "19 calls x first 12 occurrences of every executed line and return x {KeyboardInterrupt, MemoryError, LinAlgError}; every lstsq/inv/svd/pinv/interp/fft call failing; the first 3 occurrences in 8 calls, each in a new process",
}
ASSUMPTIONS = ["no exception is injected on with and try headers and in finally blocks: no Python code can protect those", "exceptions strike at line boundaries and function returns of the package's code, or inside the listed library routines"]
ARGS = ops.Args()
CALLS = ["s1", "s1white", "s1mc", "s1rob", "s1robkw", "s1raw", "s1lin", "s1inf", "s1infx", "s1mask", "s1nan", "s1irr", "s1dt", "auto", "s2", "s2mc", "s2inf", "r1", "r2"]
PROBES = ["s1lin", "s2", "r1"]
FIRST = ["s1", "s1lin", "s1rob", "s1irr", "auto", "s2mc", "s2inf", "r1"]  # aborted as the first call of a process
ALONE = {}


class Interrupt(KeyboardInterrupt):
    pass


KINDS = {"KeyboardInterrupt": Interrupt, "MemoryError": MemoryError, "LinAlgError": np.linalg.LinAlgError}
LIB = [("numpy.linalg", n) for n in ("lstsq", "inv", "svd", "pinv", "cholesky")] + [("numpy", "interp"), ("numpy.fft", "rfft"), ("numpy.random", "multivariate_normal"), ("scipy.signal", "lombscargle"), ("numpy", "dot"), ("numpy", "exp")]


def PREPARE(tier):
    for name in CALLS:
        r = core.in_child(lambda: ops.flat(ops.OPS[name](ARGS)))
        if r[0] != "ok":
            return f"call {name} fails in a fresh process: {r[1]}"
        ALONE[name] = r[1]
    return None


def cases(tier):
    parts = 4
    for c in CALLS:
        for part in range(parts):
            if tier == "quick":
                yield dict(call=c, kind="alternating", per_line=2, part=part, of=parts)
            else:
                for k in KINDS:
                    yield dict(call=c, kind=k, per_line=12, part=part, of=parts)
        yield dict(call=c, lib=1)
    for c in FIRST:
        for part in range(6):
            yield dict(call=c, first=1, per_line=1 if tier == "quick" else 3, part=part, of=6)


def verify(ctx, what, seal, before, name, light):
    k = ops.seal_diff(seal, ops.seal(ARGS))
    if k:
        ctx.fail(f"{what}: argument {k} left modified")
    if before != (np.geterr(), str(np.get_printoptions())):
        ctx.fail(f"{what}: numpy's global settings left changed")
    for p in [name] if light else [name] + [q for q in PROBES if q != name]:
        try:
            with core.limited(60):
                got = ops.flat(ops.OPS[p](ARGS))
        except core.CaseTimeout:
            ctx.fail(f"{what}: afterwards call {p} gives no answer within 60 s")
        except Exception as e:
            ctx.fail(f"{what}: afterwards call {p} raises {type(e).__name__}: {e}")
        d = ops.differs(ALONE[p], got)
        if d:
            ctx.fail(f"{what}: afterwards call {p} differs: {d}")
        ctx.step()


def check(case, ctx):
    if not ALONE:
        bad = PREPARE("quick")
        if bad:
            ctx.fail(bad)
    name = case["call"]
    if "first" in case:
        return first(case, ctx, name)
    if "lib" in case:
        return library(case, ctx, name)
    events = ("line", "return")
    seq = sched.profile(lambda: ops.OPS[name](ARGS), events)
    unsafe = sched.unsafe_lines()
    points = [i for i in sched.select(seq, case["per_line"]) if seq[i][:2] not in unsafe]
    points = points[case["part"] :: case["of"]]
    seal = ops.seal(ARGS)
    before = np.geterr(), str(np.get_printoptions())
    for j, target in enumerate(points):
        kind = case["kind"]
        if kind == "alternating":
            kind = ("KeyboardInterrupt", "MemoryError")[j % 2]
        exc = KINDS[kind]
        n = 0

        def ev(frame, event):
            nonlocal n
            i = n
            n += 1
            if i == target:
                raise exc("injected")

        what = f"{name} aborted by {kind} at {seq[target][0]}:{seq[target][1]} ({seq[target][2]})"
        try:
            with core.limited(60):
                sched.run_traced(lambda: ops.OPS[name](ARGS), ev, events)
            ctx.outcome("swallowed")
        except core.CaseTimeout:
            ctx.fail(f"{what}: no answer within 60 s")
        except exc:
            ctx.outcome("aborted")
        except BaseException as e:
            ctx.outcome(f"became {type(e).__name__}")
        ctx.trace()
        ctx.state(name, kind, target)
        # cheap test after each abort; all probes after every 5th and the last
        verify(ctx, what, seal, before, name, light=(j % 5 != 4 and j != len(points) - 1))


def first(case, ctx, name):
    """The first call of a process is aborted; each time in a new process."""
    events = ("line", "return")
    r = core.in_child(lambda: sched.profile(lambda: ops.OPS[name](ARGS), events))
    if r[0] != "ok":
        ctx.fail(f"{name} fails in a fresh process: {r[1]}")
    seq = r[1]
    unsafe = sched.unsafe_lines()
    points = [i for i in sched.select(seq, case["per_line"]) if seq[i][:2] not in unsafe]
    points = points[case["part"] :: case["of"]]
    for j, target in enumerate(points):
        kind = ("KeyboardInterrupt", "MemoryError")[j % 2]
        what = f"{name} as first call of a process aborted by {kind} at {seq[target][0]}:{seq[target][1]} ({seq[target][2]})"

        def go():
            n = 0

            def ev(frame, event):
                nonlocal n
                n += 1
                if n - 1 == target:
                    raise KINDS[kind]("injected")

            seal = ops.seal(ARGS)
            before = np.geterr(), str(np.get_printoptions())
            inner = core.Ctx("quick", {})
            try:
                sched.run_traced(lambda: ops.OPS[name](ARGS), ev, events)
            except BaseException:
                pass
            try:
                verify(inner, what, seal, before, name, light=j % 4 != 0)
            except core.Violation as e:
                return e.msg
            return None

        r = core.in_child(go, limit=120)
        ctx.trace()
        ctx.step()
        ctx.state("first", name, target)
        ctx.outcome("first call aborted")
        if r[0] != "ok":
            ctx.fail(f"{what}: {r[1]}")
        if r[1]:
            ctx.fail(r[1])


def library(case, ctx, name):
    """Each call of a library routine fails in turn."""
    import importlib

    seal = ops.seal(ARGS)
    before = np.geterr(), str(np.get_printoptions())
    for modname, fn in LIB:
        mod = importlib.import_module(modname)
        orig = getattr(mod, fn)
        count = 0
        target = -1

        def wrapper(*a, **k):
            nonlocal count
            count += 1
            if count - 1 == target:
                raise MemoryError("injected") if fn in ("dot", "exp", "interp", "rfft") else np.linalg.LinAlgError("injected")
            return orig(*a, **k)

        setattr(mod, fn, wrapper)
        try:
            ops.OPS[name](ARGS)
            total = count
        finally:
            setattr(mod, fn, orig)
        for target in range(min(total, 6 if ctx.tier == "quick" else 40)):
            count = 0
            setattr(mod, fn, wrapper)
            try:
                with core.limited(60):
                    ops.OPS[name](ARGS)
                ctx.outcome("library failure survived")
            except (MemoryError, np.linalg.LinAlgError):
                ctx.outcome("library failure")
            finally:
                setattr(mod, fn, orig)
            ctx.trace()
            ctx.state(name, fn, target)
            verify(ctx, f"{name} aborted by {fn} failing in call {target}", seal, before, name, light=target % 3 != 0)
