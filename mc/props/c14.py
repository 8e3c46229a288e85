"""C14: concurrent calls from several threads do not interfere.

Space: for each ordered pair of calls (A, B): A is preempted at every selected line of
the package, B runs to completion, A goes on (preemption bound 1); A is preempted at
every function boundary i, B at every function boundary j, A completes, B completes
(preemption bound 2).  Real threads on the real code; a trace-function scheduler hands
control over only at the chosen points.
The same with one preemption in processes that have not called the package before.
Oracle: results of the same calls alone; arguments bit-exactly unchanged.
"""

import itertools
import warnings

import numpy as np
import core
import ops
import sched
import scen

ID = "C14"
LEVEL = "model_checking"
CHUNK = 1
LIMIT = 800
BOUND = {
    "quick": "16 ordered pairs of 10 calls; one preemption at the first occurrence of every executed line and at all occurrences in 3 pairs up to 4 per line; two preemptions at the first 2 occurrences of every function entry for 3 pairs; one preemption at the first 2 occurrences of every line in new processes, 6 pairs",
    "thorough": "all 100 ordered pairs of 10 calls; one preemption at the first 6 occurrences of every executed line; two preemptions at the first 3 occurrences of every function entry for 12 pairs; one preemption at the first 3 occurrences of every line in new processes, 6 pairs",
}
ASSUMPTIONS = [
    "preemption at line boundaries of the package's Python code; numpy calls are atomic",
    "Monte-Carlo intervals are excluded: they draw from numpy's global random state",
]
ARGS = ops.Args()
CALLS = ["s1", "s1white", "s1rob", "s1lin", "s1inf", "s1irr", "auto", "s2", "r1c", "r2c"]
PAIRS = [
    ("s1", "s1"), ("s1", "s1lin"), ("s1lin", "s1"), ("s1", "s2"), ("s2", "s1rob"), ("s1rob", "s1rob"),
    ("s1inf", "s1lin"), ("s1irr", "s1"), ("s1", "s1irr"), ("auto", "s1"), ("s2", "auto"), ("s1white", "s1raw"),
    ("r1c", "r1c"), ("r1c", "r2c"), ("r2c", "s1"), ("s1lin", "r1c"),
]
TWO = [("s1", "s1lin"), ("r1c", "r2c"), ("s2", "s1inf")]
# in a new process each
COLD = [("s1", "s1"), ("s1", "s2"), ("s1lin", "s1"), ("s1irr", "s1irr"), ("r1c", "r1c"), ("r2c", "r1c")]
_coefs = {}


def coef(which):
    if which not in _coefs:
        _coefs[which] = ops.OPS[which](ARGS)
    return _coefs[which]


def call(name):
    if name == "r1c":
        c = coef("s1")
        return lambda: ops.R(ARGS, ARGS.tlater, c, min_SNR=0)
    if name == "r2c":
        c = coef("s2")
        return lambda: ops.R(ARGS, ARGS.t, c)
    return lambda: ops.OPS[name](ARGS)


def cases(tier):
    pairs = PAIRS if tier == "quick" else list(itertools.product(CALLS, CALLS))
    deep = {("s1", "s1lin"), ("s2", "s1rob"), ("r1c", "r2c")}
    for a, b in pairs:
        k = 6 if tier != "quick" else (4 if (a, b) in deep else 1)
        for part in range(4):
            yield dict(a=a, b=b, bound=1, per_line=k, part=part, of=4)
    for a, b in COLD:
        for part in range(4):
            yield dict(a=a, b=b, cold=1, part=part, of=4)
    two = TWO if tier == "quick" else TWO + PAIRS[:9]
    for a, b in two:
        for part in range(8):
            yield dict(a=a, b=b, bound=2, per_line=2 if tier == "quick" else 3, part=part, of=8)


def cold(case, ctx):
    """One preemption in the first calls of a process."""
    names = (case["a"], case["b"])
    for n in names:
        which = {"r1c": "s1", "r2c": "s2"}.get(n)
        if which and which not in _coefs:
            r = core.in_child(lambda: ops.OPS[which](ARGS))
            if r[0] != "ok":
                ctx.fail(f"{which} fails in a fresh process: {r[1]}")
            _coefs[which] = r[1]
    fn = [call(n) for n in names]
    alone = []
    for n, f in zip(names, fn):
        r = core.in_child(lambda: (ops.flat(f()), None))
        if r[0] != "ok":
            ctx.fail(f"{n} fails in a fresh process: {r[1]}")
        alone.append(r[1][0])
    r = core.in_child(lambda: sched.profile(fn[0], ("line",)))
    if r[0] != "ok":
        ctx.fail(f"{names[0]} fails in a fresh process: {r[1]}")
    seq = r[1]
    points = sched.select(seq, 2 if ctx.tier == "quick" else 3)[case["part"] :: case["of"]]
    for i in points:
        where = f"first calls of a process: {names[0]} preempted at {seq[i][:2]} by {names[1]}"

        def go():
            warnings.simplefilter("ignore")
            res, switches, note = sched.Pair(*fn, ("line",)).run(([i], []))
            if note == "deadlock":
                return "neither thread goes on"
            for k, n in enumerate(names):
                if res[k] is None or res[k][0] != "ok":
                    return f"{n} raises {res[k]}"
                d = ops.differs(alone[k], ops.flat(res[k][1]))
                if d:
                    return f"{n} differs from the call alone: {d}"
            return None

        r = core.in_child(go)
        ctx.trace()
        ctx.step(2)
        ctx.state("cold", *names, i)
        bad = r[1]
        if bad:
            ctx.fail(f"{where}: {bad}")
    ctx.outcome("schedules of first calls", len(points))


def check(case, ctx):
    if "cold" in case:
        return cold(case, ctx)
    fa, fb = call(case["a"]), call(case["b"])
    alone = [ops.flat(fa()), ops.flat(fb())]
    seal = ops.seal(ARGS)
    cseal = {k: ops.describe(v) for k, v in _coefs.items()}
    events = ("line",) if case["bound"] == 1 else ("call",)
    pa = sched.profile(fa, events)
    pb = sched.profile(fb, events)
    sa, sb = sched.select(pa, case["per_line"]), sched.select(pb, case["per_line"])
    # at most 30 of the many repeated entries per function for two preemptions
    if case["bound"] == 1:
        scheds = [([i], []) for i in sa]
    else:
        scheds = [([i], [j]) for i in sa for j in sb]
    pair = sched.Pair(fa, fb, events)
    for stops in scheds[case["part"] :: case["of"]]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res, switches, note = pair.run(stops)
        ctx.trace()
        ctx.step(switches)
        where = f"{case['a']} preempted at {pa[stops[0][0]][:2]}" + (f", {case['b']} at {pb[stops[1][0]][:2]}" if stops[1] else f" by {case['b']}")
        ctx.state(case["a"], case["b"], stops)
        if note == "deadlock":
            ctx.fail(f"{where}: neither thread goes on")
        if note:
            ctx.outcome(note)
        for i, n in enumerate((case["a"], case["b"])):
            if res[i] is None or res[i][0] != "ok":
                ctx.fail(f"{where}: {n} raises {res[i]}")
            d = ops.differs(alone[i], ops.flat(res[i][1]))
            if d:
                ctx.fail(f"{where}: {n} differs from the call alone: {d}")
        k = ops.seal_diff(seal, ops.seal(ARGS))
        if k:
            ctx.fail(f"{where}: the shared argument {k} was modified")
    if cseal != {k: ops.describe(v) for k, v in _coefs.items()}:
        ctx.fail("the shared coefficient set was modified")
    ctx.outcome("schedules", len(scheds[case["part"] :: case["of"]]))
