"""C13: calls are pure: no history dependence, no modified arguments.

Space: (a) explicit-state search of the package's module state (tables, defaults, default
arguments, closures, numpy settings) under an alphabet of 47 calls - successful, failing,
and calls followed by overwriting everything that was returned - until no new state
appears; (b) all sequences of calls to a depth, each continued from a snapshot (fork) of
the process that executed its prefix; (c) all ordered pairs of calls out of a family whose
members differ in one respect only (the times between the ends, the order of the samples,
one option, one number of an inference, ...), each pair also with the first call repeated;
(d) pairs of calls with the very same objects, changed in place in between.
Oracle: the result of the same call made alone in a fresh process; bit-exact descriptions
of all the arguments before and after.
"""

import numpy as np
import core
import ops

ID = "C13"
LEVEL = "model_checking"
CHUNK = 1
LIMIT = 800
DEPTH = {"quick": 2, "thorough": 3}
BOUND = {
    "quick": "47 calls: reachable module states searched to a fixpoint or depth 4; all 2209 sequences of 2 calls; all ordered pairs (and A, B, A) of 78 near-equal calls; 25 in-place changes between two calls",
    "thorough": "47 calls: reachable module states searched to a fixpoint or depth 8; all 103823 sequences of 3 calls; all ordered pairs (and A, B, A) of 78 near-equal calls; 25 in-place changes between two calls",
}
ASSUMPTIONS = [
    "numpy's random state is set before every call that draws random numbers",
    "a fixpoint of the module state makes the results independent of histories of any length as far as data in the package's modules carry the dependence",
]
ALONE = {}
ARGS = ops.Args()


def PREPARE(tier):
    for name in ops.OPS:
        r = core.in_child(lambda: alone(name))
        if r[0] != "ok":
            return f"call {name} fails in a fresh process: {r[1]}"
        ALONE[name] = r[1]
    return None


def alone(name):
    return ops.flat(ops.OPS[name](ARGS))


def cases(tier):
    for name in ops.OPS:
        yield dict(op=name, depth=DEPTH[tier])
    for name in ops.TWINS:
        yield dict(twin=name)
    yield dict(mutate=1)
    yield dict(bfs=4 if tier == "quick" else 8)


def step(name, hist):
    """Run one call in this process; a message if it differs from the isolated call."""
    seal = ops.seal(ARGS)
    before = np.geterr(), str(np.get_printoptions())
    try:
        with core.limited(60):
            got = ops.flat(ops.OPS[name](ARGS))
    except Exception as e:
        return f"call {name} after {hist} raises {type(e).__name__}: {e}"
    k = ops.seal_diff(seal, ops.seal(ARGS))
    if k:
        return f"call {name} after {hist} modified its argument {k}"
    if before != (np.geterr(), str(np.get_printoptions())):
        return f"call {name} after {hist} left numpy's global settings changed"
    d = ops.differs(ALONE[name], got)
    if d:
        return f"call {name} after {hist} differs from the same call alone: {d}"
    return None


def explore(hist, depth, stats):
    """In a child with hist executed: all continuations, each in its own fork."""
    for name in ops.OPS:
        def go():
            msg = step(name, hist)
            st = dict(n=1, fp={ops.fingerprint()}, msg=msg)
            if msg is None and depth > 1:
                explore(hist + [name], depth - 1, st)
            return st

        r = core.in_child(go, limit=800)
        if r[0] != "ok":
            stats["msg"] = f"call {name} after {hist}: {r[1]}"
            return
        stats["n"] += r[1]["n"]
        stats["fp"] |= r[1]["fp"]
        if r[1]["msg"]:
            stats["msg"] = r[1]["msg"]
            return


def check(case, ctx):
    if not ALONE:  # replay
        bad = PREPARE("quick")
        if bad:
            ctx.fail(bad)
    if "bfs" in case:
        return bfs(case, ctx)
    if "twin" in case:
        return twins(case, ctx)
    if "mutate" in case:
        return mutations(case, ctx)
    name = case["op"]
    stats = dict(n=1, fp=set(), msg=step(name, []))
    if stats["msg"] is None and case["depth"] > 1:
        explore([name], case["depth"] - 1, stats)
    ctx.trace(stats["n"])
    ctx.step(stats["n"])
    for f in stats["fp"]:
        ctx.state("module state", f)
    ctx.state("prefix", name)
    ctx.outcome("sequences", stats["n"])
    if stats["msg"]:
        ctx.fail(stats["msg"])


def twins(case, ctx):
    """From a process that has made one call: every near-equal call, then the first again."""
    first = case["twin"]
    want = {}
    for name in ops.TWINS:
        r = core.in_child(lambda: ops.flat(ops.twin(name)))
        if r[0] != "ok":
            ctx.fail(f"call {name} fails in a fresh process: {r[1]}")
        want[name] = r[1]
    d = ops.differs(want[first], ops.flat(ops.twin(first)))
    if d:
        ctx.fail(f"call {first} is not reproducible: {d}")
    for name in ops.TWINS:

        def go():
            d = ops.differs(want[name], ops.flat(ops.twin(name)))
            if d:
                return f"call {name} after {first} differs from the same call alone: {d}"
            d = ops.differs(want[first], ops.flat(ops.twin(first)))
            if d:
                return f"call {first} after {first}, {name} differs from the same call alone: {d}"
            return None

        r = core.in_child(go)
        ctx.trace(2)
        ctx.step(2)
        if r[0] != "ok":
            ctx.fail(f"call {name} after {first}: {r[1]}")
        if r[1]:
            ctx.fail(r[1])
        ctx.state("pair", first, name)
    ctx.outcome("near-equal pairs", len(ops.TWINS))


def mutations(case, ctx):
    import copy

    for name, (call, change) in ops.MUTATE.items():

        def fresh():
            d = ops._mk()
            if change is not None and "c" not in d:
                call_needs = "c" in call.__code__.co_consts
                if call_needs:
                    call(d)
            change(d)
            d = copy.deepcopy(d)
            return ops.flat(call(d))

        def reused():
            d = ops._mk()
            call(d)
            change(d)
            return ops.flat(call(d))

        a, b = core.in_child(fresh), core.in_child(reused)
        ctx.trace(2)
        ctx.step(2)
        ctx.state("changed in place", name)
        if a[0] != "ok":
            ctx.fail(f"call after changing {name}: {a[1]}")
        if b[0] != "ok":
            ctx.fail(f"call before and after changing {name}: {b[1]}")
        d = ops.differs(a[1], b[1])
        if d:
            ctx.fail(f"after a call, {name} was changed in place by the caller; the next call differs from one in a fresh process: {d}")
    ctx.outcome("in-place changes", len(ops.MUTATE))


def bfs(case, ctx):
    """Breadth-first over module states; each state is reached by replaying its path."""
    start = ops.fingerprint()
    seen = {start: []}
    frontier = [start]
    for depth in range(case["bfs"]):
        new = []
        for fp in frontier:
            for name in ops.OPS:
                path = seen[fp]

                def go():
                    for p in path:
                        ops.OPS[p](ARGS)
                    msg = step(name, path)
                    return msg, ops.fingerprint()

                r = core.in_child(go)
                if r[0] != "ok":
                    ctx.fail(f"call {name} after {path}: {r[1]}")
                msg, nxt = r[1]
                ctx.trace()
                ctx.step()
                if msg:
                    ctx.fail(msg)
                if nxt not in seen and len(seen) < 40:
                    seen[nxt] = path + [name]
                    new.append(nxt)
        frontier = new
        if not frontier:
            ctx.outcome(f"module-state fixpoint at depth {depth + 1}")
            break
    for f in seen:
        ctx.state("module state", f)
    ctx.outcome("reachable module states", len(seen))
