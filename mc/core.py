"""Bounded-exhaustive explorer: enumeration, isolation, confirmation, evidence.

A property module (props/cNN.py) provides

    ID, LEVEL        the property and the evidence level
    cases(tier)      a finite, deterministic sequence of JSON-able cases, simplest
                     first; exploring all of them is the deciding step
    check(case, ctx) runs the real code on one case, compares every observation with
                     the reference model, and calls ctx.fail(...) on a difference
    SETUP            optional hook run once in each worker

Cases are grouped in chunks; every chunk runs in a child forked from a pristine parent
that has imported the code under test and called nothing.  A failing case is run again
alone in a fresh child (a one-case replay) and, if that passes, with the cases that
preceded it (a history replay).
"""

import contextlib
import hashlib
import json
import os
import pickle
import re
import selectors
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class CaseTimeout(Exception):
    pass


def canon(obj):
    return json.dumps(obj, sort_keys=True, default=str, separators=(",", ":"))


def digest(obj):
    return hashlib.blake2b(canon(obj).encode(), digest_size=8).digest()


class Ctx:
    """Counters of one worker, and the way to report."""

    def __init__(self, tier, known):
        self.tier = tier
        self.known = known
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.known_hit = {}
        self.tolmax = {}

    def state(self, *key):
        """A distinct canonical state of the explored space was visited."""
        self.states.add(digest(key))

    def step(self, n=1):
        """n transitions: actions of the model compared with the real code."""
        self.transitions += n

    def trace(self, n=1):
        """n executions of the real code validated against the model."""
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def margin(self, name, value):
        # one line per kind of comparison, not per case
        name = re.sub(r"[\[(].*?[\])]|[-+]?[0-9.]+(e[-+]?[0-9]+)?", "", name.split(": ")[-1]).strip()[:40]
        if name not in self.tolmax and len(self.tolmax) >= 40:
            name = "other"
        if value > self.tolmax.get(name, -1.0):
            self.tolmax[name] = float(value)

    def fail(self, msg, key=None):
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        raise Violation(msg, key)


def load_known(pid):
    """Open findings of this property: {key: description}."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open:"):
                parts = line[5:].split(None, 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                if d.get("property") == pid:
                    out[d["key"]] = parts[2]
    return out


def bootstrap():
    """Environment and import path; must run before numpy is imported."""
    for v in (
        "OPENBLAS_NUM_THREADS",
        "OMP_NUM_THREADS",
        "MKL_NUM_THREADS",
        "NUMEXPR_NUM_THREADS",
    ):
        os.environ[v] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    # Never use byte code left from another version of the sources.
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path[:0] = [REPO, os.path.join(VERIF, "mc")]
    import warnings

    warnings.simplefilter("ignore")
    import utide

    where = os.path.realpath(os.path.dirname(utide.__file__))
    want = os.path.realpath(os.path.join(REPO, "utide"))
    if where != want:
        raise SystemExit(f"utide imported from {where}, not {want}")


# ------------------------------------------------------------------ children


def _alarm(signum, frame):
    raise CaseTimeout()


class Hang(BaseException):
    pass


def run_case(mod, case, ctx, limit):
    """None, or (message, key)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        mod.check(case, ctx)
        return None
    except Violation as e:
        return (e.msg, e.key)
    except CaseTimeout:
        return (f"no answer within {limit} s", None)
    except MemoryError:
        raise
    except Exception:
        tb = traceback.format_exc()
        return ("unexpected exception: " + tb[-1800:], None)
    finally:
        signal.alarm(0)


@contextlib.contextmanager
def limited(seconds):
    """One execution of the code under test: it has to answer within so many seconds."""
    left = signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(left)


def child_main(mod, cases, tier, known, limit, wfd):
    try:
        if not os.environ.get("VERIF_SHOW"):
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
        ctx = Ctx(tier, known)
        if hasattr(mod, "SETUP"):
            mod.SETUP(ctx)
        viol = None
        n = 0
        for i, case in enumerate(cases):
            n += 1
            bad = run_case(mod, case, ctx, limit)
            if bad:
                viol = (i, *bad)
                break
        out = dict(
            n=n,
            states=ctx.states,
            transitions=ctx.transitions,
            traces=ctx.traces,
            outcomes=ctx.outcomes,
            known_hit=ctx.known_hit,
            tolmax=ctx.tolmax,
            violation=viol,
        )
    except BaseException:
        out = dict(error=traceback.format_exc())
    data = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(struct.pack("<Q", len(data)))
        f.write(data)
    os._exit(0)


def spawn(mod, cases, tier, known, limit):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child_main(mod, cases, tier, known, limit, w)
    os.close(w)
    return pid, r


def collect(fd, pid):
    chunks = []
    while True:
        b = os.read(fd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(fd)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if len(data) < 8:
        return dict(error=f"worker died with status {status}")
    return pickle.loads(data[8:])


def run_alone(mod, cases, tier, known, limit):
    pid, fd = spawn(mod, cases, tier, known, limit)
    return collect(fd, pid)


def workers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, int(os.environ.get("VERIF_JOBS", n)))


def explore(mod, cases, tier, known, limit, chunk=None):
    """Run all cases; returns (totals, violation or None)."""
    njobs = workers()
    total = len(cases)
    if chunk is None:
        chunk = getattr(mod, "CHUNK", None) or max(1, min(64, total // (njobs * 8) + 1))
    starts = list(range(0, total, chunk))
    tot = dict(
        n=0,
        states=set(),
        transitions=0,
        traces=0,
        outcomes={},
        known_hit={},
        tolmax={},
        errors=[],
    )
    best = None  # (global index, chunk start, msg, key)
    sel = selectors.DefaultSelector()
    running = {}
    nxt = 0
    pre = {}
    while nxt < len(starts) or running:
        while nxt < len(starts) and len(running) < njobs and not tot["errors"]:
            s = starts[nxt]
            if best is not None and s > best[0]:
                nxt = len(starts)
                break
            nxt += 1
            pid, fd = spawn(mod, cases[s : s + chunk], tier, known, limit)
            running[fd] = (pid, s)
            sel.register(fd, selectors.EVENT_READ)
            pre[fd] = []
        if not running:
            break
        for key, _ in sel.select(timeout=5):
            fd = key.fd
            b = os.read(fd, 1 << 20)
            if b:
                pre[fd].append(b)
                continue
            sel.unregister(fd)
            os.close(fd)
            pid, s = running.pop(fd)
            _, status = os.waitpid(pid, 0)
            data = b"".join(pre.pop(fd))
            if len(data) < 8:
                out = dict(error=f"worker for cases {s}.. died with status {status}")
            else:
                out = pickle.loads(data[8:])
            if "error" in out:
                tot["errors"].append((s, out["error"]))
                continue
            tot["n"] += out["n"]
            tot["states"] |= out["states"]
            tot["transitions"] += out["transitions"]
            tot["traces"] += out["traces"]
            for k in ("outcomes", "known_hit"):
                for a, b in out[k].items():
                    tot[k][a] = tot[k].get(a, 0) + b
            for a, b in out["tolmax"].items():
                tot["tolmax"][a] = max(tot["tolmax"].get(a, -1.0), b)
            if out["violation"]:
                i, msg, vkey = out["violation"]
                if best is None or s + i < best[0]:
                    best = (s + i, s, msg, vkey)
    return tot, best


# ------------------------------------------------------------------ main


def write_replay(pid, payload):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(canon(payload).encode(), digest_size=6).hexdigest()
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(payload, f, indent=1, default=str)
    return path


def main(mod, argv):
    pid = mod.ID
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = getattr(mod, "LIMIT", 240)
    known = load_known(pid)
    t0 = time.time()

    if "--replay" in argv:
        payload = json.load(open(argv[argv.index("--replay") + 1]))
        out = run_alone(mod, payload["history"], tier, known, limit)
        if out.get("error"):
            print(out["error"])
            return 2
        if out["violation"]:
            print("reproduced:", out["violation"][1])
            return 1
        print("the case passes")
        return 0

    if hasattr(mod, "PREPARE"):
        bad = mod.PREPARE(tier)
        if bad:
            path = write_replay(pid, dict(property=pid, message=bad, history=[]))
            print(bad)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    cases = list(mod.cases(tier))
    only = os.environ.get("VERIF_ONLY")
    if only:
        cases = [c for c in cases if only in canon(c)]
    tot, best = explore(mod, cases, tier, known, limit)
    if tot["errors"] and best is None:
        # A worker died (killed, out of memory, ...): run its cases one by one.
        s, err = tot["errors"][0]
        print(f"worker error: {err}", file=sys.stderr)
        return 3

    nviol = 0
    if best is not None:
        gi, start, msg, vkey = best
        case = cases[gi]
        hist, note = [case], "one case, fresh process"
        out = run_alone(mod, hist, tier, known, limit)
        if not (out.get("violation") or out.get("error")):
            hist, note = cases[start : gi + 1], "history of cases in one process"
            out = run_alone(mod, hist, tier, known, limit)
            if not (out.get("violation") or out.get("error")):
                note = (
                    "history of cases; the failure did not repeat on the same history,"
                    " so the code under test is not deterministic"
                )
            else:
                # shorten the history: drop predecessors while it still fails
                hist = shorten(mod, hist, tier, known, limit)
        if out.get("violation"):
            msg = out["violation"][1]
        nviol = 1
        path = write_replay(
            pid,
            dict(property=pid, tier=tier, message=msg, note=note, history=hist),
        )

    samples = []
    if cases:
        step = max(1, len(cases) // 4)
        samples = [cases[i] for i in range(0, len(cases), step)][:5]
    cov = dict(getattr(mod, "COVERAGE", {}))
    if mod.LEVEL == "model_checking":
        cov.update(
            states=len(tot["states"]),
            transitions=tot["transitions"],
            traces_validated_against_impl=tot["traces"],
            samples=samples,
        )
    else:
        cov.update(
            evaluations=tot["traces"],
            distinct_nontrivial=len(tot["states"]),
            rule=getattr(mod, "RULE", ""),
            samples=samples,
        )
    cov.update(
        cases=tot["n"],
        cases_in_bound=len(cases),
        exhaustive=bool(tot["n"] == len(cases) and not only),
        bound=mod.BOUND[tier] if isinstance(getattr(mod, "BOUND", ""), dict) else getattr(mod, "BOUND", ""),
        outcomes=tot["outcomes"],
        largest_deviation_seen=tot["tolmax"],
        known_findings_hit=tot["known_hit"],
    )
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=mod.LEVEL,
        coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(
        f"{pid} {tier}: cases={tot['n']}/{len(cases)} states={len(tot['states'])}"
        f" transitions={tot['transitions']} traces={tot['traces']}"
        f" outcomes={tot['outcomes']} wall={ev['wall_s']}s",
    )
    if tot["tolmax"] and os.environ.get("VERIF_MARGINS"):
        print("largest deviations (fraction of tolerance):", {k: float(f"{v:.3g}") for k, v in tot["tolmax"].items()})
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={pid} {k}: {known[k]} ({tot['known_hit'].get(k, 0)} times)")
    if best is not None:
        print(msg)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def shorten(mod, hist, tier, known, limit):
    last = hist[-1]
    # try each single predecessor, then halves
    for p in hist[:-1][:40]:
        out = run_alone(mod, [p, last], tier, known, limit)
        v = out.get("violation")
        if v and v[0] == 1:
            return [p, last]
    cur = hist
    while len(cur) > 2:
        half = cur[len(cur) // 2 :]
        out = run_alone(mod, half, tier, known, limit)
        v = out.get("violation")
        if v and v[0] == len(half) - 1:
            cur = half
        else:
            break
    return cur


def in_child(fn, limit=300):
    """Result of fn() in a fresh forked child: ('ok', value) or ('error', text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            out = ("ok", fn())
        except BaseException:
            out = ("error", traceback.format_exc())
        data = pickle.dumps(out)
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        return ("error", f"child ended with status {status}")
    return pickle.loads(data)
