"""Controlled execution of calls of the code under test: line-level tracing, a two-thread
scheduler with chosen preemption points, and exception injection at chosen points."""

import os
import sys
import threading

import core

PKG = os.path.join(os.path.realpath(core.REPO), "utide") + os.sep
_cache = {}


def inside(code):
    fn = code.co_filename
    r = _cache.get(fn)
    if r is None:
        r = _cache[fn] = os.path.realpath(fn).startswith(PKG) and os.sep + "tests" + os.sep not in fn
    return r


def run_traced(fn, on_event, events=("line",)):
    """fn() with on_event(frame, event) called at each event inside the package."""

    def local(frame, event, arg):
        if event in events:
            on_event(frame, event)
        return local

    def glob(frame, event, arg):
        if not inside(frame.f_code):
            return None
        if "call" in events:
            on_event(frame, "call")
        return local

    sys.settrace(glob)
    try:
        return fn()
    finally:
        sys.settrace(None)


def profile(fn, events=("line",)):
    """The sequence of (file, line, event) of a solo execution."""
    out = []

    def ev(frame, event):
        out.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno, event))

    run_traced(fn, ev, events)
    return out


def select(seq, per_line):
    """Positions of the first per_line occurrences of every point."""
    seen = {}
    out = []
    for i, p in enumerate(seq):
        seen[p] = seen.get(p, 0) + 1
        if seen[p] <= per_line:
            out.append(i)
    return out


class Pair:
    """Two calls in two threads; control changes hands only at chosen positions.

    schedule = list of (thread, position): thread runs until it has seen `position`
    events, then the other one runs.  After the last entry the running thread finishes
    first, then the other."""

    def __init__(self, fa, fb, events, patience=20.0):
        self.fn = [fa, fb]
        self.events = events
        self.patience = patience

    def wait(self, back, thread):
        """False if the thread is blocked: asleep for a while, without using the CPU."""
        idle, last = 0, None
        for _ in range(int(self.patience / 0.02)):
            if back.acquire(timeout=0.02):
                return True
            try:
                f = open(f"/proc/self/task/{thread.native_id}/stat").read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            now = f[11], f[12]  # user and system time
            idle = idle + 1 if f[0] == "S" and now == last else 0
            last = now
            if idle >= 40:
                return False
        return back.acquire(timeout=self.patience)

    def run(self, stops):
        """stops: [positions of A ascending, positions of B ascending], A starts."""
        go = [threading.Semaphore(0), threading.Semaphore(0)]
        back = threading.Semaphore(0)  # a thread gave control back to the scheduler
        res = [None, None]
        done = [False, False]
        count = [0, 0]
        stop = [list(stops[0]), list(stops[1])]
        stuck = []

        def body(i):
            go[i].acquire()

            def ev(frame, event):
                n = count[i]
                count[i] = n + 1
                if stop[i] and stop[i][0] == n:
                    stop[i].pop(0)
                    back.release()
                    go[i].acquire()

            try:
                res[i] = ("ok", run_traced(self.fn[i], ev, self.events))
            except BaseException as e:
                res[i] = ("error", f"{type(e).__name__}: {e}")
            done[i] = True
            back.release()

        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
        for x in th:
            x.start()
        turn = 0
        switches = 0
        while not all(done):
            if done[turn]:
                turn = 1 - turn
            go[turn].release()
            if not self.wait(back, th[turn]):
                # The running thread waits for a lock held by the other: let it go on.
                stuck.append(turn)
                if len(stuck) > 1:
                    return res, switches, "deadlock"
                turn = 1 - turn
                go[turn].release()
                back.acquire(timeout=self.patience)
                back.acquire(timeout=self.patience)
                continue
            switches += 1
            turn = 1 - turn
        for x in th:
            x.join(timeout=self.patience)
        return res, switches, "blocked" if stuck else ""


def unsafe_lines():
    """{(file name, line)} where an injected exception would strike inside the entry or
    exit protocol of with / try-finally statements, which no code can guard against."""
    import ast

    out = set()
    for fn in os.listdir(PKG):
        if not fn.endswith(".py"):
            continue
        tree = ast.parse(open(os.path.join(PKG, fn)).read())
        for node in ast.walk(tree):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                for ln in range(node.lineno, node.body[0].lineno):
                    out.add((fn, ln))
                if node.body[0].lineno == node.lineno:
                    out.add((fn, node.lineno))
            elif isinstance(node, ast.Try):
                out.add((fn, node.lineno))
                for st in node.finalbody:
                    for ln in range(st.lineno, (st.end_lineno or st.lineno) + 1):
                        out.add((fn, ln))
    return out
