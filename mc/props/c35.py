"""C35: results do not depend on the surroundings of the call, and leave them alone.

Space: every call of the alphabet of C13 under every setting of its surroundings (time
zone, locale, random states, numpy's and Python's global settings, working directory,
streams, garbage collection, tracing, another thread, ...), every pair of settings, and
in processes started with different hash seeds and interpreter options.
Oracle: the result of the same call in a plain process; the surroundings as they were
before; nothing written.
"""

import contextlib
import decimal
import gc
import io
import itertools
import locale
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.dont_write_bytecode = True

import core
import ops

ID = "C35"
LEVEL = "model_checking"
CHUNK = 4
LIMIT = 800
BOUND = {
    "quick": "47 calls x (31 settings of the surroundings alone, 14 processes with other hash seeds and options); 15 calls x all unordered pairs of settings",
    "thorough": "47 calls x (31 settings of the surroundings alone, all unordered pairs, 75 processes with other hash seeds and options); 15 calls x all triples of 14 settings",
}
ASSUMPTIONS = [
    "floating-point exceptions and warnings are not turned into errors",
    "one machine, one thread in the linear algebra library",
    "random intervals are drawn after seeding numpy's generator",
]


# ------------------------------------------------------------------- settings


@contextlib.contextmanager
def environ(**kw):
    old = {k: os.environ.get(k) for k in kw}
    for k, v in kw.items():
        os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
    time.tzset()
    try:
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        time.tzset()


@contextlib.contextmanager
def calling(before, after):
    x = before()
    try:
        yield
    finally:
        after(x)


@contextlib.contextmanager
def folder(mode=0o700):
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="c35-") as d:
        # names that must not be taken for the package's own files
        os.mkdir(os.path.join(d, "data"))
        for name in ("ut_constants.npz", "data/ut_constants.npz", "constants.npy"):
            open(os.path.join(d, name), "wb").write(b"nothing")
        listing = sorted(os.listdir(d))
        os.chdir(d)
        try:
            yield
            if sorted(os.listdir(d)) != listing:
                raise core.Violation(f"files left in the working directory: {os.listdir(d)}")
        finally:
            os.chdir(old)


@contextlib.contextmanager
def gone():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="c35-")
    os.chdir(d)
    os.rmdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def streams(make):
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = make(), make()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


def drawn(seed):
    def go():
        np.random.seed(seed)
        random.seed(seed)
        np.random.random(seed)
        np.random.randn(1)

    return lambda: calling(go, lambda x: None)


def hidden(*names):
    @contextlib.contextmanager
    def go():
        old = {n: sys.modules.get(n) for n in names}
        for n in names:
            sys.modules[n] = None
        try:
            yield
        finally:
            for n, m in old.items():
                if m is None:
                    del sys.modules[n]
                else:
                    sys.modules[n] = m

    return go


def filters(kind):
    @contextlib.contextmanager
    def go():
        with warnings.catch_warnings():
            warnings.simplefilter(kind)
            yield

    return go


def noop(*a, **k):
    return noop


SETTINGS = {
    "TZ east": lambda: environ(TZ="Asia/Kathmandu"),
    "TZ west": lambda: environ(TZ="XYZ+9:30"),
    "TZ dst": lambda: environ(TZ="AAA4BBB,M3.2.0,M11.1.0"),
    "no HOME": lambda: environ(HOME=None, LANG=None, LC_ALL=None, USER=None, TMPDIR="/nonexistent"),
    "locale": lambda: calling(lambda: locale.setlocale(locale.LC_ALL), lambda x: locale.setlocale(locale.LC_ALL, x)),
    "C.UTF-8": lambda: calling(lambda: (locale.setlocale(locale.LC_ALL), locale.setlocale(locale.LC_ALL, "C.UTF-8"))[0], lambda x: locale.setlocale(locale.LC_ALL, x)),
    "random 0": drawn(0),
    "random 7": drawn(7),
    "random 99": drawn(99),
    "print few": lambda: np.printoptions(precision=1, threshold=2, edgeitems=1, suppress=True),
    "print legacy": lambda: np.printoptions(legacy="1.13", floatmode="fixed", precision=3),
    "print names": lambda: np.printoptions(nanstr="0", infstr="1", sign="+", formatter={"float": lambda x: "9", "str_kind": lambda x: "M2"}),
    "err ignore": lambda: np.errstate(all="ignore"),
    "err warn": lambda: np.errstate(all="warn"),
    "err call": lambda: np.errstate(all="call", call=noop),
    "bufsize": lambda: calling(lambda: np.setbufsize(160), np.setbufsize),
    "warn always": filters("always"),
    "warn ignore": filters("ignore"),
    "warn once": filters("once"),
    "folder": folder,
    "folder gone": gone,
    "stdout none": lambda: streams(lambda: None),
    "stdout text": lambda: streams(io.StringIO),
    "gc off": lambda: calling(gc.disable, lambda x: gc.enable()),
    "gc often": lambda: calling(lambda: (gc.get_threshold(), gc.set_threshold(1, 1, 1))[0], lambda x: gc.set_threshold(*x)),
    "decimal": lambda: calling(lambda: (decimal.getcontext().prec, setattr(decimal.getcontext(), "prec", 2))[0], lambda x: setattr(decimal.getcontext(), "prec", x)),
    "umask": lambda: calling(lambda: os.umask(0o777), os.umask),
    "recursion": lambda: calling(lambda: (sys.getrecursionlimit(), sys.setrecursionlimit(len(list(frames())) + 150))[0], sys.setrecursionlimit),
    "profile": lambda: calling(lambda: sys.setprofile(noop), lambda x: sys.setprofile(None)),
    "no plotting": hidden("matplotlib", "matplotlib.pyplot"),
    "no pandas": hidden("pandas"),
    "thread": contextlib.nullcontext,
}


def frames():
    f = sys._getframe()
    while f:
        yield f
        f = f.f_back


PROCESSES = [dict(seed=s) for s in range(10)] + [dict(args=["-O"]), dict(args=["-OO"]), dict(args=["-X", "dev"]), dict(args=["-s", "-u"], env=dict(LC_ALL="C", TZ="Asia/Tokyo"))]


def cases(tier):
    quick = tier == "quick"
    names = list(SETTINGS)
    for a in names:
        yield dict(settings=[a], few=False)
    for p in PROCESSES if quick else PROCESSES + [dict(seed=s) for s in range(10, 70)] + [dict(args=["-R"])]:
        yield dict(process=p)
    for a, b in itertools.combinations(names, 2):
        yield dict(settings=[a, b], few=quick)
    if not quick:
        for s in itertools.combinations(names[::3] + names[-3:], 3):
            yield dict(settings=list(s), few=True)


# ---------------------------------------------------------------------- running

ARGS = ops.Args()
ALONE = {}


def results(names):
    out = {}
    for n in names:
        try:
            out[n] = ops.flat(ops.OPS[n](ARGS))
        except Exception as e:
            out[n] = f"{type(e).__name__}: {e}"
    return out


def PREPARE(tier):
    r = core.in_child(lambda: results(ops.OPS))
    if r[0] != "ok":
        return r[1]
    bad = [f"{n}: {x}" for n, x in r[1].items() if isinstance(x, str)]
    if bad:
        return f"call fails in a plain process: {bad[0]}"
    ALONE.update(r[1])
    return None


def surroundings():
    s = np.random.get_state()
    return dict(
        numpy_errors=(str(np.geterr()), str(np.geterrcall())),
        bufsize=np.getbufsize(),
        printing=str(np.get_printoptions()),
        numpy_random=(s[0], s[1].tobytes(), s[2:]),
        random=random.getstate(),
        warnings=str(warnings.filters),
        locale=locale.setlocale(locale.LC_ALL),
        zone=time.tzname,
        environment=dict(os.environ),
        decimal=str(decimal.getcontext().prec),
        gc=(gc.isenabled(), gc.get_threshold()),
        recursion=sys.getrecursionlimit(),
        path=list(sys.path),
        streams=(id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        hooks=(id(sys.excepthook), id(sys.displayhook)),
        threads=threading.active_count(),
    )


def written():
    return "".join(s.getvalue() for s in (sys.stdout, sys.stderr) if isinstance(s, io.StringIO))


def run(name, where):
    """A message if the call differs from the plain one or changes its surroundings."""
    # Seeds are set by the calls that draw numbers (and nowhere else).
    seeds = "mc" in name.lower()
    before = surroundings()
    text = written()
    got = results([name])[name]
    after = surroundings()
    if isinstance(got, str):
        return f"call {name} with {where}: {got}"
    d = ops.differs(ALONE[name], got)
    if d:
        return f"call {name} with {where} differs from the plain call: {d}"
    for k in before:
        if before[k] != after[k] and not (seeds and k == "numpy_random"):
            return f"call {name} with {where} changed: {k}"
    if written() != text and not (name.startswith("f_") and "Warning: " in written()[len(text) :]):
        # (a request that is rejected may give a warning first)
        return f"call {name} with {where} wrote {written()[len(text):][:80]!r}"
    return None


def check(case, ctx):
    if not ALONE:
        bad = PREPARE("quick")
        if bad:
            ctx.fail(bad)
    if "process" in case:
        return process(case["process"], ctx)
    names = [n for n in ops.OPS if not case["few"] or n in SHORT]
    where = " and ".join(case["settings"])
    msgs = []

    def go():
        with contextlib.ExitStack() as st:
            for s in case["settings"]:
                st.enter_context(SETTINGS[s]())
            for n in names:
                m = run(n, where)
                if m:
                    msgs.append(m)
                    return

    if "thread" in case["settings"]:
        err = []

        def body():
            try:
                go()
            except BaseException as e:
                err.append(e)

        th = threading.Thread(target=body)
        th.start()
        th.join()
        if err:
            raise err[0]
    else:
        go()
    ctx.trace(len(names))
    ctx.step(len(names))
    ctx.state(*case["settings"])
    ctx.outcome(f"{len(case['settings'])} settings", len(names))
    if msgs:
        ctx.fail(msgs[0])


def process(p, ctx):
    env = dict(os.environ, VERIF_REPO=core.REPO, **p.get("env", {}))
    env.pop("PYTHONHASHSEED", None)
    if "seed" in p:
        env["PYTHONHASHSEED"] = str(p["seed"])
    with tempfile.TemporaryDirectory(prefix="c35-") as d:
        path = os.path.join(d, "out")
        r = subprocess.run([sys.executable, *p.get("args", []), os.path.abspath(__file__), path], env=env, cwd=d, capture_output=True, text=True)
        if r.returncode or not os.path.exists(path):
            ctx.fail(f"process {p} failed: {r.stderr[-600:]}")
        got = pickle.load(open(path, "rb"))
    for n in ops.OPS:
        ctx.trace()
        ctx.step()
        if isinstance(got[n], str):
            ctx.fail(f"call {n} in process {p}: {got[n]}")
        d = ops.differs(ALONE[n], got[n])
        if d:
            ctx.fail(f"call {n} in process {p} differs from the plain call: {d}")
    if r.stdout:
        ctx.fail(f"process {p} wrote {r.stdout[:100]!r}")
    ctx.state("process", p)
    ctx.outcome("processes", len(ops.OPS))


SHORT = list(ops.OPS)[::3]


if __name__ == "__main__":
    core.bootstrap()
    res = results(ops.OPS)
    with open(sys.argv[1], "wb") as fh:
        pickle.dump(res, fh)
