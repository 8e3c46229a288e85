"""C24: Bunch behaves as one dictionary with two spellings of access.

Space: breadth-first search to the fixpoint over the contents reachable with the keys
and values of an alphabet, by every operation (items, attributes, update, update_values,
update_None in all forms, constructors, deletions, copies, pickles, printing).
Oracle: a plain dictionary with the documented rules.
"""

import copy
import itertools
import os
import pickle
import warnings

ID = "C24"
LEVEL = "model_checking"
BOUND = {
    "quick": "3 names, values None/0/x, all operations, all contents in every insertion order (closed under the operations); all pairs of operations on one object from each of 8 contents; printing with up to 2 names x 9 values of lengths around the column limits",
    "thorough": "4 names (one of them t_mpl), values None/0/x/list, all operations, all contents in every insertion order (closed under the operations); all triples of operations from each of 8 contents over 3 names; printing as quick",
}
ASSUMPTIONS = ["names that are not names of dictionary methods"]
KEYS = ["a", "_b", "t_mpl"]
VALS = [None, 0, "x"]  # 0 is false, but not None
MISSING = "zz"


# Python files (names {0}.., values {3}..), and what they define
FILES = [
    ("", lambda k: {}),
    ("# nothing\n", lambda k: {}),
    ("{0} = {3}", lambda k: {k[0]: 0}),
    ("{1} = {4}\n{0} = [{5} for {1} in range(3)][-1]\n", lambda k: {k[1]: 1, k[0]: 2}),
    ("if True:\n    {2} = {5}\nfor {0} in [{3}, {4}]:\n    pass\n", lambda k: {k[2]: 2, k[0]: 1}),
]


_files = {}


def pyfile(text):
    """Name of a file with this content, which lives in memory."""
    if text not in _files:
        fd = os.memfd_create("bunch")
        os.write(fd, text.encode())
        _files[text] = f"/proc/self/fd/{fd}"
    return _files[text]


class Reject(Exception):
    def __init__(self, kind):
        self.kind = kind


def merge(args, kw):
    new = {}
    for a in args:
        new.update(a)
    new.update(kw)
    return new


def m_update_values(d, args, kw, strict):
    new = merge(args, kw)
    if strict and set(new) - set(d):
        raise Reject(KeyError)
    for k, v in new.items():
        if k in d:
            d[k] = v


def m_update_None(d, args, kw, strict):
    new = merge(args, kw)
    if strict and set(new) - set(d):
        raise Reject(KeyError)
    for k, v in new.items():
        if k in d and d[k] is None:
            d[k] = v


def operations(keys, vals):
    """(name, on the Bunch -> Bunch, on the model -> dict); simplest first."""
    from utide.utilities import Bunch

    ops = []

    def add(name, real, model):
        ops.append((name, real, model))

    def inplace(f):
        def g(x):
            f(x)
            return x

        return g

    for k in keys:
        for v in vals:

            def seti(x, k=k, v=v):
                x[k] = v

            add(f"item {k}={v}", inplace(seti), inplace(seti))
            add(f"attr {k}={v}", inplace(lambda x, k=k, v=v: setattr(x, k, v)), inplace(seti))
            add(f"setdefault {k}={v}", inplace(lambda x, k=k, v=v: x.setdefault(k, v)), inplace(lambda x, k=k, v=v: x.setdefault(k, v)))

        def dele(x, k=k):
            del x[k]

        def mdele(x, k=k):
            if k not in x:
                raise Reject(KeyError)
            del x[k]

        add(f"del {k}", inplace(dele), inplace(mdele))
        add(f"pop {k}", inplace(lambda x, k=k: x.pop(k, None)), inplace(lambda x, k=k: x.pop(k, None)))
    names = keys + [MISSING]
    upd = []
    for k, v in itertools.product(names, vals):
        upd.append(({k: v}, {}))
        upd.append(({}, {k: v}))
    for (k, v), (l, w) in itertools.product(itertools.product(names[:2] + [MISSING], vals[:2]), repeat=2):
        upd.append(({k: v}, {l: w}))
    for d, kw in upd:
        if MISSING not in d and MISSING not in kw:
            add(f"update {d} {kw}", inplace(lambda x, d=d, kw=kw: x.update(d, **kw)), inplace(lambda x, d=d, kw=kw: x.update(d, **kw)))
        for strict in (None, False, True):
            s = {} if strict is None else dict(strict=strict)
            for nm, mf in (("update_values", m_update_values), ("update_None", m_update_None)):
                for form in ("dict", "bunch", "two", "none"):
                    if form == "dict":
                        args = (d,)
                    elif form == "bunch":
                        args = (Bunch(d),)
                    elif form == "two":
                        args = ({keys[0]: vals[-1]}, d)
                    else:
                        args = ()
                        if d:
                            continue
                    if form in ("bunch", "two") and strict is False:
                        continue
                    add(
                        f"{nm} {form} {d} {kw} strict={strict}",
                        inplace(lambda x, nm=nm, args=args, kw=kw, s=s: getattr(x, nm)(*args, **kw, **s)),
                        inplace(lambda x, mf=mf, args=args, kw=kw, strict=strict: mf(x, args, kw, strict)),
                    )
    same = lambda d: dict(d)
    add("clear", inplace(lambda x: x.clear()), inplace(lambda x: x.clear()))
    add("copy.copy", copy.copy, same)
    add("deepcopy", copy.deepcopy, same)
    add("dict.copy", lambda x: Bunch(x.copy()), same)
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        add(f"pickle {p}", lambda x, p=p: pickle.loads(pickle.dumps(x, p)), same)
    add("Bunch of it", lambda x: Bunch(x), same)
    add("Bunch of its dict", lambda x: Bunch(dict(x)), same)
    add("Bunch of its items", lambda x: Bunch(list(x.items())), same)
    add("Bunch of keywords", lambda x: Bunch(**x), same)
    add("Bunch of two", lambda x: Bunch({keys[0]: vals[1], keys[1]: vals[2 % len(vals)]}, x), lambda d: {**{keys[0]: vals[1], keys[1]: vals[2 % len(vals)]}, **d})
    add("Bunch with keyword", lambda x: Bunch(x, **{keys[0]: vals[1]}), lambda d: {**d, keys[0]: vals[1]})
    add("print", inplace(lambda x: (str(x), repr(x), x.formatted(types=True))), same)
    k3 = [keys[i % len(keys)] for i in range(3)]
    v3 = [vals[i % len(vals)] for i in range(3)]
    for i, (text, new) in enumerate(FILES):
        new = {k: v3[v] for k, v in new(k3).items()}
        name = pyfile(text.format(*k3, *map(repr, v3)))
        add(f"from_pyfile {i}", lambda x, n=name: x.from_pyfile(n), lambda d, new=new: {**d, **new})
    add("popitem", inplace(lambda x: x.popitem() if x else None), inplace(lambda d: d.popitem() if d else None))
    return ops


def canonical(d):
    # insertion order matters to popitem only; it is part of the state
    return tuple((k, repr(v)) for k, v in d.items())


def observe(ctx, x, d, names, what):
    from utide.utilities import Bunch

    if type(x) is not Bunch:
        ctx.fail(f"{what}: a {type(x).__name__} instead of a Bunch")
    if dict(x) != d or len(x) != len(d) or list(x) != list(d):
        ctx.fail(f"{what}: content {dict(x)} instead of {d}")
    for k in names:
        for spell in (lambda: x[k], lambda: getattr(x, k)):
            kind = AttributeError if spell.__code__.co_names and spell.__code__.co_names[0] == "getattr" else KeyError
            try:
                v = spell()
            except (KeyError, AttributeError) as e:
                if k in d or not isinstance(e, kind):
                    ctx.fail(f"{what}: {k} gives {type(e).__name__}, content {d}")
            else:
                if k not in d or v is not x.get(k) or v != d[k]:
                    ctx.fail(f"{what}: {k} reads {v!r}, content {d}")
        if (k in x) != (k in d) or hasattr(x, k) != (k in d):
            ctx.fail(f"{what}: presence of {k} wrong, content {d}")
    if vars(x):
        ctx.fail(f"{what}: hidden attributes {vars(x)}")


def printed(ctx, x, d, what):
    lines = str(x).splitlines()
    want = sorted((str(k), str(v)) for k, v in d.items())
    got = sorted(tuple(s.strip() for s in ln.split(" : ", 1)) for ln in lines)
    if got != want or [ln.split(" : ")[0].strip() for ln in lines] != sorted(d):
        ctx.fail(f"{what}: printed {str(x)!r}")
    if dict(x) != d:
        ctx.fail(f"{what}: printing altered the content")


# Names and values of lengths around the limits of the column widths (20 and 40)
LONG_KEYS = ["b", "ab", "k" * 19, "c" * 20, "d" * 21, "_" + "e" * 30]
LONG_VALS = [None, "", "x", "y" * 39, "z" * 40, "w" * 41, 12345678901234567890, [1, 2], 1.5]


def widths(case, ctx):
    """The text of formatted() in all its forms, as documented."""
    from utide.utilities import Bunch

    for ks in itertools.permutations(LONG_KEYS, case["print"]):
        for vs in itertools.product(LONG_VALS, repeat=case["print"]):
            if case["print"] and vs[0] != LONG_VALS[case["first"]]:
                continue
            if ks != tuple(sorted(ks)) and len(set(map(str, vs))) < len(vs):
                continue  # the order of insertion matters for different values
            d = dict(zip(ks, vs))
            x = Bunch(d)
            ctx.state(canonical(d))
            for types in (False, True):
                rows = [(str(k), type(v).__name__ if types else str(v)) for k, v in sorted(d.items())]
                kl = min(20, max((len(k) for k, _ in rows), default=0))
                vl = min(40, max((len(v) for _, v in rows), default=0))
                want = "".join(k.ljust(kl) + " : " + v.rjust(vl) + "\n" for k, v in rows)
                got = x.formatted(types=types)
                ctx.step()
                if got != want or (not types and str(x) != want):
                    ctx.fail(f"{d}: formatted(types={types}) gives {got!r}, not {want!r}")
                got = x.formatted(fmt="{klen}|{vlen}|{0}|{1}\n", types=types)
                want = "".join(f"{kl}|{vl}|{k}|{v}\n" for k, v in rows)
                ctx.step()
                if got != want:
                    ctx.fail(f"{d}: formatted with a format of one's own gives {got!r}, not {want!r}")
            ctx.trace()
            if dict(x) != d or list(x) != list(d):
                ctx.fail(f"{d}: printing altered the content to {dict(x)}")
    ctx.outcome("printed")


PARTS = 64


def alphabet(tier):
    return (KEYS, VALS) if tier == "quick" else (KEYS + ["b2"], VALS + [[1, 2]])


def contents(keys, vals):
    """All contents over the alphabet, in every order of insertion; smallest first."""
    out = []
    for n in range(len(keys) + 1):
        for ks in itertools.permutations(keys, n):
            for vs in itertools.product(vals, repeat=n):
                out.append(dict(zip(ks, vs)))
    return out


def cases(tier):
    for n in (0, 1, 2):
        for first in range(len(LONG_VALS) if n else 1):
            yield {"print": n, "first": first}
    for part in range(PARTS):
        yield dict(search=part)
    deep = tier != "quick"
    starts = [dict(zip(KEYS[:2] if deep else KEYS, c)) for c in ((), (0,), (None,), (0, None), (None, None), ("x", 0), (None, "x"), (0, 0))]
    for s in starts:
        for first in range(40):
            yield dict(start=s, part=first, depth=3 if deep else 2)


def step(ctx, x, d, op, names, what):
    name, real, model = op
    d2 = dict(d)
    try:
        d2 = model(d2)
        rej = None
    except Reject as e:
        d2, rej = dict(d), e.kind
    try:
        y = real(x)
        err = None
    except Exception as e:
        y, err = x, e
    if rej and not isinstance(err, rej):
        ctx.fail(f"{what}, {name}: not rejected ({err!r})")
    if not rej and err is not None:
        ctx.fail(f"{what}, {name}: {type(err).__name__}: {err}")
    if y is not x and dict(x) != d:
        ctx.fail(f"{what}, {name}: the original changed to {dict(x)}")
    observe(ctx, y, d2, names, f"{what}, {name}")
    ctx.step()
    return y, d2


def check(case, ctx):
    warnings.simplefilter("ignore")
    from utide.utilities import Bunch

    if "print" in case:
        return widths(case, ctx)
    if "search" in case:
        # The contents are enumerated, and closed under the operations: every step is
        # checked to lead back into the set, so this is the reachable set.
        keys, vals = alphabet(ctx.tier)
        ops = operations(keys, vals)
        names = keys + [MISSING, "__wrapped__"]
        space = contents(keys, vals)
        known = {canonical(d) for d in space}
        for d in space[case["search"] :: PARTS]:
            ctx.state(canonical(d))
            printed(ctx, Bunch(d), d, f"content {d}")
            for op in ops:
                _, d2 = step(ctx, Bunch(d), d, op, names, f"content {d}")
                ctx.trace()
                assert canonical(d2) in known, (d, op[0], d2)
        ctx.outcome("contents closed under all operations", len(space[case["search"] :: PARTS]))
        return
    # sequences on one object: nothing is hidden in the object besides its content
    keys = KEYS[:2] if case["depth"] == 3 else KEYS
    ops = operations(keys, VALS[:2])
    names = keys + [MISSING]
    reduced = ops if case["depth"] == 2 else [o for o in ops if "bunch" not in o[0] and "two" not in o[0]][::6]
    for i, op in enumerate(ops):
        if i % 40 != case["part"]:
            continue
        for rest in itertools.product(reduced, repeat=case["depth"] - 1):
            x, d = Bunch(case["start"]), dict(case["start"])
            what = f"{d}"
            for o in (op, *rest):
                x, d = step(ctx, x, d, o, names, what)
                what += ", " + o[0]
            ctx.trace()
        ctx.state(case, i)
    ctx.outcome("sequences")
