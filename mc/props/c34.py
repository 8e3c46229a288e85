"""C34: simulated errors use the nearest valid covariance.

Space: every small integer matrix of a range (2x2, 3x3 and 4x4, symmetric and not), with
common and unequal units, and every covariance of cosine and sine coefficients with
variances and correlations of a grid, the impossible ones included.
Oracle: the nearest symmetric positive semidefinite matrix in the Frobenius norm - the
symmetric part with its negative eigenvalues set to zero.
"""

import itertools
import warnings

import numpy as np

ID = "C34"
LEVEL = "model_checking"
BOUND = {
    "quick": "all 1x1..2x2 matrices with entries -3..3, 3x3 -1..1, symmetric 3x3 -2..2, symmetric 4x4 -1..1; 7 units; 4x4 covariances of 3^4 variances and 7^3 correlations",
    "thorough": "all 1x1..2x2 matrices with entries -6..6, 3x3 -1..1, symmetric 3x3 -3..3, symmetric 4x4 -1..1 and 0..2; 7 units; 4x4 covariances of 4^4 variances and 9^3 correlations",
}
ASSUMPTIONS = ["the distance of the result from the nearest matrix may be a rounding error of the largest element"]
UNITS = [1.0, 1e-12, 1e9, 3e-160, "uneven", "tiny last", "third"]


def families(tier):
    q = tier == "quick"
    r = 3 if q else 6
    yield "full", 1, -r, r
    yield "full", 2, -r, r
    yield "sym", 3, -2 if q else -3, 2 if q else 3
    yield "full", 3, -1, 1
    yield "sym", 4, -1, 1
    if not q:
        yield "sym", 4, 0, 2


def size(kind, n):
    return n * n if kind == "full" else n * (n + 1) // 2


def cases(tier):
    for kind, n, lo, hi in families(tier):
        k = size(kind, n)
        fixed = max(0, k - 6)
        for unit in UNITS if k < 9 else (UNITS[:1] if k < 10 else [1.0, "uneven"]):
            for head in itertools.product(range(lo, hi + 1), repeat=fixed):
                if k - fixed == 6 and hi - lo > 3 and fixed == 0:
                    for e in range(lo, hi + 1):
                        yield dict(kind=kind, n=n, lo=lo, hi=hi, unit=unit, head=[e])
                else:
                    yield dict(kind=kind, n=n, lo=lo, hi=hi, unit=unit, head=list(head))
    vs = [0.0, 1.0, 1e-6] if tier == "quick" else [0.0, 1.0, 1e-6, 4e4]
    for v in itertools.product(vs, repeat=4):
        yield dict(kind="cov", v=list(v), m=7 if tier == "quick" else 9)


def unit_of(unit, n):
    if unit == "uneven":
        return 10.0 ** -np.arange(0, 2 * n, 2)[:n]
    if unit == "tiny last":
        return np.array([1.0] * (n - 1) + [1e-9])
    if unit == "third":
        return np.full(n, np.sqrt(1 / 3))
    return np.full(n, np.sqrt(unit))


def matrices(c):
    if c["kind"] == "cov":
        s = np.sqrt(c["v"])
        for p in itertools.product(np.linspace(-1.5, 1.5, c["m"]), repeat=3):
            R = np.eye(4)
            R[0, 1] = R[1, 0] = p[0]
            R[2, 3] = R[3, 2] = -p[0]
            R[0, 2] = R[2, 0] = R[1, 3] = R[3, 1] = p[1]
            R[0, 3] = R[3, 0] = p[2]
            R[1, 2] = R[2, 1] = -p[2]
            yield R * np.outer(s, s)
        return
    n = c["n"]
    s = unit_of(c["unit"], n)
    k = size(c["kind"], n)
    up = np.triu_indices(n)
    for tail in itertools.product(range(c["lo"], c["hi"] + 1), repeat=k - len(c["head"])):
        e = np.array(c["head"] + list(tail), float)
        if c["kind"] == "full":
            A = e.reshape(n, n)
        else:
            A = np.zeros((n, n))
            A[up] = e
            A = A + np.triu(A, 1).T
        yield A * np.outer(s, s)


def check(case, ctx):
    from utide.confidence import nearestSPD

    n = 0
    for A in matrices(case):
        B = A.copy()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            P = nearestSPD(B)
        n += 1
        if ws:
            ctx.fail(f"warning {ws[0].message} for {A.tolist()}")
        if not np.array_equal(A, B):
            ctx.fail(f"argument changed: {A.tolist()}")
        if not isinstance(P, np.ndarray) or P.shape != A.shape or P.dtype != float:
            ctx.fail(f"result {P!r} for {A.tolist()}")
        scale = np.abs(A).max()
        tol = 1e-13 * scale + 1e-300
        w, V = np.linalg.eigh((A + A.T) / 2)
        want = (V * np.maximum(w, 0)) @ V.T
        d = np.abs(P - want).max()
        if scale:
            ctx.margin("distance from the nearest matrix", d / scale)
        if not d <= tol:
            ctx.fail(f"nearest matrix to {A.tolist()}: {P.tolist()} instead of {want.tolist()}")
        if not np.array_equal(P, P.T):
            ctx.fail(f"result {P.tolist()} for {A.tolist()} is not symmetric")
        try:
            np.linalg.cholesky(P)
        except np.linalg.LinAlgError:
            ctx.fail(f"result {P.tolist()} for {A.tolist()} is not positive definite")
        ctx.outcome("valid" if w[0] > tol else "singular" if w[0] > -tol else "no valid direction" if w[-1] <= tol else "invalid")
    ctx.state(case)
    ctx.states.update(hash((str(case), i)) for i in range(n))
    ctx.trace(n)
    ctx.step(4 * n)
