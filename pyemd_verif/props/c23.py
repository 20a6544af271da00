"""C23 - compact schemes: tridiagonal solver, filter and derivative."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, gap, same
from ..core import Prop, Sub, require

JUNK = {"zero": 0.0, "one": 1.0, "big": 1e6, "nan": float("nan"), "inf": float("inf")}


def dense(lo, di, up):
    n = len(di)
    A = np.diag(np.asarray(di, dtype=float))
    for i in range(1, n):
        A[i, i - 1] = lo[i]
        A[i - 1, i] = up[i - 1]
    return A


def solver(case, rec):
    from PyEMD.compact import TDMAsolver

    n = case["n"]
    rng = np.random.RandomState(case["s"])
    lo, up = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n)
    if case["kind"] == "sparse":
        lo *= rng.rand(n) < 0.5
        up *= rng.rand(n) < 0.5
    elif case["kind"] == "lower":
        up[:] = 0
    elif case["kind"] == "upper":
        lo[:] = 0
    elif case["kind"] == "toeplitz":
        lo[:], up[:] = lo[0], up[0]
    di = (np.abs(lo) + np.abs(up) + case["gap"]) * rng.choice([-1, 1], n) * (1 if case["kind"] != "toeplitz" else 1)
    rows = rng.choice([1.0, 1e-3, 50.0], n) if case["rows"] else np.ones(n)
    lo, di, up = lo * rows, di * rows, up * rows
    d = rng.uniform(-1, 1, n) * case["amp"]
    if case["ints"]:
        d = np.round(d * 10 / case["amp"])
    A = dense(lo, di, up)
    want = np.linalg.solve(A, d)
    lo[0] = JUNK[case["junk"]]  # Outside of the matrix
    up[-1] = JUNK[case["junk"]]
    args = [lo, di, up, d]
    if case["lists"]:
        args = [list(x) for x in args]
    keep = [np.array(x) for x in args]
    x = array(TDMAsolver(*args), 1, "solution", n)
    rec.mark(n >= 3)
    rec.label(case["kind"])
    tol = 1e-10 * np.max(np.abs(want)) * max(1.0, 1.0 / case["gap"])
    require(same(x, want, tol + 1e-300), "solution differs from the dense one: {}", gap(x, want))
    for a, b in zip(args, keep):
        require(np.array_equal(np.array(a), b, equal_nan=True), "arguments were modified")


def exact_row(points, weights):
    """Coefficients c (at 0..5) such that sum(c f) = sum(weights f'(points)) for polynomials up to degree 5."""
    n = 6
    M = [[Fraction(j) ** p for j in range(n)] for p in range(n)]
    b = [sum(w * (p * Fraction(x) ** (p - 1) if p else 0) for x, w in zip(points, weights)) for p in range(n)]
    for i in range(n):  # Gauss-Jordan
        k = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[k], b[i], b[k] = M[k], M[i], b[k], b[i]
        f = M[i][i]
        M[i] = [v / f for v in M[i]]
        b[i] /= f
        for r in range(n):
            if r != i and M[r][i] != 0:
                g = M[r][i]
                M[r] = [v - g * u for v, u in zip(M[r], M[i])]
                b[r] -= g * b[i]
    return np.array([float(v) for v in b])


ROW0 = exact_row([0, 1], [Fraction(1), Fraction(5)])
ROW1 = exact_row([0, 1, 2], [Fraction(2, 11), Fraction(1), Fraction(2, 11)])


def ref_pade6(f, h):
    """Lele (1992): 1/3 f'[i-1] + f'[i] + 1/3 f'[i+1] = 14/9 (f[i+1]-f[i-1])/2h + 1/9 (f[i+2]-f[i-2])/4h"""
    n = len(f)
    A, B = np.zeros((n, n)), np.zeros((n, n))
    for i in range(2, n - 2):
        A[i, i - 1 : i + 2] = 1 / 3, 1, 1 / 3
        B[i, i - 2 : i + 3] = -1 / 36, -7 / 9, 0, 7 / 9, 1 / 36
    A[0, :2] = 1, 5
    A[1, :3] = 2 / 11, 1, 2 / 11
    B[0, :6], B[1, :6] = ROW0, ROW1
    A[-1, -2:] = 5, 1
    A[-2, -3:] = 2 / 11, 1, 2 / 11
    B[-1, -6:], B[-2, -6:] = -ROW0[::-1], -ROW1[::-1]
    return np.linalg.solve(A, B @ f) / h


def ref_filt6(f, alpha):
    """Visbal, Gaitonde (2002): a[k] of the 6th order interior filter; points by the edges are filtered explicitly, 4th order."""
    n = len(f)
    a = [11 / 16 + 5 * alpha / 8, 15 / 32 + 17 * alpha / 16, -3 / 16 + 3 * alpha / 8, 1 / 32 - alpha / 16]
    A, B = np.eye(n), np.zeros((n, n))
    for i in range(3, n - 3):
        A[i, i - 1] = A[i, i + 1] = alpha
        for k in range(4):
            B[i, i - k] += a[k] / 2
            B[i, i + k] += a[k] / 2
    fourth = np.array([1.0, -4.0, 6.0, -4.0, 1.0])
    for i in range(3):
        B[i, i] = B[n - 1 - i, n - 1 - i] = 1
        B[i, :5] -= (-1) ** i * fourth / 16
        B[n - 1 - i, -5:] -= (-1) ** i * fourth / 16
    return np.linalg.solve(A, B @ f)


def vector(case):
    f = gen.signal(case["S"]) * case["amp"] + case["off"]
    return f


def derivative(case, rec):
    from PyEMD.compact import pade6

    f, h = vector(case), case["h"]
    n = len(f)
    keep = f.copy()
    d = array(pade6(f, h), 1, "derivative", n)
    scale = np.max(np.abs(f)) / abs(h) + 1e-300
    rec.mark(np.ptp(f) > 0)
    require(np.array_equal(f, keep), "data was modified")
    want = ref_pade6(f, h)
    require(same(d, want, 1e-9 * scale), "derivative differs from the solution of its system: {}", gap(d, want))
    m = array(pade6(f[::-1], h), 1, "derivative", n)
    require(same(m, -d[::-1], 1e-9 * scale), "derivative of mirrored data isn't mirrored: {}", gap(m, -d[::-1]))
    g = np.random.RandomState(case["s"]).uniform(-1, 1, n) * (np.max(np.abs(f)) + 1e-3)
    both = array(pade6(2 * f - g, h), 1, "derivative", n)
    want = 2 * d - pade6(g, h)
    require(same(both, want, 1e-8 * (scale + np.max(np.abs(g)) / abs(h))), "derivative isn't linear: {}", gap(both, want))


def polynomial(case, rec):
    from PyEMD.compact import filt6, pade6

    n, h, alpha = case["n"], case["h"], case["alpha"]
    x = np.arange(n) / float(n - 1)
    c = case["c"]
    p = np.polynomial.polynomial.polyval(x, c)
    dp = np.polynomial.polynomial.polyval(x, np.polynomial.polynomial.polyder(c)) if len(c) > 1 else np.zeros(n)
    step = 1.0 / (n - 1)
    d = array(pade6(p, step * h), 1, "derivative", n)
    scale = np.sum(np.abs(c)) + 1e-300
    rec.mark(any(c[1:]))
    rec.label("degree:%d" % (len(c) - 1))
    require(same(d * h, dp, 1e-10 * scale * n), "derivative of a polynomial of degree {} isn't exact: {}", len(c) - 1, gap(d * h, dp))
    if len(c) <= 4:
        f = array(filt6(p, alpha), 1, "filtered", n)
        require(same(f, p, 1e-9 * scale), "filter (alpha={}) changes a polynomial of degree {}: {}", alpha, len(c) - 1, gap(f, p))


def filtering(case, rec):
    from PyEMD.compact import filt6

    f, alpha = vector(case), case["alpha"]
    n = len(f)
    keep = f.copy()
    y = array(filt6(f, alpha), 1, "filtered", n)
    scale = np.max(np.abs(f)) + 1e-300
    tol = 1e-11 * scale * n / max(0.5 - abs(alpha), 1e-3)
    rec.mark(np.ptp(f) > 0)
    require(np.array_equal(f, keep), "data was modified")
    want = ref_filt6(f, alpha)
    require(same(y, want, tol), "filtered data (alpha={}) differ from the solution of the system: {}", alpha, gap(y, want))
    m = array(filt6(f[::-1], alpha), 1, "filtered", n)
    require(same(m, y[::-1], tol), "filter of mirrored data isn't mirrored: {}", gap(m, y[::-1]))
    g = np.random.RandomState(case["s"]).uniform(-1, 1, n) * scale
    both = array(filt6(2 * f - g, alpha), 1, "filtered", n)
    want = 2 * y - filt6(g, alpha)
    require(same(both, want, 4 * tol), "filter isn't linear: {}", gap(both, want))
    # No filtering at alpha = 0.5, provided that there's nothing to filter by the edges
    if n >= 12:
        k = np.arange(n, dtype=float)
        f = f.copy()
        f[:5], f[-5:] = 0.3 * scale * (k[:5] / n) ** 2, scale * (k[-5:] / n) ** 3
        y = array(filt6(f, 0.5), 1, "filtered", n)
        require(same(y, f, 1e-12 * scale * n * n), "data is filtered at alpha=0.5: {}", gap(y, f))


def typed(case, rec):
    """Integers and low precision data are treated as the numbers they represent."""
    from PyEMD.compact import filt6, pade6

    f = gen.as_dtype(vector(case), case["dtype"])
    n, x, keep = len(f), f.astype(float), f.copy()
    rec.mark(np.ptp(x) > 0)
    rec.label(case["dtype"])
    scale = np.max(np.abs(x)) + 1e-300
    eps = 1e-9 if f.dtype.kind in "iu" else max(1e-9, 64 * float(np.finfo(f.dtype).eps))
    d = array(pade6(f, case["h"]), 1, "derivative", n)
    want = ref_pade6(x, case["h"])
    require(same(d, want, eps * n * scale / abs(case["h"])), "derivative of {} data is wrong: {}", case["dtype"], gap(d, want))
    y = array(filt6(f, case["alpha"]), 1, "filtered", n)
    want = ref_filt6(x, case["alpha"])
    require(same(y, want, eps * n * scale / max(0.5 - abs(case["alpha"]), 1e-3)), "filtered {} data is wrong: {}", case["dtype"], gap(y, want))
    require(np.array_equal(f, keep), "data was modified")


VEC = {
    "S": gen.mostly(st.one_of(gen.signals(7, 120), gen.oscillating(8, 120)), gen.long_signals(200, 1500), 12).filter(lambda s: s["k"] != "raw" or len(s["v"]) >= 7),
    "amp": st.sampled_from([1.0, 1.0, 1e-3, 1e4]),
    "off": st.sampled_from([0.0, 0.0, 2.5]),
    "h": st.sampled_from([1.0, 0.01, 0.5, 3.0, 1e-4, 100.0]),
    "alpha": st.one_of(gen.floats(-0.49, 0.5, 2), st.sampled_from([0.0, 0.45, 0.499, -0.499])),
    "s": st.integers(0, 10**6),
}

PROP = Prop(
    "C23",
    "systems of three or more equations; data that isn't constant",
    [
        Sub(
            "solver",
            st.fixed_dictionaries(
                {
                    "n": gen.mostly(st.one_of(st.integers(1, 8), st.integers(2, 60)), st.integers(61, 900), 12),
                    "s": st.integers(0, 10**6),
                    "kind": st.sampled_from(["full", "full", "sparse", "lower", "upper", "toeplitz"]),
                    "gap": st.sampled_from([0.01, 0.5, 5.0]),
                    "amp": st.sampled_from([1.0, 1e-6, 1e6]),
                    "rows": st.booleans(),
                    "ints": st.booleans(),
                    "lists": st.booleans(),
                    "junk": st.sampled_from(sorted(JUNK)),
                }
            ),
            solver,
            quick=6000,
        ),
        Sub("derivative", st.fixed_dictionaries(VEC), derivative, quick=3200),
        Sub("filter", st.fixed_dictionaries(VEC), filtering, quick=3200),
        Sub("typed", st.fixed_dictionaries(dict(VEC, dtype=st.sampled_from(["int8", "uint8", "int16", "uint16", "int32", "int64", "float16", "float32"]))), typed, quick=1200),
        Sub(
            "polynomial",
            st.fixed_dictionaries({"n": st.integers(7, 80), "h": VEC["h"], "alpha": VEC["alpha"], "c": st.lists(gen.floats(-5, 5, 2), min_size=1, max_size=5)}),
            polynomial,
            quick=3200,
        ),
    ],
)
