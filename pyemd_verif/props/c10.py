"""C10 - spline kinds."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import array, make, scale_of
from ..core import Prop, Sub, require

FUNCS = {"cubic": "cubic", "akima": "akima", "pchip": "pchip", "cubic_hermite": "cubic_hermite", "cubic3": "cubic_spline_3pts"}
LINEAR_IN_VALUES = ["cubic", "cubic3", "cubic_hermite", "linear", "slinear", "quadratic"]


def call(kind, X, Y, x, route):
    """Value of the spline by the package: through EMD.spline_points or the function in PyEMD.splines."""
    if route == "emd":
        k = "cubic" if kind == "cubic3" else kind
        emd = make({"spline_kind": k})
        res = emd.spline_points(x, np.vstack((X, Y)))
        require(isinstance(res, (tuple, list)) and len(res) == 2, "spline_points doesn't give a pair")
        return array(res[1], 1, kind + " spline")
    from PyEMD import splines

    f = getattr(splines, FUNCS[kind])
    res = f(X.copy(), Y.copy(), x.copy())
    if kind == "cubic3":
        require(isinstance(res, (tuple, list)) and len(res) == 2, "cubic_spline_3pts doesn't give a pair")
        require(len(res[0]) == len(x) and bool(np.all(np.asarray(res[0]) == x)), "positions changed")
        res = res[1]
    return array(res, 1, kind + " spline")


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(gen.SPLINES + ["cubic3"]))
    n = 3 if kind == "cubic3" else draw(st.one_of(st.integers(4, 6), st.integers(4, 14)))
    if kind == "quadratic" or kind in ("pchip", "cubic_hermite", "linear", "slinear", "akima"):
        n = max(3, n - draw(st.integers(0, 1)))
    steps = draw(st.one_of(st.lists(st.integers(1, 4), min_size=n, max_size=n).map(lambda v: [float(x) for x in v]), st.lists(gen.floats(0.2, 5, 2), min_size=n, max_size=n)))
    y = draw(
        st.one_of(
            st.lists(gen.floats(-5, 5, 2), min_size=n, max_size=n),
            st.lists(st.integers(-3, 3), min_size=n, max_size=n).map(lambda v: [float(x) for x in v]),
        )
    )
    m = draw(st.integers(1, 12))
    u = draw(st.lists(gen.floats(0, 1, 3), min_size=m, max_size=m))
    return {
        "kind": kind,
        "x0": draw(st.sampled_from([0.0, -3.0, 10.0, 0.5])),
        "steps": steps,
        "y": y,
        "u": sorted(set(u)),
        "knots": draw(st.booleans()),
        "route": draw(st.sampled_from(["emd", "fun"])) if kind in FUNCS else "emd",
    }


@st.composite
def many(draw):
    """Many knots, other units of both axes; described by a seed."""
    kind = draw(st.sampled_from(gen.SPLINES))
    return {
        "kind": kind,
        "x0": draw(st.sampled_from([0.0, -3.0, 1000.0])),
        "n": draw(st.one_of(st.integers(15, 80), st.integers(15, 800))),
        "s": draw(gen.seeds),
        "spread": draw(st.sampled_from([1.0, 1.5, 4.0])),
        "ux": draw(st.sampled_from([1.0, 1e-3, 1e-6, 250.0])),
        "uy": draw(st.sampled_from([1.0, 1e-9, 1e9, 1e-3])),
        "round": draw(st.booleans()),
        "knots": draw(st.booleans()),
        "route": draw(st.sampled_from(["emd", "fun"])) if kind in FUNCS else "emd",
    }


def expand(case):
    rng = np.random.RandomState(case["s"])
    n = case["n"]
    steps = rng.uniform(1, case["spread"], n)
    y = rng.randn(n)
    if case["round"]:
        steps, y = np.ceil(steps), np.round(2 * y)
    return dict(case, steps=(case["ux"] * steps).tolist(), x0=case["x0"] * case["ux"], y=(case["uy"] * y).tolist(), u=np.unique(rng.rand(2 * n)).tolist())


def points(case):
    X = case["x0"] + np.concatenate(([0.0], np.cumsum(case["steps"][:-1])))
    Y = np.array(case["y"], dtype=float)
    x = X[0] + np.array(case["u"]) * (X[-1] - X[0])
    x = np.clip(x, X[0], X[-1])
    if case["knots"]:
        x = np.unique(np.concatenate((x, X)))
    return X, Y, x


def tol_for(X, Y, w):
    h = np.diff(X)
    return 1e-9 * (1 + (np.max(h) / np.min(h)) ** 2) * scale_of(Y, w) + 1e-300


def reference(kind, X, Y, x):
    return ref.spl_natural3(X, Y, x) if kind == "cubic3" else ref.SPLINE[kind](X, Y, x)


def akima_tie(X, Y):
    """Weights of Akima's slopes vanish up to rounding: not decisive."""
    m = np.diff(Y) / np.diff(X)
    e = np.concatenate(([3 * m[0] - 2 * m[1], 2 * m[0] - m[1]], m, [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]))
    dm = np.abs(np.diff(e))
    w = dm[2:] + dm[:-2]
    big = np.max(w)
    return big > 0 and bool(np.any((w < 1e-7 * big) & (w > 0)))


def differential(case, rec):
    kind = case["kind"]
    if "s" in case:
        case = expand(case)
    X, Y, x = points(case)
    if kind == "akima" and akima_tie(X, Y):
        rec.skip("akima weights vanish")
    keep = (X.copy(), Y.copy(), x.copy())
    got = call(kind, X, Y, x, case["route"])
    require(all(np.array_equal(a, b) for a, b in zip(keep, (X, Y, x))), "input was modified")
    want = reference(kind, X, Y, x)
    rec.mark(len(x) > 1 and np.ptp(Y) > 0)
    rec.label(kind, case["route"], "knots:%d" % min(len(X), 6))
    require(len(got) == len(x), "{} values for {} points", len(got), len(x))
    tol = tol_for(X, Y, want)
    err = float(np.max(np.abs(got - want)))
    require(err <= tol, "{} spline on ({}, {}) at {}: {} instead of {}", kind, X.tolist()[:40], Y.tolist()[:40], x.tolist()[:40], got.tolist()[:40], want.tolist()[:40])
    # Interpolation
    at = call(kind, X, Y, X, case["route"])
    require(len(at) == len(X) and float(np.max(np.abs(at - Y))) <= tol, "{} spline doesn't pass through its knots", kind)
    if kind in ("pchip", "linear", "slinear"):
        i = np.clip(np.searchsorted(X, x, side="right") - 1, 0, len(X) - 2)
        lo, hi = np.minimum(Y[i], Y[i + 1]), np.maximum(Y[i], Y[i + 1])
        require(bool(np.all((got >= lo - tol) & (got <= hi + tol))), "{} spline leaves the range of neighbouring knots", kind)


def relations(case, rec):
    kind = case["kind"]
    X, Y, x = points(case)
    if kind == "akima" and akima_tie(X, Y):
        rec.skip("akima weights vanish")
    got = call(kind, X, Y, x, case["route"])
    tol = 10 * tol_for(X, Y, got) + 1e-11
    rec.mark(np.ptp(Y) > 0)
    rec.label(kind)
    # Values: negation, scaling, shift
    require(float(np.max(np.abs(call(kind, X, -2.0 * Y + 1.5, x, case["route"]) - (1.5 - 2.0 * got)))) <= 10 * tol, "{} spline isn't equivariant in values", kind)
    # Abscissa: shift and scaling
    other = call(kind, 4.0 * X + 8.0, Y, 4.0 * x + 8.0, case["route"])
    require(float(np.max(np.abs(other - got))) <= 10 * tol, "{} spline isn't invariant to time units", kind)
    # Reflection
    refl = call(kind, -X[::-1], Y[::-1], -x[::-1], case["route"])[::-1]
    require(len(refl) == len(got) and float(np.max(np.abs(refl - got))) <= 10 * tol, "{} spline isn't mirror symmetric", kind)
    if kind in LINEAR_IN_VALUES:
        Y2 = np.cos(3.0 * np.arange(len(Y)))
        a, b = call(kind, X, Y2, x, case["route"]), call(kind, X, Y + Y2, x, case["route"])
        require(float(np.max(np.abs(got + a - b))) <= 10 * tol + 1e-8, "{} spline isn't linear in values", kind)
    # A straight line stays straight
    line = call(kind, X, 0.5 * X - 1.0, x, case["route"])
    require(float(np.max(np.abs(line - (0.5 * x - 1.0)))) <= 1e-8 * (1 + np.max(np.abs(X))) * (1 + (np.max(np.diff(X)) / np.min(np.diff(X))) ** 2), "{} spline of a line isn't a line", kind)


def part(case, rec):
    """spline_points keeps to positions between the first and the last knot."""
    kind = case["kind"] if case["kind"] != "cubic3" else "cubic"
    X, Y, x = points(case)
    if kind in ("linear", "slinear", "quadratic") or (kind == "akima" and akima_tie(X, Y)):
        rec.skip("given as they are")
    T = np.concatenate(([X[0] - 2.0, X[0] - 0.5], x, [X[-1] + 1.0]))
    res = make({"spline_kind": kind}).spline_points(T, np.vstack((X, Y)))
    require(isinstance(res, (tuple, list)) and len(res) == 2, "spline_points doesn't give a pair")
    rec.mark()
    t, v = array(res[0], 1, "positions"), array(res[1], 1, "values")
    require(np.array_equal(t, x) and len(v) == len(x), "positions outside of knots weren't left out")
    want = reference(case["kind"], X, Y, x)
    require(float(np.max(np.abs(v - want))) <= tol_for(X, Y, want), "{} spline is off", kind)


PROP = Prop(
    "C10",
    "knot values aren't all equal and there are at least two points",
    [
        Sub("formula", cases(), differential, quick=7000),
        Sub("many", many(), differential, quick=800),
        Sub("relations", cases(), relations, quick=4000),
        Sub("outside", cases(), part, quick=1500),
    ],
)
