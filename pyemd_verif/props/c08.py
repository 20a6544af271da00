"""C08 - parabolic extrema."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import array, gap, make, same, scale_of
from ..core import Prop, Sub, require


@st.composite
def times(draw):
    return {
        "k": draw(st.sampled_from(["arange", "arange", "jitter", "int", "geo", "lin", "affine"])),
        "a": draw(st.sampled_from([1.0, 0.25, 3.0, 0.1])),
        "b": draw(st.sampled_from([0.0, 0.0, -5.0, 2.0])),
        "s": draw(st.integers(0, 10**6)),
    }


def detect(T, S):
    res = make({"extrema_detection": "parabol"}).find_extrema(T, S)
    require(isinstance(res, (tuple, list)) and len(res) == 5, "find_extrema doesn't give five items")
    return [array(x, 1, name) for x, name in zip(res, ("max pos", "max val", "min pos", "min val", "zeros"))]


def tolerances(T, S):
    """The code's closed formulas cancel: errors grow with (position/step)^2-3."""
    step = float(np.min(np.diff(T)))
    reach = float(np.max(np.abs(T))) / step + 1
    e = 1e-14 * reach**2
    return step, e


def check(case, rec):
    S = gen.signal(case["S"]) * case["amp"]
    T = gen.timeline(case["T"], len(S)).astype(float)
    mxp, mxv, mnp, mnv, margin = ref.extrema_parabol(T, S)
    step, e = tolerances(T, S)
    if margin < max(1e-6, 1e3 * e):
        rec.skip("vertex at the acceptance boundary")
    if flat(T, S, e):
        rec.skip("flat up to rounding errors")
    keep = (T.copy(), S.copy())
    got = detect(T, S)
    require(np.array_equal(T, keep[0]) and np.array_equal(S, keep[1]), "input was modified")
    rec.mark(len(mxp) + len(mnp) >= 1)
    rec.label("T:" + case["T"]["k"], "ext:%s" % ("0" if not mxp + mnp else "1-2" if len(mxp + mnp) < 3 else "3+"))
    for gp, gv, wp, wv, what in ((got[0], got[1], mxp, mxv, "maxima"), (got[2], got[3], mnp, mnv, "minima")):
        require(len(gp) == len(wp), "{} {} instead of {} in {} at {}", len(gp), what, len(wp), S.tolist()[:40], T.tolist()[:40])
        require(len(gv) == len(wp), "numbers of positions and values differ")
        require(np.all(np.diff(gp) > 0), "positions of {} aren't increasing", what)
        if not len(wp):
            continue
        for p, v, rp, rv in zip(gp, gv, wp, wv):
            i = int(np.argmin(np.abs(T - rp)))
            # Conditioning of the vertex: curvature vs. slopes around
            lo, hi = max(0, i - 1), min(len(T) - 1, i + 1)
            curv = condition(T, S, i)
            require(abs(p - rp) <= 1e3 * e * curv * step + 1e-9 * step, "position of one of {}: {} instead of {}", what, p, rp)
            require(abs(v - rv) <= (1e4 * e * curv + 1e-9) * scale_of(S), "value of one of {}: {} instead of {}", what, v, rv)
    zc = ref.zero_crossings(S)
    require([float(z) for z in got[4]] == [float(z) for z in zc], "zero crossings: {} instead of {}", got[4].tolist(), zc)


def flat(T, S, e):
    """Some three samples are equal up to rounding errors, but not exactly."""
    a, b, c = S[:-2], S[1:-1], S[2:]
    d = np.maximum(np.abs(b - a), np.abs(c - b))
    return bool(np.any((d > 0) & (d < 1e5 * e * scale_of(S))))


def condition(T, S, i):
    """How much larger the values are than the second difference next to the sample i (plateaus included)."""
    n = len(S)
    worst = 1.0
    for j in range(max(1, i - 1), min(n - 1, i + 2)):
        d2 = abs(S[j - 1] - 2 * S[j] + S[j + 1])
        if d2 > 0:
            worst = max(worst, scale_of(S) / d2)
    return worst


def integers(case, rec):
    """Integers give the same as equal values in double precision."""
    S = gen.as_dtype(gen.signal(case["S"]), case["dtype"])
    T = gen.timeline(case["T"], len(S)).astype(float)
    got, want = detect(T, S), detect(T, np.array([int(v) for v in S], dtype=float))
    rec.mark(len(want[0]) + len(want[2]) >= 1)
    rec.label(case["dtype"])
    for x, y, what in zip(got, want, ("positions of maxima", "maxima", "positions of minima", "minima", "zero crossings")):
        require(same(x, y), "{} of {} differ from those of float64: {}", what, S.dtype, gap(x, y))


def affine(case, rec):
    """Vertices move with time (power-of-two factor and integer shift: nearly exact) and scale with values."""
    S = gen.signal(case["S"])
    T = np.arange(len(S), dtype=float)
    if case["T"]["k"] == "int":
        T = gen.timeline(case["T"], len(S)).astype(float)
    *_, margin = ref.extrema_parabol(T, S)
    if margin < 1e-5:
        rec.skip("vertex at the acceptance boundary")
    a, b, c = 2.0 ** case["ka"], float(case["b"]), 2.0 ** case["kc"]
    x, y = detect(T, S), detect(a * (T + b), S * c)
    step, e = tolerances(T + b, S)
    if margin < 1e3 * e or flat(T, S, e):
        rec.skip("vertex at the acceptance boundary")
    rec.mark(len(x[0]) + len(x[2]) >= 1)
    for i in (0, 2):
        require(len(x[i]) == len(y[i]), "number of extrema changes with time units: {} {}", len(x[i]), len(y[i]))
        for p, q, v, w in zip(x[i], y[i], x[i + 1], y[i + 1]):
            cond = condition(T, S, int(np.argmin(np.abs(T - p))))
            require(abs(a * (p + b) - q) <= a * (1e3 * e * cond + 1e-9), "positions don't follow time: {} -> {}", p, q)
            require(abs(v * c - w) <= c * (1e4 * e * cond + 1e-9) * scale_of(S), "values don't follow: {} -> {}", v, w)


smooth = st.one_of(gen.oscillating(8, 60), gen.signals(4, 60))

PROP = Prop(
    "C08",
    "at least one extremum is detected",
    [
        Sub("vertices", st.fixed_dictionaries({"S": smooth, "T": times(), "amp": st.sampled_from([1.0, 1.0, -1.0, 1e-6, 1e5])}), check, quick=9000),
        Sub("long", st.fixed_dictionaries({"S": gen.long_signals(400, 2000), "T": times(), "amp": st.sampled_from([1.0, -1.0, 1e5])}), check, quick=300),
        Sub("affine", st.fixed_dictionaries({"S": smooth, "T": times(), "ka": st.integers(-8, 8), "b": st.integers(-20, 20), "kc": st.integers(-20, 20)}), affine, quick=3500),
        Sub("integers", st.fixed_dictionaries({"S": smooth, "T": times(), "dtype": st.sampled_from(gen.INT_DTYPES)}), integers, quick=2000),
    ],
)
