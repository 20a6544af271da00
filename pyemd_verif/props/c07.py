"""C07 - simple extrema detection."""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import array, make
from ..core import Prop, Sub, require


def compare(emd, T, S, rec=None):
    res = emd.find_extrema(T, S)
    require(isinstance(res, (tuple, list)) and len(res) == 5, "find_extrema doesn't give five items")
    mxp, mxv, mnp, mnv, zer = [array(x, 1, name) for x, name in zip(res, ("max pos", "max val", "min pos", "min val", "zeros"))]
    mx, mn = ref.extrema_simple(S)
    zc = ref.zero_crossings(S)
    show = (S.tolist() if len(S) <= 40 else "...", S.dtype)
    for got_p, got_v, want, what in ((mxp, mxv, mx, "maxima"), (mnp, mnv, mn, "minima")):
        wp = [T[i] for i in want]
        require(len(got_p) == len(want) and all(a == b for a, b in zip(got_p, wp)), "{} of {} ({}): {} instead of {}", what, show[0], show[1], got_p.tolist(), wp)
        require(len(got_v) == len(want) and all(a == S[i] for a, i in zip(got_v, want)), "values of {} of {}: {}", what, show[0], got_v.tolist())
    require([float(z) for z in zer] == [float(z) for z in zc], "zero crossings of {} ({}): {} instead of {}", show[0], show[1], zer.tolist(), zc)
    merged = sorted([(i, 1) for i in mx] + [(i, 0) for i in mn])
    assert all(a[1] != b[1] for a, b in zip(merged, merged[1:]))
    return mx, mn, zc


@st.composite
def cases(draw, hi=60, long=False):
    values = draw(
        gen.long_signals(400, 20000)
        if long
        else st.one_of(
            gen.raw_signals(3, 24),
            gen.raw_signals(3, 24),
            gen.signals(3, hi),
            st.lists(st.integers(-1, 1), min_size=3, max_size=30).map(lambda v: {"k": "raw", "v": [float(x) for x in v]}),
            st.lists(st.sampled_from([0.0, -0.0, 1.0, -1.0, 2.0]), min_size=3, max_size=20).map(lambda v: {"k": "raw", "v": v}),
        )
    )
    return {
        "S": values,
        "amp": draw(st.sampled_from([1.0, 1.0, 1.0, -1.0, 1e-30, 1e-170, 1e-200, 1e-300, 1e150, 1e200, 3e-4])),
        "off": draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, -2.0])),
        "dtype": draw(st.sampled_from(["float64"] * 8 + ["float32", "float16"] + gen.INT_DTYPES)),
        "T": draw(gen.timelines(none=False)),
        "layout": draw(st.sampled_from(gen.LAYOUTS)),
        "cfg": draw(gen.configs()),
    }


def check(case, rec):
    S = gen.signal(case["S"])
    amp = case["amp"]
    if case["dtype"] in ("float32", "float16") and abs(np.log10(abs(amp))) > 5:
        amp = 1.0
    if "int" in case["dtype"]:
        # Often over the whole range of the type
        S = gen.as_dtype(S * (10.0 if amp > 0 else -10.0), case["dtype"])
    else:
        S = (S * amp + case["off"]).astype(case["dtype"])
    if not np.all(np.isfinite(S)):
        rec.skip("overflow")
    S = gen.with_layout(S, case["layout"])
    T = gen.timeline(case["T"], len(S))
    keep = S.copy()
    mx, mn, zc = compare(make(case["cfg"]), T, S)
    require(np.array_equal(keep, S), "signal was modified")
    rec.mark(len(mx) + len(mn) >= 1 or len(zc) >= 1)
    if any(b > a for a, b, _ in ref.runs([float(x) for x in S])):
        rec.label("plateaus")
    if S[0] == S[1]:
        rec.label("plateau at the beginning")
    if S[-1] == S[-2]:
        rec.label("plateau at the end")
    rec.label("dtype:" + case["dtype"])


ALPHABETS = [[-1.0, 0.0, 1.0], [0.0, 1.0, 2.0], [-1.0, 0.0, 1.0, 2.0]]


def block(case, rec):
    """All sequences of a given length over an alphabet with a given prefix."""
    alpha = ALPHABETS[case["alphabet"]]
    n = case["len"]
    T = np.arange(n, dtype=float)
    emd = make({})
    count = 0
    for rest in itertools.product(alpha, repeat=n - len(case["prefix"])):
        S = np.array([alpha[i] for i in case["prefix"]] + list(rest))
        compare(emd, T, S)
        count += 1
    rec.label("exhaustive:len%d" % n)
    rec.mark()


def blocks(lens):
    out = []
    for a, n in lens:
        k = len(ALPHABETS[a])
        depth = max(0, min(n - 1, n - 6))
        for pre in itertools.product(range(k), repeat=depth):
            out.append({"alphabet": a, "len": n, "prefix": list(pre)})
    return out


exhaustive_quick = blocks([(0, n) for n in range(3, 9)] + [(2, n) for n in range(3, 6)])

PROP = Prop(
    "C07",
    "the signal has an extremum or a zero crossing",
    [
        Sub("random", cases(), check, quick=9000),
        Sub("long", cases(long=True), check, quick=600),
        Sub(
            "exhaustive",
            st.builds(
                lambda a, n, p: {"alphabet": a, "len": n, "prefix": [x % len(ALPHABETS[a]) for x in (p * n)[: max(1, n - 5)]]},
                st.integers(0, 2),
                st.integers(6, 14),
                st.lists(st.integers(0, 3), min_size=1, max_size=9),
            ),
            block,
            quick=160,
            thorough=6000,
            examples=exhaustive_quick,
        ),
    ],
)
