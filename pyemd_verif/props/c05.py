"""C05 - the decomposition stops at, and only at, a trend or a negligible remainder."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import array, build, decompose, describe, emd_cases, extrema_count, gap, make, pair, safe_limit, same, scale_of
from ..core import Prop, Sub, require


def few(case, rec):
    """Fewer than three extrema: nothing to sift."""
    S, T = build(case)
    cfg = case["cfg"]
    if cfg.get("extrema_detection", "simple") == "simple":
        count = extrema_count(S)
    else:
        t = np.arange(len(S), dtype=float) if T is None else (T - T[0]) / np.min(np.diff(T))
        *_, margin = e = ref.extrema_parabol(t, S)
        if margin < 1e-7:
            rec.skip("vertex at the acceptance boundary")
        count = len(e[0]) + len(e[2])
    if count > 2:
        rec.skip("three or more extrema")
    if cfg.get("MAX_ITERATION", 1000) < 2:
        rec.skip("no sifting is allowed, so extrema aren't looked for")
    rows, imfs, residue = decompose(make(cfg), S, T, case["max_imf"])
    rec.label("extrema:%d" % count)
    rec.mark(np.max(np.abs(S)) > 1e-8)
    require(len(imfs) == 0, "{} IMFs from a signal with {} extrema", len(imfs), count)
    require(same(residue, S), "a trend isn't returned as it is: {}", gap(residue, S))
    if np.max(np.abs(S)) > 1.01e-8:
        require(same(rows, S.reshape(1, -1)), "a trend isn't returned as it is")


@st.composite
def trends(draw):
    """Monotone pieces (with plateaus) with at most two turns."""
    pieces = []
    last = float(draw(st.integers(-3, 3)))
    sign = draw(st.sampled_from([-1, 1]))
    for _ in range(draw(st.integers(1, 4))):
        for step in draw(st.lists(st.integers(0, 3), min_size=1, max_size=6)):
            pieces.append(last)
            last += sign * step
        sign = -sign
    pieces.append(last)
    return {
        "S": {"k": "raw", "v": pieces},
        "amp": draw(st.sampled_from([1.0, 1e-3, 1e4])),
        "off": draw(st.sampled_from([0.0, 5.0])),
        "cfg": draw(gen.configs(detection=("simple", "simple", "parabol"))),
        "max_imf": draw(gen.max_imfs),
        "T": draw(gen.timelines()),
    }


def negligible(x, cfg, slack):
    """Is x below a threshold: True, False or None (too close)"""
    r, p = float(np.max(x) - np.min(x)), float(np.sum(np.abs(x)))
    rt, pt = cfg.get("range_thr", 0.001), cfg.get("total_power_thr", 0.005)
    if r < rt - slack or p < pt - slack * len(x):
        return True
    if r >= rt + slack and p >= pt + slack * len(x):
        return False
    return None


def stop(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    if safe_limit(S, cfg, -1) > 0:
        rec.skip("threshold below rounding errors")
    rows, imfs, residue = decompose(make(cfg), S, None, -1)
    describe(rec, case, imfs)
    rec.mark(len(imfs) >= 1)
    slack = 1e-11 * scale_of(S, imfs)
    small = negligible(residue, cfg, slack)
    # Only at ...
    if len(imfs) and small is False:
        again = make(cfg)
        _, more, rest = decompose(again, residue, None, -1)
        if len(more):
            # Rounding errors might make a difference
            try:
                ref.stable_emd(residue, None, 1, cfg, budget=3000)
            except ref.Degenerate as e:
                rec.skip("residue: " + str(e))
        require(len(more) == 0, "unlimited decomposition stopped but its residue gives {} IMFs", len(more))
        rec.label("stopped:trend")
    else:
        rec.label("stopped:threshold" if len(imfs) else "nothing")
    # ... and at
    for k in range(1, len(imfs)):
        left = S - imfs[:k].sum(axis=0)
        require(negligible(left, cfg, slack) is not True, "decomposition went on after {} IMFs although the remainder is negligible", k)


def end_condition(case, rec):
    """The public predicate against its definition."""
    S = np.array(case["S"], dtype=float)
    n = len(S)
    imfs = np.array([(r * n)[:n] for r in case["imfs"]], dtype=float).reshape(-1, n)
    cfg = {"range_thr": case["range"], "total_power_thr": case["power"]}
    left = S - imfs.sum(axis=0)
    want = negligible(left, cfg, 1e-12 * scale_of(S, imfs))
    if want is None:
        rec.skip("at a threshold")
    got = make(cfg).end_condition(S, imfs)
    rec.mark(np.any(left != 0))
    rec.label("end:%s" % want)
    require(bool(got) == want, "end_condition is {} for remainder {} (range {} power {})", got, left.tolist(), case["range"], case["power"])


def iterations(case, rec):
    """At most MAX_ITERATION siftings per IMF, whatever the rule."""
    S, T = build(case)
    m = case["m"]
    emd = make(dict(case["cfg"], MAX_ITERATION=m))
    count = [0]
    real = getattr(emd, "extract_max_min_spline", None)
    if real is not None:

        def counting(*a, **k):
            count[0] += 1
            return real(*a, **k)

        emd.extract_max_min_spline = counting
    k = case.get("k", 1)
    rows, imfs, residue = decompose(emd, S, None, k)
    rec.label("count:" + ("0" if not count[0] else "max" if count[0] >= m - 1 else "less"))
    rec.mark(count[0] > 0)
    most = m * min(k, len(imfs) + 1)  # The last one might be dropped
    require(count[0] <= most, "{} siftings for {} IMFs with MAX_ITERATION={}", count[0], len(imfs), m)
    if extrema_count(S) > 2 and m >= 3 and len(imfs) and k == 1:
        # It's one of the first m proto-IMFs
        h = S
        protos = []
        for _ in range(m):
            one = make(case["cfg"], FIXE=1, FIXE_H=0, MAX_ITERATION=1000)
            _, step, _ = decompose(one, h, None, 1)
            if not len(step):
                break
            h = step[0]
            protos.append(h)
        tol = 1e-9 * scale_of(S, imfs)
        require(any(same(imfs[0], p, tol) for p in protos), "the IMF isn't any of the first {} proto-IMFs", m)


PROP = Prop(
    "C05",
    "a non-zero trend (few), at least one IMF (stop), non-zero remainder (end_condition), sifted at least once (iterations)",
    [
        Sub("few_extrema", trends(), few, quick=2500),
        Sub("stop", emd_cases(4, 150, amps=[1.0, 1.0, 10.0, 0.01, 1e-3, 1e-4], timeline=False), stop, quick=2500),
        Sub("stop_long", emd_cases(sig=gen.long_signals(400, 3000), amps=[1.0, 10.0, 1e-3], timeline=False, maxit=False), stop, quick=200),
        Sub(
            "end_condition",
            st.fixed_dictionaries(
                {
                    "S": st.lists(gen.floats(-2, 2, 3), min_size=1, max_size=12),
                    "imfs": st.lists(st.lists(gen.floats(-2, 2, 3), min_size=1, max_size=12), min_size=1, max_size=3),
                    "range": st.sampled_from([0.001, 0.5, 1.0, 3.0, 6.0]),
                    "power": st.sampled_from([0.005, 1.0, 5.0, 12.0, 20.0]),
                }
            ),
            end_condition,
            quick=2000,
        ),
        Sub(
            "iterations",
            st.builds(
                lambda c, m, k: dict(c, m=m, k=k),
                emd_cases(6, 80, modes=("default", "fixe", "fixe_h"), osc=True, maxit=False, amps=None, timeline=False).map(
                    lambda c: dict(c, cfg=dict({k: v for k, v in c["cfg"].items() if k != "MAX_ITERATION"}, **({"FIXE": 10} if c["cfg"].get("FIXE") else {})))
                ),
                st.integers(0, 12),
                st.sampled_from([1, 1, 2, 3, 5]),
            ),
            iterations,
            quick=1500,
        ),
    ],
)
