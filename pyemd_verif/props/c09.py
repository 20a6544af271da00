"""C09 - knots and envelopes."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import array, make, scale_of
from ..core import Prop, Sub, require


def get(emd, T, S):
    res = emd.extract_max_min_spline(T, S)
    require(isinstance(res, (tuple, list)) and len(res) == 4, "extract_max_min_spline doesn't give four items")
    return [array(x, d, name, finite=True) for x, d, name in zip(res, (1, 1, 2, 2), ("upper envelope", "lower envelope", "maxima knots", "minima knots"))]


def spread(S, up, lo):
    return scale_of(S, up, lo)


def compare(case, rec, T, S, det):
    cfg = dict(case["cfg"], extrema_detection=det)
    full = ref.full_config(cfg)
    want = None
    try:
        want = ref.envelopes(T, S, full)
    except ref.Degenerate as e:
        rec.skip(str(e))
    if want is None:
        rec.skip("fewer than three extrema")
    keep = S.copy()
    up, lo, kmax, kmin = get(make(cfg), T, S)
    require(np.array_equal(S, keep), "signal was modified")
    wup, wlo, wmax, wmin = want
    n = len(S)
    tscale = float(T[-1] - T[0])
    scale = scale_of(S)
    rec.mark()
    rec.label("spline:" + full["spline_kind"], "nbsym:%d" % min(full["nbsym"], 7))
    for got, w, what in ((kmax, wmax, "maxima"), (kmin, wmin, "minima")):
        require(got.shape[0] == 2, "knots aren't two rows")
        # Invariants
        require(bool(np.all(np.diff(got[0]) > 0)), "{} knots aren't increasing: {}", what, got[0].tolist())
        require(got[0][0] <= T[0] + 1e-9 * tscale and got[0][-1] >= T[-1] - 1e-9 * tscale, "{} knots {} don't cover the signal [{}, {}]", what, got[0].tolist(), T[0], T[-1])
        outside = (int(np.sum(got[0] < T[0] - 1e-9 * tscale)), int(np.sum(got[0] > T[-1] + 1e-9 * tscale)))
        require(max(outside) <= full["nbsym"], "{} {} knots were added at an edge with nbsym={}", max(outside), what, full["nbsym"])
        # The rule
        tol = 1e-9 if det == "simple" else 1e-6
        require(got.shape == w.shape, "{} knots at {} instead of {}", what, got[0].tolist(), w[0].tolist())
        require(bool(np.all(np.abs(got[0] - w[0]) <= tol * tscale)), "{} knots at {} instead of {}", what, got[0].tolist(), w[0].tolist())
        require(bool(np.all(np.abs(got[1] - w[1]) <= tol * scale)), "{} knots' values {} instead of {}", what, got[1].tolist(), w[1].tolist())
    for env, w, what in ((up, wup, "upper"), (lo, wlo, "lower")):
        require(len(env) == n, "{} envelope has {} values for {} samples", what, len(env), n)
        tol = (1e-7 if det == "simple" else 1e-4) * spread(S, w, w)
        if det == "simple" and full["spline_kind"] in ("cubic", "quadratic"):
            tol *= 1 + ill(kmax if what == "upper" else kmin)
        err = float(np.max(np.abs(env - w)))
        if det != "simple" and err > tol:
            # Compare spline spanned on the very same knots
            k = kmax if what == "upper" else kmin
            w = ref.SPLINE[full["spline_kind"].lower()](k[0], k[1], T)
            err = float(np.max(np.abs(env - w)))
            tol *= 1 + ill(k)
        require(err <= tol, "{} envelope is off by {:.3g} (scale {:.3g})", what, err, spread(S, w, w))


def ill(k):
    h = np.diff(k[0])
    return float((np.max(h) / np.min(h)) ** 2) * 1e-4


def simple(case, rec):
    S = gen.signal(case["S"]) * case["amp"]
    T = np.arange(len(S), dtype=float)
    compare(case, rec, T, S, "simple")
    # Envelopes touch the extrema
    mx, mn = ref.extrema_simple(S)
    up, lo, _, _ = get(make(dict(case["cfg"])), T, S)
    tol = 1e-8 * spread(S, up, lo)
    require(bool(np.all(np.abs(up[mx] - S[mx]) <= tol)), "upper envelope doesn't pass through maxima: {}", (up[mx] - S[mx]).tolist())
    require(bool(np.all(np.abs(lo[mn] - S[mn]) <= tol)), "lower envelope doesn't pass through minima: {}", (lo[mn] - S[mn]).tolist())


def prepare(case, rec):
    """prepare_points on its own, for extrema of the signal."""
    S = gen.signal(case["S"])
    T = np.arange(len(S), dtype=float)
    mx, mn = ref.extrema_simple(S)
    if len(mx) + len(mn) < 3:
        rec.skip("fewer than three extrema")
    nb = case["nbsym"]
    res = make({"nbsym": nb}).prepare_points(T, S, T[mx], S[mx], T[mn], S[mn])
    require(isinstance(res, (tuple, list)) and len(res) == 2, "prepare_points doesn't give a pair")
    kmax, kmin = array(res[0], 2, "maxima knots"), array(res[1], 2, "minima knots")
    wmax, wmin = ref.knots_simple(S, mx, mn, nb)
    rec.mark()
    rec.label("edges:%s%s" % ("max" if mx[0] < mn[0] else "min", "max" if mx[-1] > mn[-1] else "min"), "nbsym:%d" % min(nb, 6))
    for g, w, what in ((kmax, wmax, "maxima"), (kmin, wmin, "minima")):
        require(g.shape == w.shape and bool(np.all(g == w)), "{} knots of {} with nbsym={}: {} instead of {}", what, S.tolist()[:30], nb, g.tolist(), w.tolist())


def parabol(case, rec):
    S = gen.signal(case["S"]) * case["amp"]
    T = gen.timeline(case["T"], len(S))
    T = np.arange(len(S), dtype=float) if T is None else T.astype(float)
    T = (T - T[0]) / np.min(np.diff(T))
    if T[-1] > 3000:
        rec.skip("long time")
    compare(case, rec, T, S, "parabol")


CFG = st.builds(
    lambda k, n: {"spline_kind": k, "nbsym": n}, st.sampled_from(["cubic"] * 2 + gen.SPLINES), st.one_of(st.integers(1, 4), st.integers(1, 8))
)
AMP = st.sampled_from([1.0, 1.0, -1.0, 1e-5, 1e5])

PROP = Prop(
    "C09",
    "the signal has at least three extrema (and, for parabolic detection, well defined knots)",
    [
        Sub("prepare", st.fixed_dictionaries({"S": st.one_of(gen.raw_signals(5, 20), gen.signals(5, 80)), "nbsym": st.one_of(st.integers(1, 3), st.integers(1, 10))}), prepare, quick=6000),
        Sub("simple", st.fixed_dictionaries({"S": st.one_of(gen.raw_signals(5, 24), gen.oscillating(8, 120), gen.signals(5, 120)), "cfg": CFG, "amp": AMP}), simple, quick=4000),
        Sub("long", st.fixed_dictionaries({"S": gen.long_signals(400, 5000), "cfg": CFG, "amp": AMP}), simple, quick=250),
        Sub("long_prepare", st.fixed_dictionaries({"S": gen.long_signals(400, 5000), "nbsym": st.one_of(st.integers(1, 10), st.integers(10, 200))}), prepare, quick=250),
        Sub("parabol", st.fixed_dictionaries({"S": st.one_of(gen.oscillating(8, 100), gen.signals(6, 100)), "T": gen.timelines(), "cfg": CFG, "amp": AMP}), parabol, quick=3000),
    ],
)
