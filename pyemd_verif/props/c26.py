"""C26 - the MATLAB-compatible EMD."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import array, rounding, scale_of
from ..core import Prop, Sub, require
from .c09 import ill

KINDS = ["cubic", "cubic", "akima", "slinear", "linear", "quadratic"]


def make(cfg):
    from PyEMD.EMD_matlab import EMD

    emd = EMD()
    emd.splineKind = cfg["spline_kind"]
    emd.nbsym = cfg["nbsym"]
    emd.FIXE, emd.FIXE_H = cfg["FIXE"], cfg["FIXE_H"]
    emd.MAX_ITERATION = cfg["max_iter"]
    emd.stop1, emd.stop2, emd.stop3 = cfg["stop"]
    return emd


def run(emd, S, T, limit):
    """Validated (rows, ext, iter)."""
    res = emd.emd(emd, S, T, limit)
    require(isinstance(res, (tuple, list)) and len(res) == 4, "emd doesn't give four items")
    imf, ext, it, no = res
    for d, what in ((imf, "IMF"), (ext, "EXT"), (it, "ITER")):
        require(isinstance(d, dict), "{} isn't a dictionary", what)
        require(set(d) == set(range(int(no))), "keys of {}: {} for {} components", what, sorted(d), no)
    require(no >= 1, "no components")
    rows = array([imf[i] for i in range(no)], 2, "components", len(S))
    return rows, [int(ext[i]) for i in range(no)], [int(it[i]) for i in range(no)]


@st.composite
def configs(draw):
    mode = draw(st.sampled_from(["default", "default", "fixe", "fixe_h"]))
    return {
        "spline_kind": draw(st.sampled_from(KINDS)),
        "nbsym": draw(st.integers(1, 5)),
        "FIXE": draw(st.integers(1, 8)) if mode == "fixe" else 0,
        "FIXE_H": draw(st.integers(1, 5)) if mode == "fixe_h" else 0,
        "max_iter": draw(st.sampled_from([30, 30, 60, 5, 1])),
        "stop": draw(st.sampled_from([[0.05, 0.5, 0.05], [0.05, 0.5, 0.05], [0.1, 0.8, 0.1], [0.02, 0.3, 0.02]])),
    }


def timeline(spec, n):
    T = gen.timeline(spec, n)
    return None if T is None else T.astype(float)


def well_scaled(T):
    return float(np.max(np.abs(T))) / float(np.min(np.diff(T))) < 1e6


def complete(case, rec):
    S = gen.with_layout(gen.signal(case["S"]) * case["amp"] + case["off"], case["layout"])
    T = timeline(case["T"], len(S))
    n = len(S)
    Tr = np.arange(n, dtype=float) if T is None else T
    limit = case["max_imf"]
    if limit is None:
        try:
            ref.stable_matlab(S, Tr, -1, case["cfg"])
        except ref.Degenerate:
            limit = 6
    emd = make(case["cfg"])
    kS, kT = S.copy(), None if T is None else T.copy()
    rows, ext, it = run(emd, S, T, limit)
    require(np.array_equal(S, kS) and (T is None or np.array_equal(T, kT)), "input was modified")
    if limit is not None and limit >= 2:
        require(len(rows) <= limit, "{} components with limit {}", len(rows), limit)
        rec.label("limit")
    tol = rounding(S, rows) + 1e-10
    err = float(np.max(np.abs(np.sum(rows, axis=0) - S)))
    require(err <= tol, "components are off the signal by {:.3g} (tolerance {:.3g})", err, tol)
    for x in it:
        require(0 <= x <= case["cfg"]["max_iter"], "{} iterations with MAX_ITERATION {}", x, case["cfg"]["max_iter"])
    if case["cfg"]["FIXE"]:
        require(max(it) <= case["cfg"]["FIXE"] + 1, "{} iterations with FIXE {}", max(it), case["cfg"]["FIXE"])
    mx, mn = ref.extrema_simple(S)
    if len(mx) + len(mn) < 3:
        require(len(rows) == 1 and np.array_equal(rows[0], S), "a trend was decomposed into {} components", len(rows))
        require(ext[0] == len(mx) + len(mn), "{} extrema reported for a trend with {}", ext[0], len(mx) + len(mn))
    else:
        rec.mark()
    # Repeatable, on the same instance and another one
    for e in (emd, make(case["cfg"])):
        rows2, ext2, it2 = run(e, S, T, limit)
        require(np.array_equal(rows, rows2) and ext == ext2 and it == it2, "another call gives a different result")
    rec.label("fixe" if case["cfg"]["FIXE"] else "fixe_h" if case["cfg"]["FIXE_H"] else "default")
    # Limits give a prefix
    if case["more"] and limit is not None and limit >= 2 and len(rows) == limit:
        rows3, _, it3 = run(make(case["cfg"]), S, T, limit + case["more"])
        require(len(rows3) >= limit, "fewer components with a higher limit")
        require(np.array_equal(rows3[: limit - 1], rows[: limit - 1]), "a higher limit changes components")
        require(it3[: limit - 1] == it[: limit - 1], "a higher limit changes iterations")
        rec.label("prefix")


def extrema(case, rec):
    from PyEMD.EMD_matlab import EMD

    S = gen.signal(case["S"]) * case["amp"] + case["off"]
    T = timeline(case["T"], len(S))
    T = np.arange(len(S), dtype=float) if T is None else T
    res = EMD().findExtrema(T, S)
    require(isinstance(res, (tuple, list)) and len(res) == 5, "findExtrema doesn't give five items")
    mxp, mxv, mnp, mnv, zer = [array(x, 1, "extrema") for x in res]
    mx, mn = ref.extrema_simple(S)
    show = S.tolist() if len(S) < 40 else "..."
    for p, v, w, what in ((mxp, mxv, mx, "maxima"), (mnp, mnv, mn, "minima")):
        require(p.tolist() == T[w].tolist() and v.tolist() == S[w].tolist(), "{} of {}: {} instead of {}", what, show, p.tolist(), T[w].tolist())
    zc = ref.zero_crossings(S)
    require([float(z) for z in zer] == [float(z) for z in zc], "zero crossings of {}: {} instead of {}", show, zer.tolist(), zc)
    rec.mark(len(mx) + len(mn) > 0)


def envelopes(case, rec):
    cfg = case["cfg"]
    S = gen.signal(case["S"]) * case["amp"]
    T = timeline(case["T"], len(S))
    T = np.arange(len(S), dtype=float) if T is None else T
    if not well_scaled(T):
        rec.skip("time array with a large offset")
    mx, mn = ref.extrema_simple(S)
    if len(mx) + len(mn) < 3:
        rec.skip("fewer than three extrema")
    try:
        wup, wlo, wmax, wmin = ref.matlab_env(T, S, cfg)
    except ref.Degenerate as e:
        rec.skip(str(e))
    res = make(cfg).extractMaxMinSpline(T, S)
    require(isinstance(res, (tuple, list)) and len(res) == 4, "extractMaxMinSpline doesn't give four items")
    up, lo, kmax, kmin = [array(x, d, w) for x, d, w in zip(res, (1, 1, 2, 2), ("upper envelope", "lower envelope", "maxima", "minima"))]
    rec.mark()
    rec.label("spline:" + cfg["spline_kind"], "nbsym:%d" % cfg["nbsym"])
    span, scale = float(T[-1] - T[0]), scale_of(S)
    for g, w, what in ((kmax, wmax, "maxima"), (kmin, wmin, "minima")):
        require(g.shape == w.shape, "{} knots at {} instead of {}", what, g[0].tolist(), w[0].tolist())
        require(bool(np.all(np.abs(g[0] - w[0]) <= 1e-9 * span)), "{} knots at {} instead of {}", what, g[0].tolist(), w[0].tolist())
        require(bool(np.all(np.abs(g[1] - w[1]) <= 1e-9 * scale)), "{} knots' values {} instead of {}", what, g[1].tolist(), w[1].tolist())
    for g, w, k, what in ((up, wup, kmax, "upper"), (lo, wlo, kmin, "lower")):
        require(len(g) == len(S), "{} envelope has {} values", what, len(g))
        tol = 1e-7 * scale_of(S, w) * (1 + ill(k))
        err = float(np.max(np.abs(g - w)))
        require(err <= tol, "{} envelope is off by {:.3g} (tolerance {:.3g})", what, err, tol)


def algorithm(case, rec):
    cfg = case["cfg"]
    S = gen.signal(case["S"])
    T = timeline(case["T"], len(S))
    Tr = np.arange(len(S), dtype=float) if T is None else T
    if not well_scaled(Tr):
        rec.skip("time array with a large offset")
    limit = case["max_imf"]
    try:
        want = ref.stable_matlab(S, Tr, -1 if limit is None else limit, cfg)
    except ref.Degenerate as e:
        rec.skip(str(e))
    rec.bounded()
    rows, ext, it = run(make(cfg), S, T, limit)
    k = len(want["rows"])
    require(len(rows) in (k, k + 1), "{} components instead of {} and a remainder", len(rows), k)
    require(it[:k] == want["iters"], "iterations {} instead of {}", it, want["iters"])
    if not cfg["FIXE"]:
        require(ext[:k] == want["exts"], "numbers of extrema {} instead of {}", ext, want["exts"])
    err = float(np.max(np.abs(rows[:k] - want["rows"])))
    require(err <= want["tol"], "components are off by {:.3g} (tolerance {:.3g})", err, want["tol"])
    rest = S - np.sum(want["rows"], axis=0)
    if np.sum(np.abs(rest)) > 1e-6 + 10 * len(S) * want["tol"]:
        require(len(rows) == k + 1, "the remainder is missing")
    rec.mark(k >= 2)
    rec.label("fixe" if cfg["FIXE"] else "fixe_h" if cfg["FIXE_H"] else "default", "components:%d" % min(k, 4))


def stopping(case, rec):
    """Rilling's criterion, from its definition. Ratios keep away from the thresholds."""
    cfg = case["cfg"]
    s1, s2, s3 = cfg["stop"]
    n = case["n"]
    rng = np.random.RandomState(case["s"])
    # No, some or all samples over the first threshold, perhaps one over the second, anywhere
    sx = rng.uniform(0, 0.9 * s1, n)
    k = min(n, max(0, int(round(case["part"] * s3 * n))))
    sx[rng.permutation(n)[:k]] = rng.uniform(1.1 * s1, 0.9 * s2, k)
    if case["peak"] is not None:
        sx[case["peak"] % n if case["peak"] >= 0 else -1] = s2 * 1.2
    share = float(np.mean(sx > s1))
    if abs(share - s3) < 1e-9:
        rec.skip("share of samples at the threshold")
    amp = rng.uniform(0.1, 5, n)
    mean = sx * amp * rng.choice([-1, 1], n)
    want = not (share > s3 or bool(np.any(sx > s2))) and case["ext"] > 2
    got = make(cfg).stop_sifting(mean * 0, mean + amp, mean - amp, mean, case["ext"])
    require(bool(got) == want, "sifting {} with {:.3f} of samples over the first threshold, {} over the second and {} extrema", "stops" if got else "goes on", share, int(np.sum(sx > s2)), case["ext"])
    rec.mark(case["ext"] > 2)
    rec.label("stop" if want else "go on")


SIG = st.one_of(gen.oscillating(8, 120), gen.signals(3, 120))
LIMITS = st.sampled_from([None, None, 2, 3, 4, 6])

PROP = Prop(
    "C26",
    "the signal has at least three extrema (completeness, envelopes), any extremum (detection), at least two components (algorithm)",
    [
        Sub(
            "complete",
            st.fixed_dictionaries(
                {"S": SIG, "amp": st.sampled_from([1.0, 1.0, 1e-6, 1e6, -1.0]), "off": st.sampled_from([0.0, 0.0, 5.0]), "T": gen.timelines(),
                 "cfg": configs(), "max_imf": LIMITS, "layout": st.sampled_from(["plain", "strided", "readonly"]), "more": st.integers(0, 2)}
            ),
            complete,
            quick=900,
        ),
        Sub(
            "complete_long",
            st.fixed_dictionaries(
                {"S": gen.long_signals(400, 2500), "amp": st.sampled_from([1.0, 1e6, -1.0]), "off": st.sampled_from([0.0, 5.0]), "T": gen.timelines(),
                 "cfg": configs(), "max_imf": st.sampled_from([2, 3]), "layout": st.sampled_from(["plain", "strided", "readonly"]), "more": st.integers(0, 1)}
            ),
            complete,
            quick=80,
        ),
        Sub(
            "long",
            st.fixed_dictionaries({"S": gen.long_signals(400, 1500), "T": gen.timelines(), "cfg": configs(), "max_imf": st.sampled_from([2, 2, 3])}),
            algorithm,
            quick=120,
        ),
        Sub(
            "extrema",
            st.fixed_dictionaries(
                {"S": st.one_of(gen.raw_signals(3, 24), gen.raw_signals(3, 24), gen.signals(3, 80)),
                 "amp": st.sampled_from([1.0, 1.0, -1.0, 1e-170, 1e-300, 1e150]), "off": st.sampled_from([0.0, 0.0, 1.0]), "T": gen.timelines()}
            ),
            extrema,
            quick=5000,
        ),
        Sub(
            "envelopes",
            st.fixed_dictionaries(
                {"S": st.one_of(gen.raw_signals(5, 24), gen.oscillating(8, 100)), "amp": st.sampled_from([1.0, -1.0, 1e4]), "T": gen.timelines(), "cfg": configs()}
            ),
            envelopes,
            quick=3500,
        ),
        Sub(
            "stopping",
            st.fixed_dictionaries(
                {"cfg": configs(), "n": st.integers(5, 200), "s": gen.seeds, "part": st.sampled_from([0, 0, 0.5, 0.8, 1.3, 3, 100]),
                 "peak": st.sampled_from([None, None, None, 0, -1, 1, 7, 50]), "ext": st.integers(0, 9)}
            ),
            stopping,
            quick=2500,
        ),
        Sub(
            "algorithm",
            st.fixed_dictionaries({"S": gen.oscillating(8, 120), "T": gen.timelines(), "cfg": configs(), "max_imf": LIMITS}),
            algorithm,
            quick=1200,
        ),
    ],
)
