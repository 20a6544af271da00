"""C11 - EMD commutes with negation, scaling, time reversal and changes of time axis."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import build, decompose, describe, emd_cases, gap, make, safe_limit, same, scale_of
from ..core import Prop, Sub, require


def conditioned(rec, S, T, lim, cfg):
    try:
        return ref.stable_emd(S, T, lim, cfg, budget=2500)
    except ref.Degenerate as e:
        rec.skip(str(e))


def agree(rec, what, a, b, S, T, lim, cfg, factor=1.0, tol=1e-10):
    """(rows, imfs, residue) a against b times factor; differences are forgiven only if ill-conditioned."""
    scale = scale_of(S, a[1])
    for i in (1, 2):
        x, y = a[i], b[i] * factor
        if not same(x, y, tol * scale):
            base = conditioned(rec, S, T, lim, cfg)
            require(same(x, y, 20 * base["tol"]), "{}: {} differ by {}", what, "IMFs" if i == 1 else "residues", gap(x, y))
            rec.label("compared with tolerance")


def negate(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    lim = safe_limit(S, cfg, case["max_imf"], cap=4)
    a, b = decompose(make(cfg), S, T, lim), decompose(make(cfg), -S, T, lim)
    describe(rec, case, a[1])
    rec.mark(len(a[1]) >= 1)
    agree(rec, "negation", a, b, S, T, lim, cfg, -1.0)


def rescale(case, rec):
    S, T = build(case)
    cfg = dict(case["cfg"], range_thr=0.0, total_power_thr=0.0, svar_thr=0.0)
    lim = min(case["max_imf"], 3) if case["max_imf"] > 0 else 3
    f = 2.0 ** case["k"]
    a, b = decompose(make(cfg), S, T, lim), decompose(make(cfg), S * f, T, lim)
    describe(rec, case, a[1])
    rec.mark(len(a[1]) >= 1 and case["k"] != 0)
    if not (cfg.get("FIXE") or cfg.get("FIXE_H")):
        # There is an absolute threshold on power of an IMF
        low = min([1e-300] if not len(a[1]) else [float(np.min(np.sum(x[1] ** 2, axis=1))) for x in (a, b) if len(x[1])] or [0.0])
        if low < 1e-9:
            rec.skip("tiny IMF")
    agree(rec, "scaling by 2^%d" % case["k"], a, b, S, T, lim, cfg, 1.0 / f, tol=1e-12)


def reverse(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    if np.any(np.diff(S) == 0):
        rec.skip("ties")
    lim = safe_limit(S, cfg, case["max_imf"], cap=4)
    if cfg.get("extrema_detection") == "parabol":
        T = None
    base = conditioned(rec, S, T, lim, cfg)
    back = conditioned(rec, S[::-1].copy(), T, lim, cfg)
    if back["sifts"] != base["sifts"]:
        rec.skip("asymmetric rule")
    a = decompose(make(cfg), S, T, lim)
    b = decompose(make(cfg), S[::-1].copy(), T, lim)
    describe(rec, case, a[1])
    rec.mark(len(a[1]) >= 1)
    tol = 20 * max(base["tol"], back["tol"])
    for i, what in ((1, "IMFs"), (2, "residue")):
        x, y = a[i], b[i][..., ::-1]
        require(same(x, y, tol), "{} of the reversed signal aren't reversed: {}", what, gap(x, y))


def time_simple(case, rec):
    """With simple detection the time array has no effect."""
    S, T = build(case)
    cfg = case["cfg"]
    lim = safe_limit(S, cfg, case["max_imf"], cap=4)
    a, b = decompose(make(cfg), S, T, lim), decompose(make(cfg), S, None, lim)
    rec.mark(len(a[1]) >= 1 and T is not None)
    rec.label("T:" + case["T"]["k"])
    for i in (0, 1, 2):
        require(same(a[i], b[i]), "time array matters with simple detection: {}", gap(a[i], b[i]))


def time_parabol(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    lim = min(case["max_imf"], 3) if case["max_imf"] > 0 else 3
    if T is None:
        T = np.arange(len(S), dtype=float)
    T = T.astype(float)
    base = conditioned(rec, S, T, lim, cfg)
    a = decompose(make(cfg), S, T, lim)
    rec.mark(len(a[1]) >= 1)
    rec.label("T:" + case["T"]["k"])
    T2 = T * case["fa"] + case["fb"]
    if np.any(np.abs((np.diff(T2) / case["fa"]) / np.diff(T) - 1) > 1e-9):
        rec.skip("shift too large")
    other = conditioned(rec, S, T2, lim, cfg)
    require(other["sifts"] == base["sifts"], "reference model isn't invariant")
    b = decompose(make(cfg), S, T2, lim)
    tol = 100 * max(base["tol"], float(np.max(np.abs(other["imfs"] - base["imfs"]))) if len(base["imfs"]) else 0.0)
    for i, what in ((1, "IMFs"), (2, "residue")):
        require(same(a[i], b[i], tol), "{} change with units of time: {}", what, gap(a[i], b[i]))


def index_time(case, rec):
    """Passing sample indices as time is the same as passing no time."""
    S, _ = build(case)
    cfg = case["cfg"]
    lim = min(case["max_imf"], 3) if case["max_imf"] > 0 else 3
    conditioned(rec, S, None, lim, cfg)
    if case["tdtype"] == "int8":  # Over the whole range of the type
        step = 254 // (len(S) - 1)
        T = (np.arange(len(S)) * step - 127).astype(np.int8)
        rec.label("wide int8 time")
    else:
        T = np.arange(len(S)).astype(case["tdtype"])
    a, b = decompose(make(cfg), S, T, lim), decompose(make(cfg), S, None, lim)
    rec.mark(len(a[1]) >= 1)
    for i in (0, 1, 2):
        require(same(a[i], b[i], 1e-9 * scale_of(S, a[1])), "indices as time differ from no time: {}", gap(a[i], b[i]))


BOTH = ("simple", "simple", "parabol")
GOOD = dict(osc=True, amps=[1.0, 1.0, 10.0, 0.1], maxit=False)


def without_times(s):
    return s


def neg_cases(draw_parabol):
    return emd_cases(6, 150, detection=("simple",), osc=True, amps=[1.0, 1.0, 10.0, 0.1], maxit=False)


PROP = Prop(
    "C11",
    "the decomposition has at least one IMF (and the transformation isn't an identity)",
    [
        Sub("negation", neg_cases(False), negate, quick=1500),
        Sub("scaling", st.builds(lambda c, k: dict(c, k=k), emd_cases(6, 150, **GOOD), st.one_of(st.integers(-12, 12), st.integers(-40, 40))), rescale, quick=1200),
        Sub("reversal", emd_cases(6, 100, **GOOD), reverse, quick=600),
        Sub("time_simple", emd_cases(6, 150, osc=True, maxit=False), time_simple, quick=1200),
        Sub("time_long", emd_cases(sig=gen.long_signals(400, 3000), maxit=False, limits=st.sampled_from([1, 2, 3])), time_simple, quick=120),
        Sub("negation_long", emd_cases(sig=gen.long_signals(400, 3000), maxit=False, amps=[1.0, 10.0], limits=st.sampled_from([1, 2])), negate, quick=120),
        Sub("time_parabol", st.builds(lambda c, a, b: dict(c, fa=a, fb=b), emd_cases(8, 80, detection=("parabol",), **GOOD), st.sampled_from([1.0, 0.5, 1e-3, 7.0, 1000.0]), st.sampled_from([0.0, 1.0, -20.0, 333.0])), time_parabol, quick=350),
        Sub("index_time", st.builds(lambda c, d: dict(c, tdtype=d), emd_cases(8, 80, detection=("parabol",), **GOOD), st.sampled_from(["float64", "int64", "int32", "float32", "uint8", "int8"])), index_time, quick=360),
    ],
)
