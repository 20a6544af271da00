"""C13 - dtypes and memory layouts."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import build, decompose, emd_cases, gap, make, rounding, safe_limit, same
from ..core import Prop, Sub, require
from .c28 import CFG
from .c28 import images as image_specs


def doubles(cfg, S, T, lim, rec):
    try:
        return decompose(make(cfg), S, T, lim)
    except ValueError:
        if cfg.get("extrema_detection") != "parabol":
            raise
        rec.skip("ill-defined parabolic knots")  # Known finding of C01


def integers(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    lim = safe_limit(S, cfg, case["max_imf"], cap=4)
    F = np.array([int(v) for v in S], dtype=np.float64)
    if T is not None and cfg.get("extrema_detection") == "parabol" and T.dtype.kind == "f" and T.dtype != np.float64:
        T = T.astype(float)  # Otherwise narrow integers would be decomposed in time's precision
    b = doubles(cfg, F, T, lim, rec)
    a = decompose(make(cfg), S, T, lim)
    rec.mark(len(b[1]) >= 1)
    rec.label(case["dtype"], "n:" + ("<128" if len(S) < 128 else "<256" if len(S) < 256 else "256+"))
    for x, y, what in zip(a, b, ("output", "IMFs", "residue")):
        require(same(x, y), "{} of {} samples in {} differs from float64: {}", what, len(S), S.dtype, gap(x, y))


def ensembles(case, rec):
    """Ensemble methods on integers."""
    from PyEMD import CEEMDAN, EEMD

    S, T = build(case)
    F = np.array([int(v) for v in S], dtype=np.float64)

    def run(X):
        cls = CEEMDAN if case["ceemdan"] else EEMD
        obj = cls(trials=case["trials"], parallel=False, **case["cfg"])
        obj.noise_seed(case["seed"])
        return np.asarray(obj(X, T, case["limit"]))

    x, y = run(S), run(F)
    rec.mark(len(y) >= 2)
    rec.label(case["dtype"], "CEEMDAN" if case["ceemdan"] else "EEMD")
    require(np.all(np.isfinite(x)) and same(x, y), "ensemble for {} samples in {} differs from float64: {}", len(S), S.dtype, gap(x, y))


def images(case, rec):
    """Images of integers."""
    from .c28 import image, make2d, makeb, stack

    img = image(case["img"])
    F = img.astype(float)
    k = case["max_imf"]
    if case["bemd"]:
        x, y = makeb({}).bemd(img, k), makeb({}).bemd(F, k)
    else:
        x, y = make2d(case["cfg"]).emd(img, k), make2d(case["cfg"]).emd(F, k)
    x, y = stack(x, "output", img.shape), stack(y, "output", img.shape)
    rec.mark(len(y) >= 2)
    rec.label(str(img.dtype))
    require(same(x, y), "components of an image of {} differ from float64: {}", img.dtype, gap(x, y))


def layouts(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    lim = safe_limit(S, cfg, case["max_imf"], cap=4)
    C = np.array(S.tolist(), dtype=S.dtype)
    if T is not None:
        Tl = gen.with_layout(T, case["tlayout"])
    else:
        Tl = None
    keep = S.copy()
    b = doubles(cfg, C, T, lim, rec)
    a = decompose(make(cfg), S, Tl, lim)
    rec.mark(len(b[1]) >= 1 and case["layout"] != "plain")
    rec.label(case["layout"])
    require(np.array_equal(S, keep), "signal was modified")
    for x, y, what in zip(a, b, ("output", "IMFs", "residue")):
        require(same(x, y), "{} depends on memory layout ({}): {}", what, case["layout"], gap(x, y))


def low_precision(case, rec):
    S, T = build(case)
    if not np.all(np.isfinite(S)) or not len(S):
        rec.skip("overflow")
    cfg = case["cfg"]
    lim = min(case["max_imf"], 3) if case["max_imf"] > 0 else 3
    rows, imfs, residue = decompose(make(cfg), S, None, lim)
    rec.mark(len(imfs) >= 1)
    rec.label(case["dtype"], "n:" + ("<2048" if len(S) < 2048 else "2048+"))
    x = S.astype(float)
    err = float(np.max(np.abs(rows.sum(axis=0) - x)))
    require(err <= rounding(S, rows) + 1.01e-8, "{} rows don't add up to the signal: {:.3g}", S.dtype, err)
    err = float(np.max(np.abs(imfs.sum(axis=0) + residue - x)))
    require(err <= rounding(S, imfs) + rounding(S, residue[None]), "{} IMFs and residue don't add up to the signal: {:.3g}", S.dtype, err)


def precision(case, rec):
    """One sifting in single precision is a sifting, up to precision (values that are exact in both)."""
    from .. import ref

    S, _ = build(case)
    S = np.round(S * 64) / 64
    if np.max(np.abs(S)) > 1000 or np.any(np.diff(S) == 0):
        rec.skip("not exact or ties")
    cfg = dict(case["cfg"], FIXE=1, FIXE_H=0, range_thr=0.0, total_power_thr=0.0)
    a = decompose(make(cfg), S.astype(np.float32), None, 1)
    b = decompose(make(cfg), S.astype(np.float64), None, 1)
    rec.mark(len(b[1]) == 1)
    require(a[1].shape == b[1].shape, "single precision gives {} IMFs, double {}", len(a[1]), len(b[1]))
    if len(b[1]):
        amp = float(np.max(np.abs(b[1]))) + float(np.max(np.abs(S)))
        e = float(np.max(np.abs(a[1] - b[1])))
        require(e <= 2e-5 * amp, "single precision sifting is off by {:.3g} (scale {:.3g})", e, amp)


def long_signals(case, rec):
    """Splines are local: far from its ends the first sifting of a long signal's head and tail is that of these alone."""
    S = gen.as_dtype(gen.signal(case["S"]), case["dtype"])
    cfg = {"FIXE": 1, "spline_kind": case["spline"], "nbsym": case["nbsym"]}
    n, m = len(S), 1500
    rows, imfs, residue = decompose(make(cfg), S, None, 1)
    require(len(imfs) == 1, "{} IMFs in a long signal", len(imfs))
    rec.mark()
    rec.label(case["dtype"], "n:%d" % n)
    amp = float(np.max(np.abs(S.astype(float))))
    err = float(np.max(np.abs(imfs[0] + residue - S)))
    require(err <= 1e-12 * amp, "IMF and residue of {} samples in {} don't add up: {:.3g}", n, S.dtype, err)
    # Begin with even samples: the middle of a plateau is rounded to even
    for beg, end, lo, hi in ((0, m, 0, 1000), ((n - m) // 2 * 2, n, 500, None), (n // 4 * 2, n // 4 * 2 + m, 500, 1000)):
        alone = decompose(make(cfg), np.array(S[beg:end], dtype=float), None, 1)[1][0]
        x, y = imfs[0][beg:end][lo:hi], alone[lo:hi]
        require(same(x, y, 1e-9 * amp), "a part of {} samples in {} is decomposed differently than alone: {}", n, S.dtype, gap(x, y))


LONG = st.sampled_from([127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 512, 513, 600])


@st.composite
def ints(draw):
    c = draw(emd_cases(4, 300, osc=True, maxit=False, amps=[1.0, 20.0, 1000.0], dtypes=gen.INT_DTYPES))
    if draw(st.integers(0, 2)) == 0:
        c["S"] = {"k": "rnd", "n": draw(LONG), "d": draw(st.sampled_from(["normal", "walk", "smooth"])), "q": 0, "s": draw(gen.seeds)}
        c["max_imf"] = 2
    return c


@st.composite
def lows(draw):
    c = draw(emd_cases(3, 300, osc=True, maxit=False, amps=[1.0, 1.0, 10.0, 0.01, 1e-3], dtypes=["float32", "float16"], timeline=False))
    if draw(st.integers(0, 4)) == 0:
        c["S"] = {"k": "rnd", "n": draw(st.sampled_from([1000, 2047, 2048, 2049, 2050, 2051, 2500, 4097, 5000])), "d": draw(st.sampled_from(["normal", "walk", "smooth", "uniform"])), "q": 0, "s": draw(gen.seeds)}
        c["cfg"] = {"FIXE": draw(st.integers(1, 3))}
        c["max_imf"] = 2
    return c


def images_of():
    return st.builds(lambda img, dt: dict(img, dtype=dt), image_specs(square=True, hi=11), st.sampled_from(gen.INT_DTYPES[:6]))


PROP = Prop(
    "C13",
    "the decomposition has at least one IMF (and the layout isn't the plain one)",
    [
        Sub("integers", ints(), integers, quick=1600),
        Sub(
            "ensembles",
            st.builds(
                lambda c, e, t, s, m: dict(c, ceemdan=e, trials=t, seed=s, limit=m),
                emd_cases(6, 140, osc=True, maxit=False, thr=False, amps=[1.0, 20.0, 1000.0], dtypes=gen.INT_DTYPES),
                st.booleans(), st.integers(1, 3), st.integers(0, 2**31), st.integers(1, 3),
            ),
            ensembles,
            quick=500,
        ),
        Sub(
            "images",
            st.fixed_dictionaries({"img": images_of(), "bemd": st.booleans(), "cfg": CFG, "max_imf": st.integers(1, 3)}),
            images,
            quick=600,
        ),
        Sub("layouts", st.builds(lambda c, t: dict(c, tlayout=t), emd_cases(4, 150, osc=True, maxit=False, dtypes=["float64", "float32", "int32", "uint8"]), st.sampled_from(gen.LAYOUTS)), layouts, quick=1200),
        Sub("integers_parabol", emd_cases(8, 100, osc=True, maxit=False, detection=("parabol",), amps=[1.0, 20.0, 1000.0], dtypes=gen.INT_DTYPES, limits=st.integers(1, 3)), integers, quick=400),
        Sub(
            "layouts_parabol",
            st.builds(lambda c, t: dict(c, tlayout=t), emd_cases(8, 100, osc=True, maxit=False, detection=("parabol",), dtypes=["float64", "float64", "int32", "uint8"], limits=st.integers(1, 3)), st.sampled_from(gen.LAYOUTS)),
            layouts,
            quick=400,
        ),
        Sub("low_precision", lows(), low_precision, quick=1600),
        Sub(
            "long",
            st.fixed_dictionaries(
                {
                    "S": st.builds(lambda n, d, s: {"k": "rnd", "n": n, "d": d, "q": 0, "s": s}, st.sampled_from([32000, 32767, 32768, 32800, 40000, 65535, 65536, 65540, 70000, 131080]), st.sampled_from(["normal", "uniform"]), gen.seeds),
                    "dtype": st.sampled_from(["float64", "float64", "int8", "int16", "int32", "uint8"]),
                    "spline": st.sampled_from(["cubic", "akima", "pchip", "linear"]),
                    "nbsym": st.integers(1, 3),
                }
            ),
            long_signals,
            quick=80,
        ),
        Sub("single", emd_cases(6, 150, osc=True, amps=[1.0, 30.0], timeline=False), precision, quick=800),
    ],
)
