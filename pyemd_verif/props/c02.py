"""C02 - shape, finiteness, limit and prefix consistency of EMD."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import build, decompose, describe, emd_cases, gap, make, safe_limit, same, scale_of
from ..core import Prop, Sub, require


def prefix(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    free = safe_limit(S, cfg, case["free"], cap=7)
    try:
        rows, imfs, residue = decompose(make(cfg), S, T, free)
    except ValueError:
        if cfg.get("extrema_detection") != "parabol":
            raise
        rec.skip("ill-defined parabolic knots")  # Known finding of C01
    describe(rec, case, imfs)
    rec.mark(len(imfs) >= 2)
    if free > 0:
        require(len(imfs) <= free, "{} IMFs for max_imf={}", len(imfs), free)
    tol = 1e-10 * scale_of(S, imfs)
    limits = sorted({1, 2, 3, max(1, len(imfs) - 1), len(imfs), len(imfs) + 1, len(imfs) + 4} - {0})
    for k in limits:
        if free > 0 and k > free:
            continue
        krows, kimfs, kres = decompose(make(cfg), S, T, k)
        m = len(kimfs)
        require(len(krows) <= k + 1, "{} rows for max_imf={}", len(krows), k)
        require(m <= k, "{} IMFs for max_imf={}", m, k)
        require(m <= len(imfs), "max_imf={} gives more IMFs ({}) than max_imf={} ({})", k, m, free, len(imfs))
        require(same(kimfs, imfs[:m], tol), "IMFs under limit {} aren't the first ones of limit {}: {}", k, free, gap(kimfs, imfs[:m]))
        if k > len(imfs):
            # The last one might be dropped if a limit was met
            require(m == len(imfs) or free > 0, "only {} of {} IMFs with a larger limit {}", m, len(imfs), k)
        elif m < k:
            require(m == k - 1, "only {} IMFs for max_imf={} when there are {}", m, k, len(imfs))
            if cfg.get("extrema_detection", "simple") == "simple" and not cfg.get("FIXE"):
                last = imfs[m]
                ext = ref.extrema_simple(last)
                if "MAX_ITERATION" not in cfg:
                    require(
                        len(ext[0]) + len(ext[1]) <= 2,
                        "IMF {} with {} extrema isn't given under its limit",
                        m + 1,
                        len(ext[0]) + len(ext[1]),
                    )
            rec.label("dropped")
        rec.label("limited")


def unlimited(case, rec):
    """Non-positive max_imf means no limit."""
    S, T = build(case)
    cfg = case["cfg"]
    if safe_limit(S, cfg, -1) > 0:
        rec.skip("threshold below rounding errors")
    a = decompose(make(cfg), S, T, -1)
    b = decompose(make(cfg), S, T, case["k"])
    c = decompose(make(cfg), S, T, 1000)
    rec.mark(len(a[1]) >= 1)
    for x, k in ((b, case["k"]), (c, 1000)):
        require(same(a[0], x[0], 1e-10 * scale_of(S, a[0])), "max_imf={} isn't the same as no limit: {}", k, gap(a[0], x[0]))
    # The default
    d = make(cfg).emd(S, T)
    require(same(a[0], d, 1e-10 * scale_of(S, a[0])), "default max_imf isn't 'no limit'")


def shape(case, rec):
    """All sorts of (also very short, long or large) signals."""
    S, T = build(case)
    cfg = case["cfg"]
    k = safe_limit(S, cfg, case["max_imf"])
    keep = S.copy()
    rows, imfs, residue = decompose(make(cfg), S, T, k)
    rec.mark(len(rows) >= 1)
    rec.label("n:" + ("2-3" if len(S) < 4 else "4-15" if len(S) < 16 else "16+"))
    require(len(rows) - len(imfs) in (0, 1), "{} rows for {} IMFs", len(rows), len(imfs))
    if k > 0:
        require(len(imfs) <= k and len(rows) <= k + 1, "{} rows for max_imf={}", len(rows), k)
    if np.any(np.abs(keep.astype(float)) > 1e-7):
        require(len(rows) >= 1, "no rows for a non-zero signal")
    require(np.array_equal(keep, S), "signal was modified")


PROP = Prop(
    "C02",
    "at least two IMFs (prefix), one IMF (no limit) or one row (shape)",
    [
        Sub("prefix", st.builds(lambda c, f: dict(c, free=f), emd_cases(4, 200, detection=("simple",), amps=[1.0, 100.0, 1e-3]), st.sampled_from([-1, -1, -1, 4, 9])), prefix, quick=2000),
        Sub(
            "prefix_long",
            st.builds(lambda c, f: dict(c, free=f), emd_cases(sig=gen.long_signals(400, 3000), amps=[1.0, 100.0], modes=("fixe", "fixe", "default"), maxit=False), st.sampled_from([-1, 3, 9])),
            prefix,
            quick=160,
        ),
        Sub("prefix_parabol", st.builds(lambda c, f: dict(c, free=f), emd_cases(8, 120, osc=True, detection=("parabol",), amps=[1.0, 100.0]), st.integers(1, 5)), prefix, quick=500),
        Sub("no_limit", st.builds(lambda c, k: dict(c, k=k), emd_cases(4, 200), st.sampled_from([0, 0, -1, -2, -100])), unlimited, quick=800),
        Sub("shape", emd_cases(2, 400, dtypes=["float64", "float64", "float32", "int16", "uint8"]), shape, quick=2500),
        Sub("shape_long", emd_cases(sig=gen.long_signals(), dtypes=["float64", "float64", "float32", "int16", "uint8"], maxit=False), shape, quick=200),
        Sub("shape_raw", st.builds(lambda s, c, k: {"S": s, "cfg": c, "max_imf": k}, gen.raw_signals(2, 14), gen.configs(), gen.max_imfs), shape, quick=2500),
    ],
)
