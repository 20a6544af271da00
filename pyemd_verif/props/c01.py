"""C01 - completeness of EMD."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import build, decompose, describe, emd_cases, make, rounding, safe_limit
from ..core import Prop, Sub, require

DTYPES = ["float64"] * 5 + ["float32"] + gen.INT_DTYPES


def check(case, rec):
    S, T = build(case)
    cfg = case["cfg"]
    emd = make(cfg)
    x = S.astype(float)
    rows, imfs, residue = decompose(emd, S, T, safe_limit(S, cfg, case["max_imf"]))
    describe(rec, case, imfs)
    rec.label("dtype:" + str(S.dtype))
    rec.mark(len(imfs) >= 1)
    bound = rounding(S, rows)
    err = float(np.max(np.abs(rows.sum(axis=0) - x)))
    require(err <= bound + 1.01e-8, "rows don't add up to the signal: error {:.3g}, bound {:.3g} + 1e-8", err, bound)
    err = float(np.max(np.abs(imfs.sum(axis=0) + residue - x)))
    bound = rounding(S, np.vstack((imfs, residue)))
    require(err <= bound, "IMFs and residue don't add up to the signal: error {:.3g}, bound {:.3g}", err, bound)


def small(case, rec):
    """Components much smaller than the signal may not get lost."""
    S, T = build(case)
    n = len(S)
    t = np.linspace(-1, 1, n)
    big = 3.0 * np.sin(2 * np.pi * case["f"] * t)
    S = big + case["eps"] * (S / max(np.max(np.abs(S)), 1e-300)) + case["eps"] * case["slope"] * t
    emd = make(dict(case["cfg"], range_thr=case["thr"], total_power_thr=case["thr"]))
    rows, imfs, residue = decompose(emd, S, None, safe_limit(S, dict(case["cfg"], range_thr=case["thr"], total_power_thr=case["thr"]), case["max_imf"]))
    rec.mark(len(imfs) >= 1)
    err = float(np.max(np.abs(rows.sum(axis=0) - S)))
    bound = rounding(S, rows)
    require(err <= bound + 1.01e-8, "rows don't add up to the signal: error {:.3g}, bound {:.3g} + 1e-8", err, bound)
    rec.label("residue:" + ("returned" if len(rows) > len(imfs) else "negligible"))


def pure_tones(case, rec):
    """Short decompositions with tiny remainders: amplitude around which the residue is (not) returned."""
    S = np.array(case["v"], dtype=float) * case["amp"]
    rows, imfs, residue = decompose(make(case["cfg"]), S, None, safe_limit(S, case["cfg"], -1))
    rec.mark(len(rows) > 0)
    err = float(np.max(np.abs(rows.sum(axis=0) - S))) if len(S) else 0.0
    require(err <= rounding(S, rows) + 1.01e-8, "rows don't add up to the signal: error {:.3g}", err)


SUBS = [
    Sub("sum", emd_cases(2, 300, detection=("simple",), dtypes=DTYPES), check, quick=4000),
    Sub("sum_long", emd_cases(detection=("simple",), dtypes=DTYPES, sig=gen.long_signals(), limits=st.sampled_from([-1, 1, 2, 4])), check, quick=300),
    Sub("sum_parabol", emd_cases(8, 120, osc=True, detection=("parabol",), amps=[1.0, 100.0]), None, quick=600),
    Sub(
        "small_parts",
        st.builds(
            lambda c, f, e, s, t: dict(c, f=f, eps=e, slope=s, thr=t),
            emd_cases(30, 200, thr=False, amps=None, timeline=False),
            gen.floats(1, 12, 1),
            st.sampled_from([1e-2, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8]),
            gen.floats(-2, 2, 1),
            st.sampled_from([1e-3, 1e-5, 1e-7, 1e-9]),
        ),
        small,
        quick=1500,
    ),
    Sub(
        "tiny",
        st.fixed_dictionaries(
            {
                "v": st.lists(st.integers(-9, 9), min_size=2, max_size=12),
                "amp": st.sampled_from([1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 3e-8]),
                "cfg": gen.configs(),
            }
        ),
        pure_tones,
        quick=1500,
    ),
]


def check_parabol(case, rec):
    from .. import ref

    S, T = build(case)
    cfg = case["cfg"]
    if case.get("known_finding"):
        return check(case, rec)
    try:
        ref.emd(S, T, min(case["max_imf"], 2) if case["max_imf"] > 0 else 2, cfg, budget=300)
    except ref.Degenerate as e:
        rec.skip(str(e))
    check(dict(case, max_imf=min(case["max_imf"], 2) if case["max_imf"] > 0 else 2), rec)


SUBS[2].check = check_parabol

PROP = Prop("C01", "the decomposition has at least one IMF (or, for tiny signals, one row)", SUBS)
