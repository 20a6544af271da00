"""C17 - CEEMDAN: completeness and limits."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import AMPS, array, gap, make, pair, same
from ..core import Prop, Sub, require
from ..stubs import Smoother


def build(case, **kw):
    from PyEMD import CEEMDAN

    opts = dict(case["opts"])
    if case.get("parallel"):
        opts.update(parallel=True, processes=2)
    else:
        opts.update(parallel=False)
    if case["stub"]:
        opts["ext_EMD"] = Smoother(stop=case["stop"])
    else:
        opts["ext_EMD"] = make(case["cfg"])
    obj = CEEMDAN(**dict(opts, **kw))
    obj.noise_seed(case["seed"])
    return obj


def tolerance(S, rows):
    eps = float(np.finfo(S.dtype).eps) if S.dtype.kind == "f" else 2.3e-16
    total = np.max(np.abs(S.astype(float))) + float(np.max(np.sum(np.abs(rows), axis=0)))
    return (64 + 4 * len(rows)) * eps * (total + 1e-300)


def complete(case, rec):
    S = gen.signal(case["S"]) * case["amp"] + case["off"]
    S = gen.with_layout(gen.as_dtype(S, case["dtype"]), case["layout"])
    T = gen.timeline(case["T"], len(S))
    keep = S.copy()
    k = case["max_imf"]
    obj = build(case)
    rows = array(obj.ceemdan(S, T, k), 2, "output of CEEMDAN", len(S))
    rec.mark(len(rows) > 2 or (k == 1 and len(rows) == 2 and np.any(rows[0])))
    rec.label("rows:%d" % min(len(rows), 9), "stub" if case["stub"] else "real", "limit:%d" % k)
    require(np.array_equal(S, keep), "signal was modified")
    require(len(rows) >= 1, "nothing returned")
    tol = tolerance(S, rows)
    err = float(np.max(np.abs(np.sum(rows, axis=0) - S)))
    require(err <= tol, "components don't add up to the signal: {:.3g} (allowed {:.3g}, amplitude {:.3g})", err, tol, np.max(np.abs(S)))
    if k > 0:
        require(len(rows) <= k + 1, "{} rows for max_imf={}", len(rows), k)
    imfs, residue = pair(obj.get_imfs_and_residue(), "get_imfs_and_residue()")
    imfs, residue = array(imfs, 2, "IMFs", len(S)), array(residue, 1, "residue", len(S))
    err = float(np.max(np.abs(np.sum(imfs, axis=0) + residue - S)))
    require(err <= tol, "IMFs and the residue don't add up to the signal: {:.3g}", err)


def prefix(case, rec):
    """Components don't depend on the limit."""
    S = gen.signal(case["S"]) * case["amp"] + case["off"]
    T = gen.timeline(case["T"], len(S))
    full = array(build(case).ceemdan(S, T, case["large"]), 2, "output of CEEMDAN", len(S))
    n = len(full) - 1
    rec.mark(n >= 2)
    rec.label("components:%d" % min(n, 9))
    for k in case["small"]:
        if 0 < case["large"] < k:
            continue
        rows = array(build(case).ceemdan(S, T, k), 2, "output of CEEMDAN", len(S))
        m = min(k, n)
        require(len(rows) == m + 1, "{} components with max_imf={} and {} with max_imf={}", len(rows) - 1, k, n, case["large"])
        require(same(rows[:m], full[:m], 1e-12 * np.max(np.abs(full))), "components with max_imf={} and {} differ: {}", k, case["large"], gap(rows[:m], full[:m]))
        rest = np.sum(full[m:], axis=0)
        require(same(rows[m], rest, tolerance(S, full) + 1e-12 * np.max(np.abs(full))), "the last row with max_imf={} isn't the remainder: {}", k, gap(rows[m], rest))


OPTS = st.fixed_dictionaries(
    {
        "trials": st.integers(1, 5),
        "epsilon": st.sampled_from([0.005, 0.005, 0.05, 0.3]),
        "noise_scale": st.sampled_from([1.0, 1.0, 0.1, 3.0]),
        "noise_kind": st.sampled_from(["normal", "uniform"]),
        "beta_progress": st.booleans(),
        "range_thr": st.sampled_from([0.01, 0.01, 0.2, 1e-3]),
        "total_power_thr": st.sampled_from([0.05, 0.05, 1.0]),
    }
)
MANY = st.builds(lambda o, t: dict(o, trials=t), OPTS, st.integers(6, 60))
BASE = {
    "T": gen.timelines(),
    "opts": OPTS,
    "seed": st.integers(0, 2**32 - 1),
    "cfg": gen.configs(modes=("default", "default", "fixe", "fixe_h"), thr=False, maxit=False),
    "stop": st.sampled_from([0.0, 0.1]),
    "amp": st.sampled_from(AMPS),
    "off": st.sampled_from([0.0, 0.0, 1.0, -3.5, 100.0]),
    "max_imf": st.sampled_from([-1, -1, 0, 1, 2, 3, 4, 6]),
    "dtype": st.sampled_from(["float64"] * 6 + ["float32", "float16", "int64", "int32", "int16", "uint8"]),
    "layout": st.sampled_from(gen.LAYOUTS),
}
LARGE = {"large": st.sampled_from([-1, -1, -1, 2, 3, 5]), "small": st.lists(st.sampled_from([1, 1, 2, 2, 3, 4, 7]), min_size=1, max_size=2, unique=True)}
EX = {"T": {"k": "none"}, "opts": {"trials": 2}, "seed": 0, "cfg": {}, "stop": 0.0, "amp": 1.0, "off": 0.0, "max_imf": -1, "dtype": "float64", "layout": "plain", "stub": False}

PROP = Prop(
    "C17",
    "CEEMDAN gives at least two components (or one when limited to one) in addition to the remainder",
    [
        Sub(
            "real",
            st.fixed_dictionaries(dict(BASE, S=gen.mostly(gen.oscillating(8, 160), gen.signals(2, 60)), stub=st.just(False))),
            complete,
            quick=1600,
            examples=[dict(EX, S={"k": "raw", "v": v}) for v in ([3.0] * 10, [0.0] * 5, [1.0, 2.0], [0.0, 0.0, 1.0, 0.0, 0.0])],
        ),
        Sub("stub", st.fixed_dictionaries(dict(BASE, S=gen.signals(2, 300), stub=st.just(True))), complete, quick=1200),
        Sub("stub_long", st.fixed_dictionaries(dict(BASE, opts=MANY, S=gen.long_signals(), stub=st.just(True))), complete, quick=160),
        Sub("real_long", st.fixed_dictionaries(dict(BASE, S=gen.long_signals(400, 2000), stub=st.just(False), max_imf=st.integers(1, 3))), complete, quick=100),
        Sub("prefix", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 80), stub=st.just(False), **LARGE)), prefix, quick=800),
        Sub("prefix_stub", st.fixed_dictionaries(dict(BASE, S=gen.signals(4, 200), stub=st.just(True), **LARGE)), prefix, quick=600),
        Sub(
            "parallel",
            st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 60), stub=st.booleans(), parallel=st.just(True))),
            complete,
            quick=40,
            thorough=500,
        ),
    ],
)
