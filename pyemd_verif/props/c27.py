"""C27 - JIT-compiled EMD. Compilation takes most of the time of this check."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, stubs
from ..common import array, gap, rounding, safe_limit, same, scale_of
from ..common import make as make_emd
from ..core import Prop, Sub, require

KINDS = ["cubic", "akima", "linear", "slinear", "quadratic"]
KEYS = ["nbsym", "energy_ratio_thr", "std_thr", "svar_thr", "total_power_thr", "range_thr", "FIXE", "FIXE_H", "MAX_ITERATION"]


def jit():
    from PyEMD.experimental import jitemd

    return jitemd


def typed(cfg):
    conf = jit().default_emd_config.copy()
    for k in KEYS:
        if k in cfg:
            conf[k] = float(cfg[k])
    return conf


def make(cfg):
    return jit().JitEMD(config=typed(cfg), spline_kind=cfg.get("spline_kind", "cubic"), extrema_detection=cfg.get("extrema_detection", "simple"))


def warmup():
    S = np.random.RandomState(0).randn(40)
    for det in ("simple", "parabol"):
        for k in KINDS:
            make({"spline_kind": k, "extrema_detection": det, "MAX_ITERATION": 20}).emd(S, None, 2)


def timeline(spec, n):
    """Uniform positions only for simple detection: JIT version uses them as they are."""
    T = gen.timeline(spec, n)
    return None if T is None else T.astype(float)


def run(emd, S, T, lim, n):
    return array(emd.emd(S, T, lim), 2, "output of JitEMD", n)


def complete(case, rec):
    S = gen.with_layout(gen.signal(case["S"]) * case["amp"] + case["off"], case["layout"])
    n = len(S)
    T = timeline(case["T"], n)
    cfg = case["cfg"]
    lim = safe_limit(S, cfg, case["max_imf"], 6)
    emd = make(cfg)
    keep = S.copy()
    rows = run(emd, S, T, lim, n)
    require(np.array_equal(S, keep), "signal was modified")
    tol = rounding(S, rows) + 1.01e-8
    err = float(np.max(np.abs(np.sum(rows, axis=0) - S)))
    require(err <= tol, "components are off the signal by {:.3g} (tolerance {:.3g})", err, tol)
    if lim > 0:
        require(len(rows) <= lim + 1, "{} rows with limit {}", len(rows), lim)
    mx, mn = ref.extrema_simple(S)
    if len(mx) + len(mn) < 3:
        require(len(rows) <= 1, "a trend was decomposed into {} rows", len(rows))
    else:
        rec.mark()
    imfs, trend = emd.get_imfs_and_trend()
    imfs, trend = array(imfs, 2, "IMFs", n), array(trend, 1, "trend", n)
    err = float(np.max(np.abs(np.sum(imfs, axis=0) + trend - S)))
    require(err <= 2 * tol, "IMFs and trend are off the signal by {:.3g}", err)
    # All ways to call it
    t = np.arange(n, dtype=float) if T is None else T
    spline = cfg.get("spline_kind", "cubic")
    same_rows = array(jit().emd(S, t, lim, spline, "simple", typed(cfg)), 2, "output of emd()", n)
    require(same(rows, same_rows), "the function gives another result than the class ({})", gap(rows, same_rows))
    again = array(emd(S, T, lim), 2, "output of a call", n)
    require(same(rows, again), "another call gives another result ({})", gap(rows, again))
    if T is None:
        require(same(rows, run(make(cfg), S, t, lim, n)), "default positions differ from indices")
    # Nothing is remembered or changed
    keep, kept = rows.copy(), t.copy()
    defaults = dict(jit().default_emd_config)
    conf = typed(cfg)
    before = dict(conf)
    obj = jit().JitEMD(conf, spline, cfg.get("extrema_detection", "simple"))
    run(obj, -S[::-1], T, lim, n)
    require(same(rows, run(obj, S, T, lim, n)), "result depends on what was decomposed before")
    require(same(rows, keep) and np.array_equal(t, kept), "arrays were modified")
    require(dict(conf) == before and dict(jit().default_emd_config) == defaults, "configuration was modified")
    # Defaults
    if safe_limit(S, {}, lim, 6) == lim and len(S) <= 60:
        a, b = run(jit().JitEMD(), S, T, lim, n), run(make({}), S, T, lim, n)
        c = array(jit().emd(S, t, lim), 2, "output of emd()", n)
        require(same(a, b) and same(a, c), "defaults differ from documented ones: {} {}", gap(a, b), gap(a, c))


def algorithm(case, rec):
    S = gen.signal(case["S"]) * case["amp"]
    n = len(S)
    cfg = case["cfg"]
    T = timeline(case["T"], n)
    lim = safe_limit(S, cfg, case["max_imf"], 4)
    if cfg.get("extrema_detection") == "parabol":
        if lim <= 0 or lim > 3:
            lim = 3
        if T is not None and (T[-1] - T[0]) / np.min(np.diff(T)) > 1000:
            rec.skip("long time")
        if T is not None and np.max(np.abs(T)) > 3 * (T[-1] - T[0]):
            rec.skip("large offset of time")
    try:
        want = ref.stable_emd(S, T, lim, cfg)
    except ref.Degenerate as e:
        rec.skip(str(e))
    rec.bounded()
    rows = run(make(cfg), S, T, lim, n)
    k = len(want["imfs"])
    rec.mark(k >= 1)
    rec.label("imfs:%d" % min(k, 4), "spline:" + cfg.get("spline_kind", "cubic"), "detection:" + cfg.get("extrema_detection", "simple"))
    rec.label("fixe" if cfg.get("FIXE") else "fixe_h" if cfg.get("FIXE_H") else "default")
    require(len(rows) in (k, k + 1), "{} rows instead of {} IMFs and a residue", len(rows), k)
    tol = want["tol"] * (10 if cfg.get("extrema_detection") == "parabol" else 1)
    for i in range(k):
        require(same(rows[i], want["imfs"][i], tol), "IMF {} differs from the reference by {} (tolerance {:.3g})", i + 1, gap(rows[i], want["imfs"][i]), tol)
    if len(rows) == k + 1:
        require(same(rows[k], want["residue"], tol * (1 + k)), "residue differs by {}", gap(rows[k], want["residue"]))
    else:
        require(bool(np.allclose(want["residue"], 0, atol=2e-8 + tol * (1 + k))), "the residue is missing")


def ensemble(case, rec):
    from PyEMD import CEEMDAN, EEMD

    rng = np.random.RandomState(case["s"])
    n = case["n"]
    S = np.sin(np.arange(n) * 0.4) + 0.3 * rng.randn(n)
    cfg = case["cfg"]
    trends = case["separate_trends"]
    kind = case["kind"]
    rec.mark()
    rec.label(kind + (":trends" if trends and kind == "eemd" else ""))
    if kind == "eemd":
        rec1 = stubs.Recorder(make_emd(cfg))
        out = []
        for ext in (rec1, make(cfg)):
            e = EEMD(trials=case["trials"], noise_width=case["width"], ext_EMD=ext, parallel=False, separate_trends=trends)
            e.noise_seed(case["seed"])
            out.append(array(e.eemd(S, max_imf=case["max_imf"]), 2, "EEMD with another EMD", n))
        tol = 0.0
        for x, T, lim in rec1.calls:
            try:
                tol = max(tol, ref.stable_emd(x, None, lim, cfg)["tol"])
            except ref.Degenerate as e:
                rec.skip(str(e))
        require(same(out[0], out[1], 4 * tol), "EEMD with JitEMD differs from EEMD with EMD: {} (tolerance {:.3g})", gap(*out), 4 * tol)
    else:
        out = []
        for ext in (make(cfg), make(cfg), make_emd(cfg)):
            c = CEEMDAN(trials=case["trials"], epsilon=case["width"], ext_EMD=ext, parallel=False, seed=case["seed"])
            out.append(array(c.ceemdan(S, max_imf=case["max_imf"]), 2, "CEEMDAN with another EMD", n))
        require(same(out[0], out[1]), "CEEMDAN with JitEMD isn't reproducible")
        err = float(np.max(np.abs(np.sum(out[0], axis=0) - S)))
        require(err <= rounding(S, out[0]), "CEEMDAN with JitEMD is off the signal by {:.3g}", err)
        # First component: average over trials of a single, conditioned step
        require(same(out[0][0], out[2][0], 1e-6 * scale_of(S)), "the first component of CEEMDAN with JitEMD differs: {}", gap(out[0][0], out[2][0]))


def parallel(case, rec):
    """Sequential and parallel ensembles agree."""
    from PyEMD import CEEMDAN, EEMD

    rng = np.random.RandomState(case["s"])
    n = case["n"]
    S = np.sin(np.arange(n) * 0.4) + 0.3 * rng.randn(n)
    out = []
    for par in (False, True):
        kw = {"trials": case["trials"], "ext_EMD": make(case["cfg"]), "parallel": par}
        if par:
            kw["processes"] = case["processes"]
        obj = EEMD(noise_width=case["width"], separate_trends=case["separate_trends"], **kw) if case["kind"] == "eemd" else CEEMDAN(epsilon=case["width"], **kw)
        obj.noise_seed(case["seed"])
        out.append(array(obj(S, None, max_imf=case["max_imf"]), 2, "ensemble with JitEMD", n))
    rec.mark()
    rec.label(case["kind"])
    require(same(out[0], out[1], 1e-10 * scale_of(S)), "{} with JitEMD gives another result in parallel: {}", case["kind"], gap(*out))


def history(case, rec):
    """Only the configuration and the input matter; also for copies."""
    emd = make(case["cfg"])
    kept = []
    for op in case["ops"]:
        if op["copy"] == "pickle":
            emd = pickle.loads(pickle.dumps(emd))
        elif op["copy"] == "deepcopy":
            emd = copy.deepcopy(emd)
        S = gen.signal(op["S"])
        n = len(S)
        T = timeline(op["T"], n)
        keep, tkeep = S.copy(), None if T is None else T.copy()
        lim = safe_limit(S, case["cfg"], op["max_imf"], 4)
        got = run(emd, S, T, lim, n)
        require(np.array_equal(S, keep) and (T is None or np.array_equal(T, tkeep)), "input was modified")
        want = run(make(case["cfg"]), S, T, lim, n)
        require(same(got, want), "result after a history ({}) differs from a fresh instance: {}", op["copy"], gap(got, want))
        for a, b in kept:
            require(np.array_equal(a, b), "an array returned earlier was modified")
        kept.append((got, got.copy()))
        rec.mark(len(kept) > 1 and len(got) > 1)
        rec.label("copy:" + op["copy"])


@st.composite
def configs(draw, detection=("simple",)):
    return draw(gen.configs(splines=KINDS, detection=detection))


UNIFORM = st.one_of(
    st.just({"k": "none", "a": 1.0, "b": 0.0, "s": 0}),
    st.builds(lambda k, a, b: {"k": k, "a": a, "b": b, "s": 0}, st.sampled_from(["arange", "affine"]), st.sampled_from([1.0, 0.5, 4.0]), st.sampled_from([0.0, 3.0])),
)
ANY_T = st.one_of(UNIFORM, st.builds(lambda k, s: {"k": k, "a": 1.0, "b": 0.0, "s": s}, st.sampled_from(["jitter", "int", "geo"]), st.integers(0, 10**6)))
AMP = st.sampled_from([1.0, 1.0, 20.0, 0.05])

PROP = Prop(
    "C27",
    "the signal has at least three extrema (complete), the reference finds an IMF (algorithm), any ensemble run",
    [
        Sub(
            "algorithm",
            st.fixed_dictionaries(
                {"S": st.one_of(gen.oscillating(8, 150), gen.signals(4, 150)), "cfg": configs(), "max_imf": gen.max_imfs, "T": UNIFORM, "amp": AMP}
            ),
            algorithm,
            quick=2400,
        ),
        Sub(
            "long",
            st.fixed_dictionaries({"S": gen.long_signals(400, 3000), "cfg": configs(), "max_imf": st.sampled_from([1, 2]), "T": UNIFORM, "amp": AMP}),
            algorithm,
            quick=200,
        ),
        Sub(
            "short",
            st.fixed_dictionaries({"S": gen.raw_signals(5, 20), "cfg": configs(), "max_imf": gen.max_imfs, "T": UNIFORM, "amp": AMP}),
            algorithm,
            quick=3200,
        ),
        Sub(
            "parabol",
            st.fixed_dictionaries({"S": gen.oscillating(8, 80), "cfg": configs(("parabol",)), "max_imf": gen.max_imfs, "T": ANY_T, "amp": AMP}),
            algorithm,
            quick=1200,
        ),
        Sub(
            "complete",
            st.fixed_dictionaries(
                {"S": st.one_of(gen.signals(3, 150), gen.oscillating(8, 150)), "cfg": configs(), "max_imf": gen.max_imfs, "T": ANY_T,
                 "amp": st.sampled_from([1.0, 1.0, 1e-6, 1e6]), "off": st.sampled_from([0.0, 0.0, 5.0]), "layout": st.sampled_from(["plain", "strided"])}
            ),
            complete,
            quick=1600,
        ),
        Sub(
            "ensemble",
            st.fixed_dictionaries(
                {"n": st.integers(16, 60), "s": gen.seeds, "seed": gen.seeds, "trials": st.integers(1, 4), "width": st.sampled_from([0.05, 0.2]),
                 "max_imf": st.sampled_from([1, 2, 3]), "kind": st.sampled_from(["eemd", "eemd", "ceemdan"]), "separate_trends": st.booleans(),
                 "cfg": st.builds(lambda k, f, b: {"spline_kind": k, "FIXE": f, "nbsym": b}, st.sampled_from(KINDS), st.integers(1, 3), st.integers(1, 4))}
            ),
            ensemble,
            quick=160,
        ),
        Sub(
            "parallel",
            st.fixed_dictionaries(
                {"n": st.integers(16, 60), "s": gen.seeds, "seed": gen.seeds, "trials": st.integers(2, 6), "width": st.sampled_from([0.05, 0.2]),
                 "max_imf": st.sampled_from([1, 2, 3]), "kind": st.sampled_from(["eemd", "ceemdan"]), "separate_trends": st.booleans(), "processes": st.integers(1, 3),
                 "cfg": st.builds(lambda k, f, b: {"spline_kind": k, "FIXE": f, "nbsym": b}, st.sampled_from(KINDS), st.integers(1, 3), st.integers(1, 4))}
            ),
            parallel,
            quick=32,
            thorough=400,
        ),
        Sub(
            "history",
            st.fixed_dictionaries(
                {"cfg": configs(), "ops": st.lists(
                    st.fixed_dictionaries({"S": gen.oscillating(8, 60), "T": UNIFORM, "max_imf": gen.max_imfs, "copy": st.sampled_from(["none", "none", "pickle", "deepcopy"])}), min_size=2, max_size=4)}
            ),
            history,
            quick=500,
        ),
    ],
    warmup,
)
