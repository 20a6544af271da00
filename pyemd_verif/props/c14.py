"""C14 - EEMD is the ensemble average."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, gap, make, same, scale_of
from ..core import Prop, Sub, require
from ..stubs import Echo, Ragged, Recorder


def statistics(obj, out, groups, n, rec):
    """all_imfs & co. against groups: list (per order) of lists of components."""
    total = scale_of(*[np.array(g) for g in groups]) if groups else 1.0
    tol = 1e-12 * total
    if not groups:
        require(np.size(out) == 0, "components out of nothing")
        return
    out = array(out, 2, "EEMD's output", n)
    require(len(out) == len(groups), "{} components instead of {}", len(out), len(groups))
    ai = obj.all_imfs
    require(isinstance(ai, dict) and sorted(ai) == list(range(len(groups))), "all_imfs has keys {}, expected 0..{}", sorted(ai), len(groups) - 1)
    count = list(obj.ensemble_count())
    mean, std = array(obj.ensemble_mean(), 2, "ensemble_mean()", n), array(obj.ensemble_std(), 2, "ensemble_std()", n)
    require(count == [len(g) for g in groups], "ensemble_count() is {} instead of {}", count, [len(g) for g in groups])
    require(len(mean) == len(groups) and len(std) == len(groups), "wrong number of rows in statistics")
    for k, g in enumerate(groups):
        g = np.array(g)
        a = array(ai[k], 2, "all_imfs[%d]" % k, n)
        require(same(a, g, tol), "all_imfs[{}] isn't what trials gave: {}", k, gap(a, g))
        m = g.sum(axis=0) / len(g)
        s = np.sqrt(np.mean((g - m) ** 2, axis=0))
        require(same(out[k], m, tol), "component {} isn't the mean over the trials: {}", k, gap(out[k], m))
        require(same(mean[k], m, tol), "ensemble_mean()[{}] isn't the mean over the trials: {}", k, gap(mean[k], m))
        # Strict where values are large compared to their spread
        exact = 1e-6 * float(np.max(s)) + 1e-7 * min(scale_of(g), 30.0) + 16 * len(g) * 2.3e-16 * scale_of(g)
        require(same(std[k], s, exact), "ensemble_std()[{}] isn't the standard deviation: {}", k, gap(std[k], s))
    rec.label("ragged" if len({len(g) for g in groups}) > 1 else "even")


def group(trials, trends=None):
    out = []
    for rows in trials:
        for k, r in enumerate(rows):
            if k == len(out):
                out.append([])
            out[k].append(r)
    if trends is not None:
        out.append(list(trends))
    return out


def passed(calls, case, S, T, trials):
    require(len(calls) == trials, "{} decompositions for {} trials", len(calls), trials)
    for s, t, m in calls:
        require(s.shape == S.shape, "a trial's signal has shape {}", s.shape)
        require(m == case["max_imf"], "limit passed to the decomposition is {} instead of {}", m, case["max_imf"])
        want = np.arange(len(S)) if T is None else T
        require(t is None and T is None or (t is not None and np.array_equal(np.asarray(t, dtype=float), np.asarray(want, dtype=float))), "time array wasn't passed on")


def eemd(case, ext, **kw):
    from PyEMD import EEMD

    obj = EEMD(trials=case["trials"], noise_width=case["width"], ext_EMD=ext, parallel=False, separate_trends=case["trends"], noise_kind=case["kind"], **kw)
    obj.noise_seed(case["seed"])
    return obj


def ragged(case, rec):
    S = gen.signal(case["S"])
    T = gen.timeline(case["T"], len(S))
    ext = Ragged(case["counts"])
    obj = eemd(case, ext)
    for run in range(1 + case["again"]):
        ext.calls.clear()
        ext.given.clear()
        out = obj.eemd(S, T, max_imf=case["max_imf"])
        passed(ext.calls, case, S, T, case["trials"])
        trends = None
        if case["trends"]:
            trends = [np.full(len(S), 0.5 * len(g)) + np.sin(np.arange(len(S)) + i + 1) for i, g in enumerate(ext.given)]
        statistics(obj, out, group(ext.given, trends), len(S), rec)
    rec.mark(case["trials"] >= 2 and max(case["counts"]) >= 1)
    rec.label("trends" if case["trends"] else "plain")


def real(case, rec):
    S = gen.signal(case["S"]) + case.get("off", 0.0)
    T = gen.timeline(case["T"], len(S))
    ext = Recorder(make(case["cfg"]))
    obj = eemd(case, ext)
    out = obj.eemd(S, T, max_imf=case["max_imf"])
    passed(ext.calls, case, S, T, case["trials"])
    if case["trends"]:
        groups = group([x[0] for x in ext.trends], [x[1] for x in ext.trends])
    else:
        groups = group(ext.given)
    statistics(obj, out, groups, len(S), rec)
    rec.mark(case["trials"] >= 2 and len(groups) >= 2)
    # Each trial has its own noise
    if case["width"] > 0 and np.ptp(S) > 0:
        for i in range(1, len(ext.calls)):
            require(not np.array_equal(ext.calls[i][0], ext.calls[i - 1][0]), "two trials have the same noise")


def noiseless(case, rec):
    """Without noise all trials, and so the ensemble, are the plain EMD."""
    from PyEMD import EEMD

    S = gen.signal(case["S"])
    T = gen.timeline(case["T"], len(S))
    obj = EEMD(trials=case["trials"], noise_width=0.0, parallel=False, separate_trends=case["trends"], **case["cfg"])
    out = obj(S, T, max_imf=case["max_imf"])
    emd = make(case["cfg"])
    rows = emd.emd(S, T, case["max_imf"])
    if case["trends"]:
        imfs, trend = emd.get_imfs_and_trend()
        rows = np.vstack((imfs, trend))
    rec.mark(len(rows) >= 2)
    if len(rows) == 0:
        require(np.size(out) == 0, "components out of nothing")
        return
    out = array(out, 2, "EEMD's output", len(S))
    require(same(out, rows, 1e-12 * scale_of(rows)), "EEMD without noise isn't EMD: {}", gap(out, rows))
    require(list(obj.ensemble_count()) == [case["trials"]] * len(rows), "ensemble_count() is {}", obj.ensemble_count())


def parallel(case, rec):
    """All that's passed can be read from what comes back, in parallel as well."""
    from PyEMD import EEMD

    S = gen.signal(case["S"])
    T = gen.timeline(case["T"], len(S))
    obj = EEMD(trials=case["trials"], noise_width=case["width"], ext_EMD=Echo(), parallel=True, processes=case["processes"], separate_trends=case["trends"])
    obj.noise_seed(case["seed"])
    out = obj.eemd(S, T, max_imf=case["max_imf"])
    ai = obj.all_imfs
    require(isinstance(ai, dict) and len(ai) >= 3, "all_imfs has {} orders", len(ai))
    noisy = array(ai[0], 2, "all_imfs[0]", len(S))
    require(len(noisy) == case["trials"], "{} trials instead of {}", len(noisy), case["trials"])
    echo = Echo()
    trials = [echo.rows(s, T, case["max_imf"]) for s in noisy]
    trends = [echo.trend(r) for r in trials] if case["trends"] else None
    statistics(obj, out, group(trials, trends), len(S), rec)
    rec.mark(case["trials"] >= 2)


BASE = {
    "T": gen.timelines(),
    "trials": st.integers(1, 7),
    "width": st.sampled_from([0.05, 0.2, 1.0, 0.001]),
    "kind": st.sampled_from(["normal", "uniform"]),
    "max_imf": st.sampled_from([-1, -1, 1, 2, 3]),
    "trends": st.booleans(),
    "seed": st.integers(0, 10**6),
}

PROP = Prop(
    "C14",
    "at least two trials and (real EMD) two orders",
    [
        Sub("ragged", st.fixed_dictionaries(dict(BASE, S=gen.signals(2, 30), counts=st.lists(st.integers(0, 5), min_size=1, max_size=7), again=st.integers(0, 1))), ragged, quick=2500),
        Sub("many", st.fixed_dictionaries(dict(BASE, S=st.one_of(gen.signals(2, 30), gen.long_signals(400, 3000)), trials=st.integers(8, 160), counts=st.lists(st.integers(0, 12), min_size=1, max_size=30), again=st.integers(0, 1))), ragged, quick=200),
        Sub("real", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 60), off=st.sampled_from([0.0, 0.0, -3.0, 1e3, 1e6]), trials=st.integers(1, 5), cfg=gen.configs(modes=("fixe", "fixe_h", "default"), maxit=False))), real, quick=600),
        Sub("noiseless", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(4, 80), trials=st.integers(1, 4), cfg=gen.configs(thr=False, maxit=False))), noiseless, quick=800),
        Sub("noiseless_long", st.fixed_dictionaries(dict(BASE, S=gen.long_signals(400, 2000), trials=st.integers(1, 3), cfg=gen.configs(thr=False, maxit=False))), noiseless, quick=80),
        Sub("parallel", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 20), trials=gen.mostly(st.integers(1, 7), st.integers(8, 60), 2), processes=st.sampled_from([1, 2, 3, None]))), parallel, quick=80, thorough=800),
    ],
)
