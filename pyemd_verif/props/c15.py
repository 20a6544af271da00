"""C15 - EEMD's reproducibility and independent noise, sequentially and in parallel."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import gap, make, process_ids, processes_end, same, scale_of, start_method
from ..core import Prop, Sub, require
from ..stubs import Echo, Uneven


def build(case, parallel, real, **kw):
    from PyEMD import EEMD

    cfg = dict(case["cfg"]) if real else {}
    if parallel:
        cfg.update(parallel=True, processes=case["processes"])
    else:
        cfg.update(parallel=False)
    obj = EEMD(trials=case["trials"], noise_width=case["width"], noise_kind=case["kind"], separate_trends=case["trends"], ext_EMD=None if real else Uneven() if parallel else Echo(), **dict(cfg, **kw))
    return obj


def noises(obj, S):
    a = np.asarray(obj.all_imfs[0])
    require(a.ndim == 2 and a.shape[1] == len(S), "all_imfs[0] has shape {}", a.shape)
    return a - S


def run(obj, case, S, T, progress=False):
    return np.array(obj.eemd(S, T, max_imf=case["max_imf"], progress=progress))


def seeded(case, rec):
    """Same seed, same result: again, on another instance, with progress, called in the other way."""
    S = gen.signal(case["S"])
    T = gen.timeline(case["T"], len(S))
    real = case["real"]
    one = build(case, False, real)
    for _ in range(case["before"]):
        run(one, case, S, T)
    one.noise_seed(case["seed"])
    a = run(one, case, S, T)
    one.noise_seed(case["seed"])
    b = run(one, case, S, T, progress=case["progress"])
    two = build(case, False, real)
    two.noise_seed(case["seed"])
    c = np.array(two(S, T, max_imf=case["max_imf"]))
    rec.mark(case["trials"] >= 2 and a.size > 0)
    require(same(a, b), "second run with the same seed differs{}: {}", " (progress)" if case["progress"] else "", gap(a, b))
    require(same(a, c), "another instance with the same seed differs: {}", gap(a, c))
    # Seeds matter
    if not real and np.ptp(S) > 0:
        two.noise_seed(case["seed"] + 1)
        run(two, case, S, T)
        require(not np.any(np.all(noises(two, S) == noises(one, S), axis=1)), "two seeds give the same noise")


def independent(case, rec):
    """Noise differs between trials and between runs; unseeded instances differ, too."""
    S = gen.signal(case["S"])
    T = gen.timeline(case["T"], len(S))
    if np.ptp(S) == 0:
        rec.skip("no noise for a constant signal")
    obj = build(case, case["parallel"], False)
    if case["seed"] % 3:
        obj.noise_seed(case["seed"])
    alls = []
    for _ in range(2):
        run(obj, case, S, T)
        alls.append(noises(obj, S))
    other = build(case, case["parallel"], False)
    run(other, case, S, T)
    alls.append(noises(other, S))
    rec.mark(case["trials"] >= 2)
    rec.label("parallel" if case["parallel"] else "sequential")
    x = np.concatenate(alls)
    require(len(x) == 3 * case["trials"], "{} trials in three runs of {}", len(x), case["trials"])
    for i in range(len(x)):
        for j in range(i):
            require(not np.array_equal(x[i], x[j]), "trials {} and {} (of three runs) have the same noise", j, i)
    n = x.shape[1]
    if n >= 100:
        x = x - x.mean(axis=1, keepdims=True)
        x /= np.sqrt((x**2).sum(axis=1, keepdims=True))
        c = np.abs(x @ x.T - np.eye(len(x)))
        require(np.max(c) < 7.5 / np.sqrt(n), "noises of two trials are correlated ({:.2f})", float(np.max(c)))


def schedules(case, rec):
    """Parallel equals sequential for any number of processes."""
    S = gen.signal(case["S"])
    T = gen.timeline(case["T"], len(S))
    real = case["real"]
    seq = build(case, False, real)
    seq.noise_seed(case["seed"])
    par = build(case, True, real)
    par.noise_seed(case["seed"])
    running = process_ids()
    for k in range(1 + case["before"]):
        a = run(seq, case, S, T)
        b = run(par, case, S, T, progress=case["progress"])
        require(same(a, b, 1e-12 * scale_of(a)), "parallel ({} processes) differs from sequential in run {}: {}", case["processes"], k + 1, gap(a, b))
        require(list(seq.all_imfs) == list(par.all_imfs), "components of the ensembles: {} and {}", list(par.all_imfs), list(seq.all_imfs))
        for j in seq.all_imfs:
            x, y = np.asarray(seq.all_imfs[j]), np.asarray(par.all_imfs[j])
            require(same(x, y, 1e-12 * scale_of(a, x)), "trials of component {} differ between parallel and sequential runs: {}", j, gap(x, y))
        require(list(seq.ensemble_count()) == list(par.ensemble_count()), "ensemble counts differ")
        require(same(np.asarray(seq.ensemble_std()), np.asarray(par.ensemble_std()), 1e-9 * scale_of(a)), "ensemble std differ")
    processes_end(running)
    rec.mark(case["trials"] >= 2 and a.size > 0)
    rec.label("processes:%s" % case["processes"], "real" if real else "echo")


def started(case, rec):
    """However processes are started."""
    with start_method(case["start"]):
        schedules(case, rec)
    rec.label("start:" + case["start"])


BASE = {
    "T": gen.timelines(),
    "trials": gen.mostly(st.integers(1, 9), st.integers(10, 60), 5),
    "width": st.sampled_from([0.05, 0.2, 1.0]),
    "kind": st.sampled_from(["normal", "uniform"]),
    "max_imf": st.sampled_from([-1, 1, 2, 3]),
    "trends": st.booleans(),
    "seed": st.integers(0, 2**32 - 2),
    "real": st.booleans(),
    "before": st.integers(0, 2),
    "progress": st.booleans(),
    "processes": st.sampled_from([1, 2, 3, 4, 5, None]),
    "cfg": gen.configs(modes=("fixe",), thr=False, maxit=False),
}
LONGISH = st.one_of(gen.oscillating(8, 40), st.builds(lambda n, s: {"k": "rnd", "n": n, "d": "walk", "q": 0, "s": s}, st.integers(100, 200), gen.seeds))

PROP = Prop(
    "C15",
    "at least two trials",
    [
        Sub("seeded", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 50), trials=st.integers(1, 5))), seeded, quick=800),
        Sub("independent", st.fixed_dictionaries(dict(BASE, S=LONGISH, parallel=st.just(False))), independent, quick=800),
        Sub("independent_parallel", st.fixed_dictionaries(dict(BASE, S=LONGISH, parallel=st.just(True))), independent, quick=60, thorough=800),
        Sub("schedules", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 60), before=st.integers(0, 1))), schedules, quick=120, thorough=1500),
        Sub(
            "started",
            st.fixed_dictionaries(
                dict(BASE, S=gen.oscillating(8, 40), trials=st.integers(2, 5), before=st.just(0), real=st.sampled_from([True, True, False]), processes=st.sampled_from([1, 2]), start=st.sampled_from(["spawn", "forkserver"]))
            ),
            started,
            quick=8,
            thorough=400,
        ),
    ],
)
