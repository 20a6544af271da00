"""C18 - CEEMDAN's reproducibility, sequentially and in parallel."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, gap, make, process_ids, processes_end, same, scale_of, start_method
from ..core import Prop, Sub, require
from ..stubs import Smoother
from .c17 import MANY, OPTS


def build(case, parallel=False, seed_kw=False):
    from PyEMD import CEEMDAN

    opts = dict(case["opts"], parallel=parallel)
    if parallel:
        opts["processes"] = case["processes"]
    opts["ext_EMD"] = make(case["cfg"]) if case["real"] else Smoother()
    if seed_kw:
        opts["seed"] = case["seed"]
    obj = CEEMDAN(**opts)
    if not seed_kw:
        obj.noise_seed(case["seed"])
    return obj


def run(obj, case, S, T, progress=False, call=False):
    f = obj if call else obj.ceemdan
    return np.array(array(f(S, T, max_imf=case["max_imf"], progress=progress), 2, "output of CEEMDAN", len(S)))


def signal(case):
    S = gen.signal(case["S"])
    return S, gen.timeline(case["T"], len(S))


def seeded(case, rec):
    S, T = signal(case)
    one = build(case, seed_kw=case["kw"])
    for _ in range(case["before"]):
        run(one, case, S[:: 1 + (len(S) > 30)], None)
    if case["before"] or not case["kw"]:
        one.noise_seed(case["seed"])
    a = run(one, case, S, T)
    one.noise_seed(case["seed"])
    b = run(one, case, S, T, progress=case["progress"])
    c = run(build(case, seed_kw=True), case, S, T, call=True)
    d = run(build(case), case, S, T)
    rec.mark(len(a) > 2)
    require(same(a, b), "second run with the same seed differs{}: {}", " (progress)" if case["progress"] else "", gap(a, b))
    require(same(a, c), "instance with the seed given at construction differs: {}", gap(a, c))
    require(same(a, d), "another instance with the same seed differs: {}", gap(a, d))


def noise_of(obj):
    return np.array([c[0] for c in obj.EMD.calls if c[2] == -1])


def fresh(case, rec):
    """New noise in each run, unless re-seeded."""
    S, T = signal(case)
    case = dict(case, real=False)
    one = build(case, seed_kw=case["kw"])
    alls = []
    for _ in range(2 + case["before"]):
        one.EMD.calls = []
        run(one, case, S, T)
        alls.extend(noise_of(one))
    from PyEMD import CEEMDAN

    for _ in range(2):  # Not seeded
        obj = CEEMDAN(parallel=False, ext_EMD=Smoother(), **case["opts"])
        run(obj, case, S, T)
        alls.extend(noise_of(obj))
    rec.mark()
    for i in range(len(alls)):
        for j in range(i):
            require(not np.array_equal(alls[i], alls[j]), "noises {} and {} (of {} runs) are the same", j, i, 4 + case["before"])


def schedules(case, rec):
    S, T = signal(case)
    if case["real"]:
        case = dict(case, max_imf=1)
    seq, par = build(case), build(case, parallel=True, seed_kw=case["kw"])
    running = process_ids()
    for k in range(1 + min(case["before"], 1)):
        a = run(seq, case, S, T)
        b = run(par, case, S, T, progress=case["progress"])
        require(same(a, b, 1e-10 * scale_of(a)), "parallel ({} processes) differs from sequential in run {}: {}", case["processes"], k + 1, gap(a, b))
    processes_end(running)
    rec.mark(case["opts"]["trials"] >= 2)
    rec.label("processes:%s" % case["processes"], "real" if case["real"] else "stub", "rows:%d" % min(9, len(a)))


def started(case, rec):
    """However processes are started."""
    case = dict(case, opts=dict(case["opts"], trials=max(2, case["opts"]["trials"])))
    with start_method(case["start"]):
        schedules(case, rec)
    rec.label("start:" + case["start"])


BASE = {
    "T": gen.timelines(),
    "opts": OPTS,
    "seed": st.integers(0, 2**32 - 1),
    "cfg": gen.configs(modes=("default", "fixe", "fixe_h"), thr=False, maxit=False),
    "max_imf": st.sampled_from([-1, 1, 2, 3]),
    "kw": st.booleans(),
    "before": st.integers(0, 2),
    "progress": st.booleans(),
    "real": st.booleans(),
    "processes": st.sampled_from([1, 2, 3, 4, 5, None]),
}

PROP = Prop(
    "C18",
    "seeded: at least two components; schedules: at least two trials",
    [
        Sub("seeded", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 100), real=st.just(True))), seeded, quick=800),
        Sub("seeded_stub", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 100), real=st.just(False))), seeded, quick=400),
        Sub("seeded_many", st.fixed_dictionaries(dict(BASE, opts=MANY, S=gen.oscillating(8, 600), real=st.just(False))), seeded, quick=100),
        Sub("fresh", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 60))), fresh, quick=400),
        Sub("schedules_many", st.fixed_dictionaries(dict(BASE, opts=MANY, S=gen.oscillating(8, 60))), schedules, quick=40, thorough=500),
        Sub("schedules", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 60))), schedules, quick=120, thorough=1500),
        Sub(
            "started",
            st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 40), before=st.just(0), processes=st.sampled_from([1, 2]), start=st.sampled_from(["spawn", "forkserver"]))),
            started,
            quick=16,
            thorough=300,
        ),
    ],
)
