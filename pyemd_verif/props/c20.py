"""C20 - configuration reaches the decomposition through every door."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import array, gap, make, same, scale_of
from ..core import Prop, Sub, require
from ..stubs import Echo, Smoother


def plain(cfg, S, T, max_imf, rec):
    """EMD configured by keywords; parabolic knots may be ill-defined - not the matter here."""
    try:
        return array(make(cfg).emd(S, T, max_imf), 2, "output of EMD", len(S))
    except Exception:
        if cfg.get("extrema_detection") == "parabol":
            rec.skip("ill-defined parabolic knots")
        raise


def signal(case):
    S = gen.signal(case["S"])
    return S, gen.timeline(case["T"], len(S))


def emd_doors(case, rec):
    """Keywords, attributes, explicit documented defaults; call and method; positional and named arguments."""
    from PyEMD import EMD

    S, T = signal(case)
    cfg, k = case["cfg"], case["max_imf"]
    a = plain(cfg, S, T, k, rec)
    rec.mark(len(a) > 1 and len(cfg) > 0)
    obj = EMD()
    for name in case["order"]:
        if name in cfg:
            setattr(obj, name, cfg[name])
    b = obj(S, T, k)
    require(same(a, b), "EMD configured by attributes differs: {}", gap(a, b))
    b = EMD(**ref.full_config(cfg)).emd(S, T=T, max_imf=k)
    require(same(a, b), "EMD with documented defaults given explicitly differs: {}", gap(a, b))
    rest = {n: v for n, v in cfg.items() if n not in ("spline_kind", "nbsym")}
    b = EMD(cfg.get("spline_kind", "cubic"), cfg.get("nbsym", 2), **rest)(S=S, T=T, max_imf=k)
    require(same(a, b), "EMD with positional options differs: {}", gap(a, b))
    if k == -1:
        b = EMD(**cfg)(S, T)
        require(same(a, b), "max_imf=-1 differs from the default: {}", gap(a, b))
    if T is None:
        b = EMD(**cfg).emd(S, None, k)
        require(same(a, b), "passing T=None differs: {}", gap(a, b))


def eemd_doors(case, rec):
    from PyEMD import EEMD

    S, T = signal(case)
    cfg, k = case["cfg"], case["max_imf"]
    a = plain(cfg, S, T, k, rec)
    if not len(a):
        rec.skip("nothing to decompose")
    rec.mark(len(a) > 1 and len(cfg) > 0)
    tol = 1e-13 * scale_of(a)
    trials = case["trials"]
    objs = [("keywords", EEMD(trials=trials, noise_width=0, parallel=False, **cfg))]
    objs.append(("ext_EMD", EEMD(trials, 0.0, make(cfg), False)))
    objs.append(("ext_EMD and other keywords", EEMD(trials, 0.0, make(cfg), False, **case["other"])))
    late = EEMD()
    late.trials, late.noise_width, late.parallel = trials, 0.0, False
    for name in case["order"]:
        if name in cfg:
            setattr(late.EMD, name, cfg[name])
    objs.append(("attributes", late))
    for what, obj in objs:
        obj.noise_seed(case["seed"])
        b = obj(S, T, k) if case["call"] else obj.eemd(S, T, max_imf=k, progress=case["progress"])
        require(same(a, b, tol), "EEMD without noise, configured by {}, differs from EMD: {}", what, gap(a, b))
        counts = list(obj.ensemble_count())
        require(counts == [trials] * len(a), "EEMD configured by {}: {} components in ensembles, not {} trials", what, counts, trials)
    # The same with noise and separated trends
    opts = dict(trials=trials, noise_width=case["width"], noise_kind=case["kind"], separate_trends=case["trends"], parallel=False)
    outs = []
    late.noise_width, late.noise_kind, late.separate_trends = case["width"], case["kind"], case["trends"]
    for what, obj in (("keywords", EEMD(**dict(opts, **cfg))), ("ext_EMD", EEMD(ext_EMD=make(cfg), **opts)), ("attributes", late)):
        obj.noise_seed(case["seed"])
        outs.append((what, np.array(obj.eemd(S, T, k))))
    for what, b in outs[1:]:
        require(same(outs[0][1], b), "EEMD configured by {} and by {} differ: {}", outs[0][0], what, gap(outs[0][1], b))


def ceemdan_doors(case, rec):
    from PyEMD import CEEMDAN

    S, T = signal(case)
    cfg, k = case["cfg"], case["max_imf"]
    std = np.std(S)
    if std <= 1e-9 * np.max(np.abs(S)):
        rec.skip("constant signal")
    a = plain(cfg, S / std, T, 1, rec)
    opts = dict(case["copts"], trials=case["trials"], noise_kind=case["kind"])
    own = {n: v for n, v in opts.items() if n in ("range_thr", "total_power_thr")}
    emd_cfg = dict(cfg, **own)
    a = plain(emd_cfg, S / std, T, 1, rec)
    outs = []
    first = CEEMDAN(parallel=False, seed=case["seed"], **dict(opts, **cfg))
    ext = CEEMDAN(parallel=False, seed=case["seed"], ext_EMD=make(emd_cfg), **opts)
    other = CEEMDAN(parallel=False, seed=case["seed"], ext_EMD=make(emd_cfg), **dict(case["other"], **opts))
    late = CEEMDAN()
    late.parallel = False
    for n, v in opts.items():
        setattr(late, n, v)
    for n in case["order"]:
        if n in emd_cfg:
            setattr(late.EMD, n, emd_cfg[n])
    late.noise_seed(case["seed"])
    for what, obj in (("keywords", first), ("ext_EMD", ext), ("ext_EMD and other keywords", other), ("attributes", late)):
        b = obj(S, T, k) if case["call"] else obj.ceemdan(S, T, max_imf=k, progress=case["progress"])
        outs.append((what, array(b, 2, "output of CEEMDAN", len(S))))
    rec.mark(len(outs[0][1]) > 2)
    for what, b in outs[1:]:
        require(same(outs[0][1], b), "CEEMDAN configured by {} and by {} differ: {}", outs[0][0], what, gap(outs[0][1], b))
    # Without noise the first component is EMD's
    obj = CEEMDAN(trials=case["trials"], epsilon=0, parallel=False, **dict({n: v for n, v in opts.items() if n not in ("trials", "epsilon")}, **cfg))
    b = array(obj(S, T, 1), 2, "output of CEEMDAN", len(S))
    require(same(b[0], a[0] * std, 1e-12 * scale_of(a) * std), "first component without noise isn't the first IMF: {}", gap(b[0], a[0] * std))


def instance(case, rec):
    """ext_EMD is used itself, not a copy or a new EMD."""
    from PyEMD import CEEMDAN, EEMD

    S, T = signal(case)
    rec.mark()
    for cls in (EEMD, CEEMDAN):
        stub = Smoother(rows=2) if cls is CEEMDAN else Echo()
        obj = cls(ext_EMD=stub, trials=case["trials"], parallel=False)
        obj(S, T, 2)
        n = len(stub.calls)
        require(n >= case["trials"], "{}: ext_EMD was called {} times in {} trials", cls.__name__, n, case["trials"])
        require(obj.EMD is stub, "{} doesn't hold the given instance", cls.__name__)
        if cls is EEMD:
            require(n == case["trials"], "EEMD: ext_EMD was called {} times in {} trials", n, case["trials"])
    # Documented defaults of ensembles
    obj = EEMD(ext_EMD=Echo(), parallel=False)
    obj(S, T)
    require(len(obj.EMD.calls) == 100, "default EEMD makes {} trials", len(obj.EMD.calls))
    twin = EEMD(ext_EMD=Echo(), parallel=False, trials=100, noise_width=0.05, noise_kind="normal", separate_trends=False)
    twin.noise_seed(case["seed"])
    obj.noise_seed(case["seed"])
    require(same(obj(S, T), twin(S, T)), "EEMD with documented defaults given explicitly differs")
    obj = CEEMDAN(ext_EMD=Smoother(), parallel=False)
    twin = CEEMDAN(ext_EMD=Smoother(), parallel=False, trials=100, epsilon=0.005, noise_scale=1, noise_kind="normal", range_thr=0.01, total_power_thr=0.05, beta_progress=True)
    twin.noise_seed(case["seed"])
    obj.noise_seed(case["seed"])
    require(same(obj(S, T, 3), twin(S, T, 3)), "CEEMDAN with documented defaults given explicitly differs")


def parallel_doors(case, rec):
    """Keyword configuration reaches worker processes, too; the number of processes doesn't matter."""
    from PyEMD import CEEMDAN, EEMD

    S, T = signal(case)
    cfg, k = case["cfg"], case["max_imf"]
    plain(cfg, S, T, k, rec)
    rec.mark(len(cfg) > 0)
    kw = dict(trials=case["trials"], noise_kind=case["kind"])
    a = EEMD(parallel=False, noise_width=case["width"], separate_trends=case["trends"], **dict(kw, **cfg))
    b = EEMD(parallel=True, processes=case["processes"], noise_width=case["width"], separate_trends=case["trends"], **dict(kw, **cfg))
    a.noise_seed(case["seed"])
    b.noise_seed(case["seed"])
    x, y = np.array(a(S, T, k)), np.array(b(S, T, k, case["progress"]))
    require(same(x, y, 1e-12 * scale_of(x)), "EEMD in parallel differs: {}", gap(x, y))
    if np.std(S) > 1e-9 * np.max(np.abs(S)):
        a = CEEMDAN(parallel=False, seed=case["seed"], **dict(kw, **cfg))
        b = CEEMDAN(parallel=True, processes=case["processes"], seed=case["seed"], **dict(kw, **cfg))
        x, y = a(S, T, 1), b(S, T, 1, case["progress"])
        require(same(x, y, 1e-11 * scale_of(x)), "CEEMDAN in parallel differs: {}", gap(x, y))


def kept(case, rec):
    """Options, zeros included, are there as attributes of the same name."""
    from PyEMD import CEEMDAN, EEMD, EMD

    emd = dict(case["emd"])
    rec.mark(bool(emd))
    for obj in (EMD(**emd), EEMD(parallel=False, **emd).EMD, CEEMDAN(parallel=False, **emd).EMD):
        for k, v in emd.items():
            require(getattr(obj, k) == v, "EMD with {}={} has {}", k, v, getattr(obj, k))
    obj = EEMD(parallel=case["parallel"], **dict(case["eemd"], **emd))
    for k, v in case["eemd"].items():
        require(getattr(obj, k) == v, "EEMD with {}={} has {}", k, v, getattr(obj, k))
    obj = CEEMDAN(parallel=case["parallel"], **dict(emd, **case["ceemdan"]))
    for k, v in case["ceemdan"].items():
        require(getattr(obj, k) == v, "CEEMDAN with {}={} has {}", k, v, getattr(obj, k))
    for k in ("range_thr", "total_power_thr"):
        if k in emd and k not in case["ceemdan"]:
            require(getattr(obj, k) == emd[k], "CEEMDAN with {}={} has {}", k, emd[k], getattr(obj, k))
    n = case["processes"]
    for cls in (EEMD, CEEMDAN):
        require(cls().parallel and cls(trials=3).parallel and not cls(parallel=False).parallel, "{} isn't parallel by default", cls.__name__)
        obj = cls(parallel=True, processes=n)
        require(obj.parallel and (obj.processes == n if n else obj.processes in (None, os.cpu_count())), "{} with {} processes has {}", cls.__name__, n, obj.processes)


THR = st.sampled_from([0.0, 0, 1e-9, 0.3, 7])
KEPT = {
    "emd": st.fixed_dictionaries(
        {},
        optional=dict(
            {k: THR for k in ("range_thr", "total_power_thr", "std_thr", "svar_thr", "energy_ratio_thr")},
            FIXE=st.integers(0, 9), FIXE_H=st.integers(0, 9), MAX_ITERATION=st.integers(1, 2000), nbsym=st.integers(1, 9),
            spline_kind=st.sampled_from(["cubic", "akima", "pchip", "cubic_hermite", "slinear", "linear", "quadratic"]),
            extrema_detection=st.sampled_from(["simple", "parabol"]),
        ),
    ),
    "eemd": st.fixed_dictionaries(
        {}, optional={"trials": st.integers(1, 300), "noise_width": THR, "noise_kind": st.sampled_from(["normal", "uniform"]), "separate_trends": st.booleans()}
    ),
    "ceemdan": st.fixed_dictionaries(
        {},
        optional={"trials": st.integers(1, 300), "epsilon": THR, "noise_scale": THR, "noise_kind": st.sampled_from(["normal", "uniform"]), "beta_progress": st.booleans(),
                  "range_thr": THR, "total_power_thr": THR},
    ),
    "parallel": st.booleans(),
    "processes": st.sampled_from([None, 1, 2, 3, 7]),
}

ORDER = st.permutations(sorted(ref.DEFAULTS))
CFG = gen.configs(thr=True, maxit=False, detection=("simple", "simple", "simple", "parabol"))
CFG = CFG.map(lambda c: dict(c, **{k: max(v, 1e-3) for k, v in c.items() if k in ("range_thr", "total_power_thr")}))
BASE = {
    "T": gen.timelines(),
    "cfg": CFG,
    "other": st.fixed_dictionaries({}, optional={"FIXE": st.just(3), "nbsym": st.just(1), "spline_kind": st.just("linear"), "MAX_ITERATION": st.just(2)}),
    "max_imf": st.sampled_from([-1, -1, 1, 2, 3]),
    "order": ORDER,
    "trials": st.integers(1, 3),
    "width": st.sampled_from([0.05, 0.5]),
    "kind": st.sampled_from(["normal", "uniform"]),
    "trends": st.booleans(),
    "seed": st.integers(0, 2**32 - 1),
    "call": st.booleans(),
    "progress": st.booleans(),
    "processes": st.sampled_from([1, 2, 3, None]),
    "copts": st.fixed_dictionaries(
        {"epsilon": st.sampled_from([0.005, 0.1])},
        optional={
            "noise_scale": st.sampled_from([0.2, 2.0]),
            "beta_progress": st.booleans(),
            "range_thr": st.sampled_from([0.05, 0.5]),
            "total_power_thr": st.sampled_from([0.01, 5.0]),
        },
    ),
}
SIMPLE = dict(BASE, cfg=gen.configs(thr=False, maxit=False))

PROP = Prop(
    "C20",
    "at least one option isn't default and the signal has an IMF",
    [
        Sub("emd", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 100))), emd_doors, quick=1600),
        Sub("kept", st.fixed_dictionaries(KEPT), kept, quick=1500),
        Sub("eemd", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 80))), eemd_doors, quick=800),
        Sub("ceemdan", st.fixed_dictionaries(dict(SIMPLE, S=gen.oscillating(8, 80))), ceemdan_doors, quick=800),
        Sub("instance", st.fixed_dictionaries(dict(BASE, S=gen.oscillating(8, 40))), instance, quick=100),
        Sub("parallel", st.fixed_dictionaries(dict(SIMPLE, S=gen.oscillating(8, 50))), parallel_doors, quick=60, thorough=800),
    ],
)
