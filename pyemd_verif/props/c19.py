"""C19 - CEEMDAN against a reference implementation driven by the same decomposer."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, gap, make, same, scale_of
from ..core import Prop, Sub, require
from ..stubs import Recorder, Smoother
from .c17 import MANY, OPTS


class Unclear(Exception):
    pass


def reference(S, T, noises, emd, opts, max_imf, jiggle=None):
    """[Torres2011] with improvements of [Colominas2014], as documented."""
    o = dict(epsilon=0.005, beta_progress=True, range_thr=0.01, total_power_thr=0.05)
    o.update(opts)
    n, trials = len(S), len(noises)
    t = np.arange(n, dtype=float) if T is None else T
    std = np.sqrt(np.mean((S - np.mean(S)) ** 2))
    x = S / std

    def E(s, tt, k):
        if jiggle is not None:
            s = s + 1e-12 * np.max(np.abs(s)) * jiggle.uniform(-1, 1, n)
        return np.array(emd(s, tt, k))

    modes = []
    for w in noises:
        m = np.array(emd(w, None, -1))
        if o["beta_progress"]:
            m = m / np.std(m[0])
        modes.append(m)
    first = np.mean([E(x + o["epsilon"] * m[0], t, 1)[0] for m in modes], axis=0)
    comps = [first]
    left = x - first
    while not 0 < max_imf <= len(comps):
        if len(comps) > 100:
            break
        if len(E(left, None, 1)) == 1:
            break
        span, power = float(np.max(left) - np.min(left)), float(np.sum(np.abs(left)))
        for v, thr in ((span, o["range_thr"]), (power, o["total_power_thr"])):
            if abs(v - thr) < 1e-8 * thr:
                raise Unclear("remainder at a threshold")
        if span < o["range_thr"] or power < o["total_power_thr"]:
            break
        beta = o["epsilon"] * np.std(left)
        k = len(comps)
        means = [E(left + beta * m[k] if len(m) > k else left, t, 1)[-1] for m in modes]
        mean = np.sum(means, axis=0) / trials
        comps.append(left - mean)
        left = mean
    comps.append(left)
    return np.array(comps) * std


def run(case, S, T, emd):
    from PyEMD import CEEMDAN

    rec = emd if isinstance(emd, Smoother) else Recorder(emd)
    obj = CEEMDAN(parallel=False, ext_EMD=rec, **case["opts"])
    obj.noise_seed(case["seed"])
    rows = array(obj.ceemdan(S, T, case["max_imf"]), 2, "output of CEEMDAN", len(S))
    noises = [c[0] for c in rec.calls if c[2] == -1]
    require(len(noises) == case["opts"]["trials"], "{} noises decomposed in {} trials", len(noises), case["opts"]["trials"])
    return rows, noises


def build(case):
    S = gen.signal(case["S"]) * case["amp"] + case["off"]
    return S, gen.timeline(case["T"], len(S))


def compare(case, rec, maker):
    S, T = build(case)
    if np.ptp(S) <= 1e-9 * np.max(np.abs(S)):
        rec.skip("constant signal")
    rows, noises = run(case, S, T, maker())
    try:
        want = reference(S, T, noises, maker().emd, case["opts"], case["max_imf"])
        worst = 0.0
        for k in (1, 2) if not case["stub"] else ():
            other = reference(S, T, noises, maker().emd, case["opts"], case["max_imf"], np.random.RandomState(k))
            if other.shape != want.shape:
                raise Unclear("ill-conditioned structure")
            worst = max(worst, float(np.max(np.abs(other - want))))
    except Unclear as e:
        rec.skip(str(e))
    scale = scale_of(want)
    if worst > 1e-6 * scale:
        rec.skip("ill-conditioned values")
    rec.mark(len(want) > 2)
    rec.label("rows:%d" % min(len(want), 9), "beta" if case["opts"].get("beta_progress", True) else "no beta")
    tol = 10 * worst + 1e-9 * scale
    require(rows.shape == want.shape, "{} rows, expected {}", len(rows), len(want))
    for k in range(len(want)):
        require(same(rows[k], want[k], tol), "component {} of {} differs from the reference: {} (tolerance {:.3g})", k + 1, len(want) - 1, gap(rows[k], want[k]), tol)


def stub(case, rec):
    compare(dict(case, stub=True), rec, lambda: Smoother(**case["smoother"]))


def real(case, rec):
    compare(dict(case, stub=False), rec, lambda: make(case["cfg"]))


def rescaled(case, rec):
    S, T = build(case)
    if np.ptp(S) <= 1e-9 * np.max(np.abs(S)):
        rec.skip("constant signal")
    f = 2.0 ** case["power"]
    a, _ = run(case, S, T, make(case["cfg"]))
    b, _ = run(case, f * S, T, make(case["cfg"]))
    rec.mark(len(a) > 2)
    require(same(f * a, b, 1e-9 * scale_of(b)), "rescaling the signal by {} doesn't rescale the components: {}", f, gap(f * a, b))


BASE = {
    "T": gen.timelines(),
    "opts": OPTS,
    "seed": st.integers(0, 2**32 - 1),
    "amp": st.sampled_from([1.0, 1.0, 1.0, 1e-5, 1e-3, 20.0, 1e4]),
    "off": st.sampled_from([0.0, 0.0, 1.0, -3.5]),
    "max_imf": st.sampled_from([-1, -1, -1, 1, 2, 3, 4]),
}
SMOOTHER = st.fixed_dictionaries(
    {
        "width": st.integers(2, 6),
        "rows": st.integers(1, 6),
        "weight": st.sampled_from([0.0, 0.1, -0.2]),
        "stop": st.sampled_from([0.0, 0.0, 0.3, 1.0]),
        "ragged": st.booleans(),
    }
)

PROP = Prop(
    "C19",
    "the reference gives at least two components in addition to the remainder",
    [
        Sub("stub", st.fixed_dictionaries(dict(BASE, S=gen.signals(4, 200), smoother=SMOOTHER)), stub, quick=2400),
        Sub("stub_many", st.fixed_dictionaries(dict(BASE, opts=MANY, S=gen.oscillating(4, 2000), smoother=SMOOTHER)), stub, quick=200),
        Sub(
            "real",
            st.fixed_dictionaries(dict(BASE, S=gen.oscillating(10, 150), cfg=gen.configs(modes=("default", "fixe"), thr=False, maxit=False))),
            real,
            quick=1200,
        ),
        Sub(
            "rescaled",
            st.fixed_dictionaries(
                dict(BASE, S=gen.oscillating(10, 120), cfg=gen.configs(thr=False, maxit=False), power=st.integers(-20, 20))
            ),
            rescaled,
            quick=400,
        ),
    ],
)
