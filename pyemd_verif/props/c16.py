"""C16 - noise: kind, scale and shape."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, gap, same
from ..core import Prop, Sub, Violation, require
from ..stubs import Echo, Smoother

SCALES = [1e-3, 0.05, 0.5, 1.0, 2.0, 7.25, 100.0]


def ensemble(name, **kw):
    from PyEMD import CEEMDAN, EEMD

    return {"EEMD": EEMD, "CEEMDAN": CEEMDAN}[name](parallel=False, **kw)


def statistics(x, kind, scale, what):
    """x: 1-D sample. Bounds are beyond 6 sigma."""
    n = len(x)
    std = scale if kind == "normal" else scale / np.sqrt(12.0)
    kurt = 3.0 if kind == "normal" else 1.8
    require(abs(np.mean(x)) <= 6.5 * std / np.sqrt(n), "{}: mean {:.3g} of {} noise of scale {} ({} samples)", what, np.mean(x), kind, scale, n)
    v = np.mean(x**2) / std**2
    require(abs(v - 1) <= 7 * np.sqrt((kurt - 1) / n) + 20.0 / n, "{}: rms is {:.4g} of the expected for {} noise of scale {} ({} samples)", what, np.sqrt(v), kind, scale, n)
    if kind == "uniform":
        require(np.max(np.abs(x)) <= scale / 2 * (1 + 1e-12), "{}: uniform noise of scale {} reaches {:.4g}", what, scale, np.max(np.abs(x)))
        if n >= 100:
            edge = scale / 2 * (1 - 60.0 / n)
            require(np.max(x) > edge and np.min(x) < -edge, "{}: uniform noise of scale {} covers only {:.3g}..{:.3g}", what, scale, np.min(x), np.max(x))
    elif n >= 1000:
        # Normal: share of samples within one std; nothing is clipped
        p = np.mean(np.abs(x) < std)
        require(abs(p - 0.6827) < 6.5 * 0.466 / np.sqrt(n), "{}: {:.3f} of normal noise is within one std", what, p)
        require(np.max(x) > 2 * std and np.min(x) < -2 * std, "{}: normal noise has no tails", what)
    if n >= 100:
        c = np.mean(x[1:] * x[:-1]) / std**2
        require(abs(c) < 7.0 / np.sqrt(n), "{}: noise is correlated with itself ({:.3f})", what, c)


def generator(case, rec):
    obj = ensemble(case["cls"], noise_kind=case["kind"])
    size = case["size"] if isinstance(case["size"], int) else tuple(case["size"])
    shape = (size,) if isinstance(size, int) else size
    obj.noise_seed(case["seed"])
    x = array(obj.generate_noise(case["scale"], size), len(shape), "noise")
    require(x.shape == shape, "noise has shape {}, expected {}", x.shape, shape)
    rec.mark(x.size >= 2)
    rec.label(case["kind"], case["cls"])
    y = array(obj.generate_noise(case["scale"], size), len(shape), "noise")
    require(x.size == 0 or not np.array_equal(x, y), "two consecutive noises are equal")
    obj.noise_seed(case["seed"])
    z = array(obj.generate_noise(case["scale"] * case["factor"], size), len(shape), "noise")
    require(same(z, x * case["factor"], 1e-12 * case["scale"] * case["factor"] * 10), "noise isn't proportional to the scale: {}", gap(z, x * case["factor"]))
    if x.size >= 50:
        statistics(x.ravel(), case["kind"], case["scale"], case["cls"] + ".generate_noise")
    zero = array(obj.generate_noise(0.0, size), len(shape), "noise")
    require(not np.any(zero), "noise of scale zero isn't zero")


def eemd_noise(case, rec):
    """What EEMD adds to the signal."""
    S = gen.signal(case["S"]) * case["amp"] + case["off"]
    if case["dtype"]:
        X = gen.as_dtype(S, case["dtype"])
        S = X.astype(float)
    T = gen.timeline(case["T"], len(S))
    span = float(np.max(S) - np.min(S))
    scale = float(np.max(np.abs(S)))
    eps = 1e-14 * scale

    def noises(S, width):
        obj = ensemble("EEMD", noise_kind=case["kind"], trials=case["trials"], noise_width=width, ext_EMD=Echo())
        obj.noise_seed(case["seed"])
        obj.eemd(S, T)
        x = np.array([c[0] for c in obj.EMD.calls])
        require(x.shape == (case["trials"], len(S)), "{} trials decomposed instead of {}", len(x), case["trials"])
        return x - S

    x = noises(S, case["width"])
    rec.mark(span > 0)
    rec.label(case["kind"])
    if span == 0:
        require(not np.any(x), "noise was added to a constant signal")
        return
    want = case["width"] * span
    if eps > 1e-6 * want:
        rec.skip("noise below signal's precision")
    if x.size >= 50:
        statistics(x.ravel(), case["kind"], want * (1 + 1e-9), "EEMD")
    if case["dtype"]:
        y = noises(X, case["width"])
        require(same(x, y, 8 * eps), "noise for {} differs from the one for float64: {}", X.dtype, gap(x, y))
        rec.label(case["dtype"])
    y = noises(S, case["width"] * 2)
    require(same(y, 2 * x, 8 * eps + 1e-12 * want), "twice the width doesn't double the noise: {}", gap(y, 2 * x))
    y = noises(S * 4, case["width"])
    require(same(y, 4 * x, 8 * eps + 1e-12 * want), "noise isn't proportional to the signal: {}", gap(y, 4 * x))
    y = noises(-S, case["width"])
    require(same(y, x, 8 * eps + 1e-12 * want), "noise depends on signal's sign: {}", gap(y, x))
    off = 8 * span
    y = noises(S + off, case["width"])
    require(same(y, x, 8 * eps + 1e-13 * off + 1e-12 * want), "noise depends on signal's offset: {}", gap(y, x))


def ceemdan_noise(case, rec):
    S = gen.signal(case["S"]) * case["amp"] + case["off"]
    T = gen.timeline(case["T"], len(S))

    def noises(S, scale):
        stub = Smoother()
        obj = ensemble("CEEMDAN", noise_kind=case["kind"], trials=case["trials"], noise_scale=scale, ext_EMD=stub, epsilon=case["width"])
        obj.noise_seed(case["seed"])
        obj.ceemdan(S, T, max_imf=2)
        x = np.array([c[0] for c in stub.calls if c[2] == -1])
        require(x.shape == (case["trials"], len(S)), "{} noises decomposed instead of {}", len(x), case["trials"])
        return x

    x = noises(S, case["scale"])
    rec.mark(len(S) >= 2)
    rec.label(case["kind"])
    if x.size >= 50:
        statistics(x.ravel(), case["kind"], case["scale"], "CEEMDAN")
    for i in range(len(x)):
        for j in range(i):
            require(not np.array_equal(x[i], x[j]), "trials {} and {} have the same noise", j, i)
    y = noises(S, 2 * case["scale"])
    require(same(y, 2 * x, 1e-12 * case["scale"] * 10), "noise isn't proportional to noise_scale: {}", gap(y, 2 * x))
    y = noises(3.7 * S + 2, case["scale"])
    require(same(y, x), "noise depends on the signal: {}", gap(y, x))


def unknown(case, rec):
    S = gen.signal(case["S"])
    rec.mark()
    if case["late"]:
        obj = ensemble(case["cls"], trials=2)
        obj.noise_kind = case["bad"]
    else:
        try:
            obj = ensemble(case["cls"], trials=2, noise_kind=case["bad"])
        except ValueError:
            return
    run = {0: lambda: obj(S), 1: lambda: obj.generate_noise(1.0, 5), 2: lambda: obj.generate_noise(1.0, (2, 3))}[case["how"]]
    try:
        run()
    except ValueError:
        pass
    else:
        raise Violation("noise kind {!r} was accepted".format(case["bad"]))
    # And still works with a proper one
    obj.noise_kind = "uniform"
    x = array(obj.generate_noise(1.0, 300), 1, "noise")
    statistics(x, "uniform", 1.0, "after a rejected kind")


seeds = st.integers(0, 2**32 - 2)
kinds = st.sampled_from(["normal", "uniform"])
COMMON = {
    "T": gen.timelines(),
    "kind": kinds,
    "seed": seeds,
    "trials": st.integers(1, 6),
    "width": st.sampled_from([1e-3, 0.05, 0.2, 1.0]),
    "scale": st.sampled_from(SCALES),
    "amp": st.sampled_from([1.0, 1.0, 1e-4, 1e5]),
    "off": st.sampled_from([0.0, 0.0, -3.5, 100.0]),
}
LONG = st.builds(lambda n, s: {"k": "rnd", "n": n, "d": "walk", "q": 0, "s": s}, st.integers(200, 1500), gen.seeds)

PROP = Prop(
    "C16",
    "non-empty noise of non-zero scale (for the rejection check: any case)",
    [
        Sub(
            "generator",
            st.fixed_dictionaries(
                {
                    "cls": st.sampled_from(["EEMD", "CEEMDAN"]),
                    "kind": kinds,
                    "seed": seeds,
                    "scale": st.sampled_from(SCALES),
                    "factor": st.sampled_from([0.25, 2.0, 3.0, 10.0]),
                    "size": st.one_of(
                        st.integers(1, 60),
                        st.integers(100, 5000),
                        st.lists(st.integers(1, 40), min_size=1, max_size=3),
                        st.tuples(st.integers(1, 10), st.integers(100, 1000)).map(list),
                    ),
                }
            ),
            generator,
            quick=4000,
        ),
        Sub("eemd", st.fixed_dictionaries(dict(COMMON, dtype=st.sampled_from([None] * 8 + gen.INT_DTYPES), S=st.one_of(gen.signals(2, 80), LONG))), eemd_noise, quick=1600),
        Sub("ceemdan", st.fixed_dictionaries(dict(COMMON, S=st.one_of(gen.signals(2, 80), LONG))), ceemdan_noise, quick=1600),
        Sub(
            "unknown",
            st.fixed_dictionaries(
                {
                    "S": gen.oscillating(8, 30),
                    "cls": st.sampled_from(["EEMD", "CEEMDAN"]),
                    "late": st.booleans(),
                    "how": st.integers(0, 2),
                    "bad": st.one_of(
                        st.sampled_from(["", "gauss", "Normal", "NORMAL", "uniform ", "poisson", "bernoulli", None, 0, 1]),
                        st.text(max_size=6).filter(lambda s: s not in ("normal", "uniform")),
                    ),
                }
            ),
            unknown,
            quick=400,
        ),
    ],
)
