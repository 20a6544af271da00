"""Generators. A case is a JSON-able description; `signal()`, `timeline()` and friends build
the arrays from it, so a case is everything that is needed for a replay."""
import numpy as np
from hypothesis import strategies as st

# --------------------------------------------------------------------------- helpers

SPLINES = ["cubic", "akima", "pchip", "cubic_hermite", "linear", "slinear", "quadratic"]
INT_DTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]

seeds = st.integers(0, 2**31 - 1)


def r(x, nd=4):
    return float(round(float(x), nd))


def floats(lo, hi, nd=4):
    """Reals on a decimal grid: short in a replay and without denormals."""
    k = 10**nd
    return st.integers(int(np.ceil(lo * k)), int(np.floor(hi * k))).map(lambda i: i / k)


def mostly(common, rare, p=4):
    """Draws `common` about p times more often than `rare`."""
    return st.one_of([common] * p + [rare])


# --------------------------------------------------------------------------- signals

SPECIAL_N = [127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]


def lengths(lo=2, hi=200, special=True):
    opts = [st.integers(lo, max(lo, min(hi, 14))), st.integers(lo, min(hi, 60)), st.integers(lo, hi)]
    sp = [n for n in SPECIAL_N if lo <= n <= hi]
    if special and sp:
        opts.append(st.sampled_from(sp))
    return st.one_of(opts)


def raw_signals(lo=2, hi=32):
    """Explicit short value lists; small integers (many ties and zeros) or reals."""
    ties = st.lists(st.integers(-3, 3), min_size=lo, max_size=hi).map(lambda v: [float(x) for x in v])
    zig = st.lists(st.integers(1, 9), min_size=lo, max_size=hi).map(
        lambda v: [float(x if i % 2 else -x) for i, x in enumerate(v)]
    )
    reals = st.lists(floats(-10, 10, 3), min_size=lo, max_size=hi)
    plateau = st.lists(st.tuples(st.integers(-4, 4), st.integers(1, 4)), min_size=1, max_size=max(2, hi // 2)).map(
        lambda v: ([float(x) for x, k in v for _ in range(k)] * lo)[: max(lo, min(hi, sum(k for _, k in v)))]
    )
    return st.one_of(ties, zig, reals, plateau).map(lambda v: {"k": "raw", "v": v})


@st.composite
def _mix(draw, lo, hi):
    n = draw(lengths(lo, hi))
    comps = draw(
        st.lists(
            st.tuples(floats(0.05, 5, 2), floats(0.3, 40, 2), floats(0, 6.28, 2), floats(-5, 5, 1)),
            min_size=0,
            max_size=4,
        )
    )
    trend = draw(st.lists(floats(-5, 5, 1), min_size=0, max_size=3))
    noise = draw(st.sampled_from([0.0, 0.0, 0.01, 0.1, 1.0]))
    return {"k": "mix", "n": n, "c": [list(c) for c in comps], "tr": trend, "no": noise, "s": draw(seeds)}


@st.composite
def _rnd(draw, lo, hi):
    return {
        "k": "rnd",
        "n": draw(lengths(lo, hi)),
        "d": draw(st.sampled_from(["normal", "uniform", "walk", "smooth", "cauchy", "ints", "binary", "zigzag"])),
        "q": draw(st.sampled_from([0, 0, 0, 0.25, 1.0])),
        "s": draw(seeds),
    }


@st.composite
def _shape(draw, lo, hi):
    return {
        "k": "shp",
        "n": draw(lengths(lo, hi)),
        "d": draw(
            st.sampled_from(
                ["const", "zero", "ramp", "parab", "step", "spike", "square", "saw", "tri", "sinper", "dampsin", "exp"]
            )
        ),
        "a": draw(floats(-4, 4, 1)),
        "b": draw(floats(-4, 4, 1)),
        "p": draw(st.integers(2, 30)),
    }


def signals(lo=2, hi=200, rich=True):
    """Any signal: raw lists, mixtures of tones with trends and noise, random processes, shapes."""
    core = [raw_signals(lo, max(lo, min(hi, 32))), _mix(lo, hi), _rnd(lo, hi)]
    return st.one_of(core + [_shape(lo, hi)] if rich else core)


@st.composite
def oscillating(draw, lo=8, hi=200):
    """Signals which (mostly) have at least one IMF."""
    n = draw(lengths(lo, hi))
    kind = draw(st.sampled_from(["mix", "rnd", "rnd", "raw"]))
    if kind == "raw":
        return draw(raw_signals(lo, max(lo, min(hi, 40))))
    if kind == "rnd":
        return {
            "k": "rnd",
            "n": n,
            "d": draw(st.sampled_from(["normal", "uniform", "walk", "smooth", "zigzag"])),
            "q": 0,
            "s": draw(seeds),
        }
    c = draw(st.lists(st.tuples(floats(0.3, 3, 2), floats(2, 30, 2), floats(0, 6, 2), floats(-3, 3, 1)), min_size=1, max_size=4))
    return {
        "k": "mix",
        "n": n,
        "c": [list(x) for x in c],
        "tr": draw(st.lists(floats(-3, 3, 1), max_size=3)),
        "no": draw(st.sampled_from([0.0, 0.01, 0.3])),
        "s": draw(seeds),
    }


@st.composite
def long_signals(draw, lo=400, hi=6000):
    """Much longer than the others; hundreds or thousands of extrema, or few of them."""
    n = draw(st.one_of(st.integers(lo, min(hi, 1500)), st.integers(lo, hi), st.sampled_from([k for k in (500, 512, 1000, 1001, 1024, 2000, 2048, 4096, 5000, 5001) if lo <= k <= hi])))
    if draw(st.integers(0, 2)):
        return {"k": "rnd", "n": n, "d": draw(st.sampled_from(["normal", "walk", "smooth", "zigzag", "ints"])), "q": 0, "s": draw(seeds)}
    c = draw(st.lists(st.tuples(floats(0.3, 3, 2), floats(2, 300, 2), floats(0, 6, 2), floats(-9, 9, 1)), min_size=1, max_size=4))
    return {"k": "mix", "n": n, "c": [list(x) for x in c], "tr": draw(st.lists(floats(-3, 3, 1), max_size=3)), "no": draw(st.sampled_from([0.0, 0.01, 0.3])), "s": draw(seeds)}


def signal(spec):
    """Builds a float64 signal."""
    k = spec["k"]
    if k == "raw":
        return np.array(spec["v"], dtype=np.float64)
    n = spec["n"]
    if k == "mix":
        t = np.arange(n) / float(max(n - 1, 1))
        s = np.zeros(n)
        for a, f, ph, ch in spec["c"]:
            s += a * np.sin(2 * np.pi * (f * t + 0.5 * ch * t * t) + ph)
        for i, c in enumerate(spec["tr"]):
            s += c * t**i
        if spec["no"]:
            s += spec["no"] * np.random.RandomState(spec["s"]).randn(n)
        return s
    if k == "rnd":
        rng = np.random.RandomState(spec["s"])
        d = spec["d"]
        if d == "normal":
            s = rng.randn(n)
        elif d == "uniform":
            s = rng.rand(n)
        elif d == "walk":
            s = np.cumsum(rng.randn(n))
        elif d == "smooth":
            s = np.convolve(rng.randn(n + 12), np.hanning(13), mode="valid")[:n]
        elif d == "cauchy":
            s = np.clip(rng.standard_cauchy(n), -1e4, 1e4)
        elif d == "ints":
            s = rng.randint(-5, 6, n).astype(float)
        elif d == "binary":
            s = rng.randint(0, 2, n).astype(float)
        else:  # zigzag
            s = rng.rand(n) * (1 - 2 * (np.arange(n) % 2)) + 0.3 * np.sin(np.arange(n) / 7.0)
        if spec["q"]:
            s = np.round(s / spec["q"]) * spec["q"]
        return s + 0.0
    if k == "shp":
        i = np.arange(n, dtype=float)
        a, b, p, d = spec["a"], spec["b"], spec["p"], spec["d"]
        if d == "const":
            s = np.full(n, a)
        elif d == "zero":
            s = np.zeros(n)
        elif d == "ramp":
            s = a * i + b
        elif d == "parab":
            s = a * (i - p) ** 2 + b
        elif d == "step":
            s = np.where(i < p, a, b)
        elif d == "spike":
            s = np.where(i % p == p - 1, a, b)
        elif d == "square":
            s = np.where((i // p) % 2 == 0, a, b)
        elif d == "saw":
            s = a * (i % p) + b
        elif d == "tri":
            s = a * np.abs((i % (2 * p)) - p) + b
        elif d == "sinper":
            s = a * np.sin(2 * np.pi * i / p) + b
        elif d == "dampsin":
            s = a * np.exp(-i / (4.0 * p)) * np.sin(2 * np.pi * i / p) + b
        else:
            s = a * np.exp(np.minimum(i / p, 8.0)) + b
        return s + 0.0
    raise ValueError(k)


# --------------------------------------------------------------------------- dtypes & layouts

LAYOUTS = ["plain", "plain", "strided", "reversed", "column", "readonly", "subclass"]


class SubArray(np.ndarray):
    pass


def with_layout(x, layout):
    """Same values, different memory."""
    if layout == "strided":
        big = np.zeros(2 * len(x) + 1, dtype=x.dtype)
        big[1::2] = x
        return big[1::2]
    if layout == "reversed":
        return np.ascontiguousarray(x[::-1])[::-1]
    if layout == "column":
        m = np.zeros((len(x), 3), dtype=x.dtype)
        m[:, 1] = x
        return m[:, 1]
    if layout == "readonly":
        y = x.copy()
        y.setflags(write=False)
        return y
    if layout == "offset":
        big = np.zeros(len(x) + 3, dtype=x.dtype)
        big[3:] = x
        return big[3:]
    return x.copy()


def as_dtype(x, dtype):
    """Casts values into the dtype's range (integers are scaled and rounded)."""
    dt = np.dtype(dtype)
    if dt.kind in "iu":
        info = np.iinfo(dt)
        m = np.max(np.abs(x)) if len(x) else 0.0
        lim = float(min(info.max, 10**6))
        y = x * (lim / m) if m > 0 and (m > lim or m < 50) else x
        y = np.round(y)
        if dt.kind == "u":
            y = y - y.min() if len(y) else y
            y = np.minimum(y, lim)
        return np.clip(y, max(info.min, -(10**6)), lim).astype(dt)
    if dt.itemsize == 2:
        m = np.max(np.abs(x)) if len(x) else 0.0
        if m > 500:
            x = x * (500 / m)
    return x.astype(dt)


# --------------------------------------------------------------------------- time arrays


@st.composite
def timelines(draw, none=True):
    kinds = ["none"] if none else []
    kinds += ["arange", "lin", "affine", "jitter", "int", "geo", "f32"]
    k = draw(st.sampled_from(kinds))
    return {
        "k": k,
        "a": draw(st.sampled_from([1.0, 0.01, 3.0, 1e-6, 250.0, 0.1])),
        "b": draw(st.sampled_from([0.0, 0.0, -5.0, 1e3, 0.37])),
        "s": draw(st.integers(0, 10**6)) if k in ("jitter", "int") else 0,
    }


def timeline(spec, n):
    k = spec["k"]
    if k == "none":
        return None
    i = np.arange(n, dtype=float)
    if k == "arange":
        return i
    if k == "lin":
        return np.linspace(spec["b"], spec["b"] + 10 * spec["a"], n)
    if k == "affine":
        return spec["a"] * i + spec["b"]
    if k == "f32":
        return i.astype(np.float32)
    rng = np.random.RandomState(spec["s"])
    if k == "jitter":
        return spec["a"] * (i + rng.uniform(-0.35, 0.35, n)) + spec["b"]
    if k == "int":
        return np.cumsum(rng.randint(1, 4, n))
    if k == "geo":
        return spec["a"] * (i + 0.02 * i * i / max(n / 50.0, 1.0)) + spec["b"]
    raise ValueError(k)


# --------------------------------------------------------------------------- configurations


@st.composite
def configs(draw, modes=("default", "fixe", "fixe_h"), detection=("simple",), splines=SPLINES, thr=True, maxit=True):
    cfg = {}
    mode = draw(st.sampled_from(list(modes)))
    if mode == "fixe":
        cfg["FIXE"] = draw(mostly(st.integers(1, 10), st.integers(11, 60), 7))
    elif mode == "fixe_h":
        cfg["FIXE_H"] = draw(mostly(st.integers(1, 6), st.integers(7, 25), 7))
    sp = draw(st.sampled_from(["cubic"] * 3 + list(splines)))
    if sp != "cubic" or draw(st.booleans()):
        cfg["spline_kind"] = sp
    if draw(st.booleans()):
        cfg["nbsym"] = draw(mostly(st.integers(1, 6), st.integers(7, 40), 7))
    det = draw(st.sampled_from(list(detection)))
    if det != "simple":
        cfg["extrema_detection"] = det
    if thr and draw(st.booleans()):
        cfg["range_thr"] = draw(st.sampled_from([0.0, 1e-6, 0.01, 0.2, 1.0]))
        cfg["total_power_thr"] = draw(st.sampled_from([0.0, 1e-6, 0.05, 1.0, 10.0]))
    if thr and mode == "default" and draw(st.booleans()):
        cfg["std_thr"] = draw(st.sampled_from([0.0, 0.01, 0.5, 2.0]))
        cfg["svar_thr"] = draw(st.sampled_from([0.0, 1e-5, 0.01, 0.1]))
        cfg["energy_ratio_thr"] = draw(st.sampled_from([0.0, 1e-3, 0.05, 0.5]))
    if mode != "fixe":
        # Bounds the cost; the default is 1000
        if maxit:
            it = draw(st.sampled_from([None, 40, 40, 100, 15, 3]))
            if it is not None:
                cfg["MAX_ITERATION"] = it
        else:
            cfg["MAX_ITERATION"] = 60
    elif maxit and draw(st.integers(0, 5)) == 0:
        cfg["MAX_ITERATION"] = draw(st.integers(1, 6))
    return cfg


max_imfs = st.sampled_from([-1, -1, -1, 1, 2, 3, 5, 20])
