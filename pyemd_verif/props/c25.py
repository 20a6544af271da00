"""C25 - white-noise significance test."""
import math
from statistics import NormalDist

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import make
from ..core import Prop, Sub, Violation, require


def period(x):
    """Mean period: samples per non-negative peak."""
    n = len([i for i in ref.extrema_simple(x)[0] if x[i] >= 0])
    return len(x) / n if n else float(len(x))


def band(logT, N, alpha):
    k = abs(NormalDist().inv_cdf((1 - alpha) / 2))
    return k * math.sqrt(2.0 / N) * math.exp(logT / 2)


def density(x):
    return math.log(math.fsum(float(v) ** 2 for v in x) / len(x))


def expected(imfs, name, which, alpha):
    """Expected verdicts and, for each, the distance from a limit."""
    N = imfs.shape[1]
    out = {}
    if name == "aposteriori":
        lt = math.log(period(imfs[which - 1]))
        k = abs(NormalDist().inv_cdf((1 - alpha) / 2))
        factor = -lt + k * math.sqrt(2.0 / N) * math.exp(lt) / 2
    for i, x in enumerate(imfs):
        lt = math.log(period(x))
        w = band(lt, N, alpha)
        if name == "apriori":
            d = density(x) + lt
            out[i + 1] = (int(abs(d) > w), abs(abs(d) - w))
        else:
            e = factor if i == which - 1 else density(x) - factor
            d = e + lt
            out[i + 1] = (int(d > w), abs(d - w))
    return out


def whitenoise(*args, **kw):
    from PyEMD.checks import whitenoise_check

    return whitenoise_check(*args, **kw)


def verdicts(out, n):
    require(isinstance(out, dict), "result is {}, not a dictionary", type(out).__name__)
    require(sorted(out) == list(range(1, n + 1)), "result has keys {} for {} IMFs", sorted(out), n)
    for k, v in out.items():
        require(v in (0, 1), "result for IMF {} is {!r}", k, v)
    return {k: int(v) for k, v in out.items()}


def build(case):
    """Rows of random shape; energies are set relative to the white noise line."""
    rows = []
    n = case["n"]
    for r in case["rows"]:
        x = gen.signal(dict(r["S"], n=n)) - r["off"]
        if not np.any(x):
            x = x + 1.0
        x = x / np.sqrt(np.mean(x**2))
        lt = math.log(period(x))
        d = -lt + r["u"] * band(lt, n, case["alpha"])
        rows.append(x * math.exp(min(max(d, -200.0), 200.0) / 2))
    if case["name"] == "aposteriori" and case["shift"]:
        # Around the line of the a posteriori test
        which = case["which"] % len(rows)
        k = abs(NormalDist().inv_cdf((1 - case["alpha"]) / 2))
        t = period(rows[which])
        f = -math.log(t) + k * math.sqrt(2.0 / n) * t / 2
        rows = [x * math.exp(min(f, 100.0) / 2) for x in rows]
    return np.array(rows)


def definition(case, rec):
    imfs = build(case)
    keep = imfs.copy()
    m = len(imfs)
    which = 1 + case["which"] % m
    name, alpha = case["name"], case["alpha"]
    got = verdicts(whitenoise(imfs, test_name=name, rescaling_imf=which, alpha=alpha), m)
    require(np.array_equal(imfs, keep), "IMFs were modified")
    want = expected(imfs, name, which, alpha)
    clear = 0
    for i, (v, margin) in want.items():
        if margin < 1e-7:
            continue
        clear += 1
        require(got[i] == v, "IMF {} of {}: {} instead of {} ({}, rescaling_imf={}, alpha={}, {:.3g} from the limit)", i, m, got[i], v, name, which, alpha, margin)
        rec.label("%s:%d" % (name, v))
    rec.mark(clear > 0)
    # Positional arguments, integer-valued array
    again = verdicts(whitenoise(imfs, name, which, alpha), m)
    require(again == got, "positional arguments give {} instead of {}", again, got)
    if name == "apriori":
        for i in range(m):
            one = verdicts(whitenoise(imfs[i : i + 1], test_name=name, alpha=alpha), 1)
            require(one[1] == got[i + 1], "IMF {} alone gives {}, among others {}", i + 1, one[1], got[i + 1])
        wide = verdicts(whitenoise(imfs, test_name=name, alpha=case["wider"] + (1 - case["wider"]) * alpha), m)
        for i in got:
            require(wide[i] <= got[i] or want[i][1] < 1e-7, "IMF {} is significant only at a higher percentile", i)
    if name == "aposteriori" and which == 1 and alpha == 0.95:
        require(verdicts(whitenoise(imfs), m) == got, "documented defaults give another result")


def typed(case, rec):
    """IMFs of other types mean the same as their values in double precision."""
    imfs = np.array([gen.as_dtype(x / np.max(np.abs(x)) * case["amp"], case["dtype"]) for x in build(case)])
    x = imfs.astype(float)
    if not np.all(np.any(x, axis=1)):
        rec.skip("a row of zeros")
    m = len(x)
    which = 1 + case["which"] % m
    got = verdicts(whitenoise(imfs, case["name"], which, case["alpha"]), m)
    rec.label(case["dtype"])
    clear = 0
    for i, (v, margin) in expected(x, case["name"], which, case["alpha"]).items():
        if margin < (1e-2 if imfs.dtype.kind == "f" else 1e-7):
            continue
        clear += 1
        require(got[i] == v, "IMF {} ({}): {} instead of {} ({}, rescaling_imf={}, alpha={})", i, case["dtype"], got[i], v, case["name"], which, case["alpha"])
    rec.mark(clear > 0)


def from_emd(case, rec):
    S = gen.signal(case["S"])
    std = np.std(S)
    if std <= 1e-9 * np.max(np.abs(S)):
        rec.skip("constant signal")
    rows = np.asarray(make(case["cfg"]).emd((S - np.mean(S)) / std, None, 6))
    rows = rows[[i for i in range(len(rows)) if np.max(np.abs(rows[i])) > 1e-100]]
    if not len(rows):
        rec.skip("no IMFs")
    which = 1 + case["which"] % len(rows)
    got = verdicts(whitenoise(rows, test_name=case["name"], rescaling_imf=which, alpha=case["alpha"]), len(rows))
    rec.mark(len(rows) > 1)
    for i, (v, margin) in expected(rows, case["name"], which, case["alpha"]).items():
        require(margin < 1e-7 or got[i] == v, "IMF {}: {} instead of {} ({})", i, got[i], v, case["name"])


def rejected(case, rec):
    imfs = build(dict(case, alpha=0.95))
    m = len(imfs)
    rec.mark()
    bad = {
        "list": lambda: whitenoise(imfs.tolist()),
        "alpha0": lambda: whitenoise(imfs, alpha=0.0),
        "alpha1": lambda: whitenoise(imfs, alpha=1.0),
        "alpha2": lambda: whitenoise(imfs, alpha=1.5),
        "alpha-": lambda: whitenoise(imfs, alpha=-0.5),
        "alpha_int": lambda: whitenoise(imfs, alpha=1),
        "alpha_str": lambda: whitenoise(imfs, alpha="0.9"),
        "name": lambda: whitenoise(imfs, test_name="posteriori"),
        "name2": lambda: whitenoise(imfs, test_name="Apriori"),
        "which0": lambda: whitenoise(imfs, rescaling_imf=0),
        "which-": lambda: whitenoise(imfs, rescaling_imf=-1),
        "which+": lambda: whitenoise(imfs, rescaling_imf=m + 1),
        "which_f": lambda: whitenoise(imfs, rescaling_imf=1.0),
    }
    for what, f in bad.items():
        try:
            out = f()
        except AssertionError:
            continue
        raise Violation("invalid argument ({}) gives {}".format(what, out))
    for name in ("apriori", "aposteriori"):
        x = imfs.copy()
        x[case["which"] % m, case["at"] % x.shape[1]] = np.nan
        for what, arr in (("NaN", x), ("no rows", imfs[:0]), ("no samples", imfs[:, :0]), ("empty", np.array([]))):
            out = whitenoise(arr, test_name=name)
            require(out is None, "input with {} gives {}", what, out)


ROW = st.fixed_dictionaries(
    {
        "S": st.one_of(
            st.builds(lambda d, s, q: {"k": "rnd", "d": d, "q": q, "s": s}, st.sampled_from(["normal", "uniform", "walk", "smooth", "zigzag", "ints", "binary"]), gen.seeds, st.sampled_from([0, 0, 0.5])),
            st.builds(lambda f, p: {"k": "mix", "c": [[1.0, f, p, 0.0]], "tr": [], "no": 0.0, "s": 0}, gen.floats(0.2, 20, 2), gen.floats(0, 6, 2)),
            st.builds(lambda d, a, p: {"k": "shp", "d": d, "a": a, "b": 0.0, "p": p}, st.sampled_from(["ramp", "square", "tri", "saw", "spike"]), st.sampled_from([1.0, -1.0]), st.integers(2, 12)),
        ),
        "off": st.sampled_from([0.0, 0.0, 0.0, 0.5, -1.0, 3.0]),
        "u": st.sampled_from([0.0, 0.5, 0.9, 0.99, 1.01, 1.1, 3.0, -0.9, -0.99, -1.01, -1.1, -3.0, 30.0]),
    }
)
BASE = {
    "n": st.one_of(st.integers(3, 40), st.integers(10, 400)),
    "rows": st.lists(ROW, min_size=1, max_size=5),
    "name": st.sampled_from(["apriori", "aposteriori"]),
    "which": st.integers(0, 4),
    "alpha": st.sampled_from([0.95, 0.95, 0.99, 0.9, 0.5, 0.05, 0.999]),
    "shift": st.booleans(),
    "wider": st.sampled_from([0.1, 0.5, 0.9]),
}

PROP = Prop(
    "C25",
    "at least one IMF is farther than 1e-7 from the limit (for decompositions: at least two rows)",
    [
        Sub("definition", st.fixed_dictionaries(BASE), definition, quick=4000),
        Sub("long", st.fixed_dictionaries(dict(BASE, n=st.integers(200, 6000))), definition, quick=300),
        Sub("typed", st.fixed_dictionaries(dict(BASE, amp=st.sampled_from([3.0, 40.0, 100.0, 300.0]), dtype=st.sampled_from(["int8", "uint8", "int16", "int32", "int64", "float16", "float32"]))), typed, quick=800),
        Sub("from_emd", st.fixed_dictionaries({"S": gen.oscillating(10, 200), "cfg": gen.configs(thr=False, maxit=False), "name": BASE["name"], "which": BASE["which"], "alpha": BASE["alpha"]}), from_emd, quick=800),
        Sub("rejected", st.fixed_dictionaries(dict(BASE, at=st.integers(0, 400))), rejected, quick=400),
    ],
)
