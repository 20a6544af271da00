"""C22 - invalid input is rejected with the documented error and leaves no trace."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, extrema_count, gap, make, pair, same
from ..core import Prop, Skip, Sub, Violation, require
from ..stubs import Smoother

NAMES = st.one_of(
    st.sampled_from(["", "cubic ", "bicubic", "spline", "nearest", "zero", "none", "cubic-hermite", "cubichermite", "akima1d", "pchips", "quad", "lin"]),
    st.text(max_size=8).filter(lambda s: s.lower() not in [x for x in gen.SPLINES]),
)
DETECT = st.one_of(st.sampled_from(["", "Simple", "PARABOL", "parabola", "parabolic", "simple ", "peaks", None, 0, 1, True]), st.text(max_size=8).filter(lambda s: s not in ("simple", "parabol")))


def rejected(f, errors, what):
    """Runs f, which has to raise one of errors."""
    try:
        out = f()
    except errors:
        return
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        raise Violation("{}: {} ({}) instead of {}".format(what, type(e).__name__, str(e)[:100], "/".join(x.__name__ for x in errors)))
    raise Violation("{} was accepted (gives {})".format(what, np.shape(out) if isinstance(out, np.ndarray) else type(out).__name__))


def wrong_time(op, S, base):
    """A time array of another length."""
    n = len(S)
    m = {"minus": n - 1, "plus": n + 1, "one": 1, "twice": 2 * n, "empty": 0, "half": n // 2}[op["len"]]
    if m == n:
        m += 1
    T = np.arange(m, dtype=base)
    return T


def repeated_time(op, n):
    T = np.cumsum(np.random.RandomState(op["s"]).randint(1, 3, n)).astype(float) * op["a"]
    for k in op["at"]:
        i = k % (n - 1)
        T[i + 1] = T[i]
    return T


def run(obj, case, op):
    """Signal and time array of an operation, and its result."""
    S = gen.as_dtype(gen.signal(op["S"]), op["dtype"])
    T = gen.timeline(op["T"], len(S))
    return S, T, np.array(obj(S, T, op["max_imf"]))


def spoil(kind, cls, obj, op, cfg, seed=None):
    """Makes an invalid call."""
    S = gen.as_dtype(gen.signal(op["S"]), op["dtype"])
    n = len(S)
    k = op["max_imf"]
    if kind == "length":
        T = wrong_time(op, S, op["tdtype"])
        how = op["how"] % (3 if cls == "EMD" else 2)
        f = [lambda: obj(S, T, k), lambda: getattr(obj, cls.lower())(S, T, max_imf=k), lambda: obj.emd(S, T)][how]
        rejected(f, (ValueError,), "signal of {} samples with {} times".format(n, len(T)))
    elif kind == "repeated":
        emd = obj if cls == "EMD" else obj.EMD
        old, emd.extrema_detection = emd.extrema_detection, "parabol"
        try:
            rejected(lambda: obj(S, repeated_time(op, n), k), (AssertionError,), "time array with repeated values")
        finally:
            emd.extrema_detection = old
    elif kind == "spline":
        emd = obj if cls == "EMD" else obj.EMD
        old, emd.spline_kind = emd.spline_kind, op["name"]
        try:
            # Noise always needs envelopes; a signal needs them if it's not a trend
            if (cls != "CEEMDAN" and extrema_count(S) < 3) or emd.extrema_detection != "simple":
                K = np.array([[0.0, 1.0, 2.0, 3.0, 5.0], [1.0, 0.0, 2.0, 1.0, 3.0]])
                rejected(lambda: emd.spline_points(np.arange(5.0), K), (ValueError,), "spline kind {!r}".format(op["name"]))
            elif cls != "CEEMDAN" or n >= 30:
                width = getattr(obj, "noise_width", None)
                if cls == "EEMD":
                    obj.noise_width = 0.0
                try:
                    rejected(lambda: obj(S, None, k), (ValueError,), "spline kind {!r}".format(op["name"]))
                finally:
                    if cls == "EEMD":
                        obj.noise_width = width
        finally:
            emd.spline_kind = old
    elif kind == "detection":
        emd = obj if cls == "EMD" else obj.EMD
        old, emd.extrema_detection = emd.extrema_detection, op["detect"]
        try:
            rejected(lambda: obj(S, None, k), (ValueError,), "extrema detection {!r}".format(op["detect"]))
        finally:
            emd.extrema_detection = old
    elif kind == "construct":
        from PyEMD import CEEMDAN, EEMD, EMD

        c = {"EMD": EMD, "EEMD": EEMD, "CEEMDAN": CEEMDAN}[cls]
        rejected(lambda: c(extrema_detection=op["detect"]), (AssertionError,), "extrema detection {!r} at construction".format(op["detect"]))
    elif kind == "shape":
        m = np.tile(S, (op["rows"], 1))
        m = m.T if op["how"] % 2 else m
        if cls == "EMD":
            rejected(lambda: obj(m, None, k), (ValueError,), "signal of shape {}".format(m.shape))
    elif kind == "noise":
        if cls != "EMD":
            old, obj.noise_kind = obj.noise_kind, op["noise"]
            try:
                rejected(lambda: obj(S, None, k), (ValueError,), "noise kind {!r}".format(op["noise"]))
            finally:
                obj.noise_kind = old


def new(cls, case):
    from PyEMD import CEEMDAN, EEMD

    cfg = case["cfg"]
    if cls == "EMD":
        return make(cfg)
    if cls == "EEMD":
        return EEMD(trials=2, parallel=False, noise_width=0.1, **cfg)
    return CEEMDAN(trials=2, parallel=False, **cfg)


def history(case, rec):
    cls = case["cls"]
    obj = new(cls, case)
    last = None
    good = bad = 0
    for op in case["ops"]:
        kind = op["kind"]
        if kind == "valid":
            if cls != "EMD":
                obj.noise_seed(op["s"])
            try:
                S, T, out = run(obj, case, op)
            except Exception:
                if case["cfg"].get("extrema_detection") == "parabol":
                    raise Skip("ill-defined parabolic knots")
                raise
            fresh = new(cls, case)
            if cls != "EMD":
                fresh.noise_seed(op["s"])
            want = run(fresh, case, op)[2]
            require(same(out, want), "a valid call after {} rejected ones differs from a fresh instance: {}", bad, gap(out, want))
            last = [np.array(x) for x in pair(obj.get_imfs_and_residue(), "get_imfs_and_residue()")]
            good += 1
        else:
            S0 = gen.signal(op["S"])
            if len(S0) < 3:
                continue
            spoil(kind, cls, obj, op, case["cfg"])
            rec.label(kind)
            bad += 1
        # Results are those of the last valid call
        if last is None:
            rejected(obj.get_imfs_and_residue, (ValueError,), "access to results before any valid call")
            if cls == "EMD":
                rejected(obj.get_imfs_and_trend, (ValueError,), "access to results before any valid call")
        else:
            got = pair(obj.get_imfs_and_residue(), "get_imfs_and_residue()")
            for a, b, what in zip(got, last, ("IMFs", "residue")):
                require(same(a, b), "{} of the last valid call changed after a rejected one ({}): {}", what, kind, gap(a, b))
    rec.mark(bad > 0 and good > 0)


def letters(case, rec):
    """Spline names in any letter case are the same."""
    S = gen.signal(case["S"])
    name = "".join(c.upper() if b else c for c, b in zip(case["spline"], case["caps"]))
    a = array(make(case["cfg"], spline_kind=case["spline"]).emd(S, None, 3), 2, "output", len(S))
    b = array(make(case["cfg"], spline_kind=name).emd(S, None, 3), 2, "output", len(S))
    rec.mark(len(a) > 1 and name != case["spline"])
    require(same(a, b), "spline kinds {!r} and {!r} differ: {}", case["spline"], name, gap(a, b))


def parallel(case, rec):
    """Errors in worker processes come through."""
    from PyEMD import CEEMDAN, EEMD

    rec.mark()
    cls = {"EEMD": EEMD, "CEEMDAN": CEEMDAN}[case["cls"]]
    obj = cls(trials=2, parallel=True, processes=2)
    spoil(case["op"]["kind"], case["cls"], obj, case["op"], {})
    # And it's usable afterwards
    S = gen.signal(case["op"]["S"])
    obj.EMD = Smoother()
    array(obj(S, None, 1), 2, "output after a rejected call", len(S))


@st.composite
def ops(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    n = 30 if kind in ("spline",) else 8
    return {
        "kind": kind,
        "S": draw(gen.oscillating(n, 60) if draw(st.integers(0, 3)) else gen.signals(3, 60)),
        "T": draw(gen.timelines()),
        "dtype": draw(st.sampled_from(["float64", "float64", "float64", "float32", "int16"])),
        "tdtype": draw(st.sampled_from(["float64", "int64", "float32"])),
        "max_imf": draw(st.sampled_from([-1, 1, 2])),
        "s": draw(st.integers(0, 10**6)),
        "a": draw(st.sampled_from([1.0, 0.01, 1e3])),
        "at": draw(st.lists(st.integers(0, 60), min_size=1, max_size=3)),
        "len": draw(st.sampled_from(["minus", "plus", "one", "twice", "empty", "half"])),
        "how": draw(st.integers(0, 5)),
        "rows": draw(st.integers(1, 3)),
        "name": draw(NAMES),
        "detect": draw(DETECT),
        "noise": draw(st.sampled_from(["", "Normal", "gauss", "poisson", None, "UNIFORM"])),
    }


ALL = ["valid", "valid", "valid", "length", "length", "repeated", "spline", "detection", "construct", "shape", "noise"]
CFG = gen.configs(thr=False, maxit=False, detection=("simple", "simple", "parabol"))

PROP = Prop(
    "C22",
    "histories with at least one valid and one invalid call (letter case: at least two components)",
    [
        Sub(
            "history",
            st.fixed_dictionaries({"cls": st.sampled_from(["EMD", "EMD", "EEMD", "CEEMDAN"]), "cfg": CFG, "ops": st.lists(ops(ALL), min_size=2, max_size=6)}),
            history,
            quick=2400,
        ),
        Sub(
            "letters",
            st.fixed_dictionaries(
                {
                    "S": gen.oscillating(8, 60),
                    "cfg": gen.configs(thr=False, maxit=False),
                    "spline": st.sampled_from(gen.SPLINES),
                    "caps": st.lists(st.booleans(), min_size=13, max_size=13),
                }
            ),
            letters,
            quick=600,
        ),
        Sub(
            "parallel",
            st.fixed_dictionaries({"cls": st.sampled_from(["EEMD", "CEEMDAN"]), "op": ops(["length", "spline", "detection", "noise"])}),
            parallel,
            quick=40,
            thorough=400,
        ),
    ],
)
