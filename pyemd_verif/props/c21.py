"""C21 - timelines and type unification."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, Violation, require

DTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64"]
EDGES = [1, 2, 3, 127, 128, 129, 255, 256, 257, 2047, 2048, 2049, 2050, 32767, 32768, 32769, 65503, 65504, 65505, 65519, 65520, 65521, 65535, 65536, 65537]


def integer(dt):
    return np.dtype(dt).kind in "iu"


def timeline(case, rec):
    from PyEMD.utils import get_timeline

    n, name = case["n"], case["dtype"]
    if case["form"] == "none":
        t = get_timeline(n)
        dt = np.dtype(int)
    else:
        dt = np.dtype(name)
        arg = {"dtype": dt, "str": name, "type": dt.type}[case["form"]]
        t = get_timeline(n, arg) if case["pos"] else get_timeline(range_max=n, dtype=arg)
    rec.mark(n >= 2)
    rec.label(name if case["form"] != "none" else "default")
    require(isinstance(t, np.ndarray) and t.shape == (n,), "timeline of {} ({}) isn't an array of this length", n, name)
    require(t.dtype.kind in "iuf", "timeline has dtype {}", t.dtype)
    exact = np.arange(n, dtype=np.int64)
    bad = np.flatnonzero(t.astype(np.float64) != exact)
    require(len(bad) == 0, "timeline of {} ({}) is {} at index {}", n, name, t[bad[0]] if len(bad) else "", bad[0] if len(bad) else "")
    if case["form"] == "none":
        return
    require(integer(t.dtype) == integer(dt), "timeline of {} {} has dtype {}", n, name, t.dtype)
    require(t.dtype.itemsize >= dt.itemsize, "timeline of {} {} has dtype {}", n, name, t.dtype)


def inclusive(case, rec):
    from PyEMD.utils import smallest_inclusive_dtype

    dt = np.dtype(case["dtype"])
    value = case["value"]
    arg = {"dtype": dt, "str": case["dtype"], "type": dt.type}[case["form"]]
    if integer(dt):
        value = int(value)
        pool = [np.uint16, np.uint32, np.uint64]
        top = [int(np.iinfo(x).max) for x in pool]
    else:
        value = float(value)
        pool = [np.float16, np.float32, np.float64]
        top = [float(np.finfo(x).max) for x in pool]
    rec.mark()
    got = np.dtype(smallest_inclusive_dtype(arg, value))
    rec.label(case["dtype"] + "->" + got.name)
    require(integer(got) == integer(dt), "{} for {} in place of {}", got, value, dt)
    lim = int(np.iinfo(got).max) if integer(got) else float(np.finfo(got).max)
    require(value <= lim, "{} doesn't hold {}", got, value)
    # The smallest: narrower ones in the ladder wouldn't do (in floats up to the rounding of the value itself)
    if not integer(dt):
        top = [m * 0.999 for m in top]
    for x, m in zip(pool, top):
        if np.dtype(x).itemsize < got.itemsize and x != dt:
            require(value >= m, "{} for {}, though {} would do", got, value, np.dtype(x).name)


def unsupported(case, rec):
    from PyEMD.utils import smallest_inclusive_dtype

    rec.mark()
    for dt, value in ((case["dtype"], 5), ("int32", 2**64 + case["value"]), ("float32", float("inf"))):
        try:
            got = smallest_inclusive_dtype(np.dtype(dt), value)
        except ValueError:
            continue
        raise Violation("{} for {} in place of {} wasn't rejected".format(got, value, dt))


def unify(case, rec):
    from PyEMD.utils import deduce_common_type, unify_types

    def arr(spec, dtype):
        v = np.array(spec, dtype=float)
        if integer(dtype):
            info = np.iinfo(dtype)
            v = np.clip(np.round(v), float(info.min), float(info.max))
            if info.max > 2**53:
                v = np.clip(v, -(2.0**53), 2.0**53)
        elif dtype == "float16":
            v = np.clip(v, -6e4, 6e4)
        return v.astype(dtype)

    x, y = arr(case["x"], case["dx"]), arr(case["y"], case["dy"])
    x0, y0 = x.copy(), y.copy()
    out = unify_types(x, y)
    require(isinstance(out, (tuple, list)) and len(out) == 2, "unify_types doesn't give a pair")
    want = np.promote_types(x.dtype, y.dtype)
    rec.mark(x.dtype != y.dtype)
    for a, orig, what in ((out[0], x0, "first"), (out[1], y0, "second")):
        require(isinstance(a, np.ndarray) and a.dtype == want, "{} array of {} and {} became {}, expected {}", what, x.dtype, y.dtype, getattr(a, "dtype", type(a)), want)
        require(np.array_equal(a, orig.astype(want)), "{} array changed its values", what)
        require(np.array_equal(np.asarray(a, dtype=np.longdouble), np.asarray(orig, dtype=np.longdouble)), "{} array lost precision: {} -> {}", what, orig.dtype, want)
    require(np.array_equal(x, x0) and np.array_equal(y, y0) and x.dtype == x0.dtype and y.dtype == y0.dtype, "inputs were modified")
    d = np.dtype(deduce_common_type(x.dtype, y.dtype))
    require(d == want, "common type of {} and {} is {}, expected {}", x.dtype, y.dtype, d, want)
    d = np.dtype(deduce_common_type(y.dtype, x.dtype))
    require(d == want, "common type of {} and {} is {}, expected {}", y.dtype, x.dtype, d, want)


forms = st.sampled_from(["dtype", "dtype", "str", "type"])
tforms = st.sampled_from(["dtype", "dtype", "dtype", "str", "type", "none"])
BIG = [(2**24 + 3, "float32"), (2**24 + 1, "float32"), (2**24 + 2, "float16"), (2**24 + 2, "uint16")]
values = st.one_of(
    st.sampled_from(EDGES),
    st.integers(0, 100000),
    st.sampled_from([2**k + d for k in (8, 15, 16, 31, 32, 33, 48, 63) for d in (-2, -1, 0, 1)] + [2**64 - 2]),
    st.integers(0, 2**64 - 2),
)
nums = st.lists(st.one_of(st.integers(-300, 300), st.integers(-(10**9), 10**9), st.integers(-(2**53), 2**53)), min_size=0, max_size=8)

PROP = Prop(
    "C21",
    "timelines of two or more samples; different dtypes for unification; any value for the dtype ladder",
    [
        Sub(
            "timeline",
            st.fixed_dictionaries(
                {"n": st.one_of(st.sampled_from(EDGES), st.integers(1, 400), st.integers(1, 80000)), "dtype": st.sampled_from(DTYPES), "form": tforms, "pos": st.booleans()}
            ),
            timeline,
            quick=12000,
            examples=[{"n": n, "dtype": d, "form": "dtype", "pos": True} for n in EDGES for d in DTYPES]
            + [{"n": n, "dtype": d, "form": "dtype", "pos": True} for n, d in BIG],
        ),
        Sub("inclusive", st.fixed_dictionaries({"dtype": st.sampled_from(DTYPES), "value": values, "form": forms}), inclusive, quick=8000),
        Sub("unsupported", st.fixed_dictionaries({"dtype": st.sampled_from(["complex128", "complex64", "bool", "U3", "S2", "object", "datetime64[s]"]), "value": st.integers(0, 10**6)}), unsupported, quick=200),
        Sub("unify", st.fixed_dictionaries({"x": nums, "y": nums, "dx": st.sampled_from(DTYPES), "dy": st.sampled_from(DTYPES)}), unify, quick=8000),
    ],
)
