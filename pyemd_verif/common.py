"""Helpers shared by the checks: building cases, running the package, validating its results."""
import contextlib
import time

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from . import core
from .core import Violation, require

AMPS = [1.0, 1.0, 1.0, 1.0, 1e-2, 1e-4, 1e-6, 1e-7, 1e3, 1e6, 1e9]


def array(x, ndim, what, n=None, finite=True):
    """Validates something returned by the code under test and gives it as an array."""
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation("{} isn't an array: {}".format(what, e))
    require(a.dtype.kind in "fiu", "{} has dtype {}", what, a.dtype)
    require(a.ndim == ndim, "{} has {} dimensions (shape {}), expected {}", what, a.ndim, a.shape, ndim)
    if n is not None:
        require(a.shape[-1] == n, "{} has shape {}, expected {} samples", what, a.shape, n)
    if finite:
        require(bool(np.all(np.isfinite(a))), "{} isn't finite", what)
    return a


def pair(x, what):
    require(isinstance(x, (tuple, list)) and len(x) == 2, "{} isn't a pair", what)
    return x


def make(cfg, **kw):
    from PyEMD import EMD

    return EMD(**dict(cfg, **kw))


def safe_limit(S, cfg, max_imf, cap=8):
    """Without (or with tiny) thresholds an unlimited decomposition goes down to rounding errors,
    where it can take very long. Limits the number of IMFs then."""
    scale = float(np.max(np.abs(np.asarray(S, dtype=float)))) if len(S) else 0.0
    eps = float(np.finfo(S.dtype).eps) if S.dtype.kind == "f" else 2.3e-16
    floor = 50 * eps * scale
    if cfg.get("range_thr", 1e-3) <= floor:
        return cap if max_imf <= 0 else min(max_imf, cap)
    if max_imf <= 0 and S.dtype.kind == "f" and S.dtype.itemsize < 8:
        return 25  # Rounding errors of low precision keep adding extrema to a slow trend
    return max_imf


def scale_of(*arrays):
    return max([1e-300] + [float(np.max(np.abs(a))) for a in arrays if np.size(a)])


def eps_of(S):
    return float(np.finfo(S.dtype).eps) if S.dtype.kind == "f" else float(np.finfo(float).eps)


def rounding(S, rows):
    """Bound for rounding errors in a sum of rows."""
    total = np.max(np.abs(np.asarray(S, dtype=float))) if np.size(S) else 0.0
    if np.size(rows):
        total += float(np.max(np.sum(np.abs(rows), axis=0)))
    return 32 * eps_of(S) * (total + 1e-300)


def ended(emd, S, T, max_imf, call):
    """Result of call(). If it takes too long then it's a violation, provided that the reference algorithm
    comes to an end, whatever the rounding errors."""
    start = time.process_time()
    try:
        return call()
    except core.CaseTimeout:
        if time.process_time() - start < 0.5 * core.END_LIMIT:
            raise
        cfg = {k: getattr(emd, k) for k in ref.DEFAULTS if hasattr(emd, k)}
        core.rearm()
        try:
            k = len(ref.stable_emd(S, T, max_imf, cfg)["imfs"])
        except ref.Degenerate:
            raise core.CaseTimeout()
        raise core.Stuck("no result, although the decomposition ends after {} IMFs".format(k))


def decompose(emd, S, T=None, max_imf=-1):
    """Runs EMD and gives validated (rows, imfs, residue)."""
    n = len(S)
    rows = array(ended(emd, S, T, max_imf, lambda: emd.emd(S, T, max_imf)), 2, "output of EMD", n)
    imfs, residue = pair(emd.get_imfs_and_residue(), "get_imfs_and_residue()")
    imfs = array(imfs, 2, "IMFs", n)
    residue = array(residue, 1, "residue", n)
    return rows, imfs, residue


def same(a, b, tol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if tol == 0:
        return bool(np.array_equal(a, b))
    return a.size == 0 or bool(np.max(np.abs(a - b)) <= tol)


def gap(a, b):
    """For messages: how much arrays differ."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shapes {} and {}".format(a.shape, b.shape)
    if not a.size:
        return "0"
    return "{:.3g}".format(float(np.max(np.abs(a - b))))


@st.composite
def emd_cases(draw, lo=2, hi=200, osc=False, modes=("default", "fixe", "fixe_h"), detection=("simple",), thr=True,
              maxit=True, amps=AMPS, dtypes=None, limits=gen.max_imfs, timeline=True, sig=None):
    case = {
        "S": draw(sig if sig is not None else gen.oscillating(max(lo, 8), hi) if osc or draw(st.integers(0, 3)) else gen.signals(lo, hi)),
        "cfg": draw(gen.configs(modes=modes, detection=detection, thr=thr, maxit=maxit)),
        "max_imf": draw(limits),
    }
    if amps:
        case["amp"] = draw(st.sampled_from(amps))
        case["off"] = draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, -3.5, 100.0]))
    if timeline:
        case["T"] = draw(gen.timelines())
    if dtypes:
        case["dtype"] = draw(st.sampled_from(dtypes))
        case["layout"] = draw(st.sampled_from(gen.LAYOUTS))
    return case


def build(case):
    """(S, T) of a case."""
    S = gen.signal(case["S"])
    if "amp" in case:
        S = S * case["amp"] + case["off"]
    if "dtype" in case:
        S = gen.as_dtype(S, case["dtype"])
        S = gen.with_layout(S, case["layout"])
    T = gen.timeline(case["T"], len(S)) if "T" in case else None
    return S, T


def describe(rec, case, imfs):
    cfg = case["cfg"]
    rec.label("fixe" if cfg.get("FIXE") else "fixe_h" if cfg.get("FIXE_H") else "default")
    rec.label("spline:" + cfg.get("spline_kind", "cubic"))
    rec.label("imfs:" + ("0" if len(imfs) == 0 else "1" if len(imfs) == 1 else "2+"))


def extrema_count(S):
    mx, mn = ref.extrema_simple(S)
    return len(mx) + len(mn)


@contextlib.contextmanager
def start_method(name):
    """Processes are started in the given way."""
    import multiprocessing

    old = multiprocessing.get_start_method()
    multiprocessing.set_start_method(name, force=True)
    try:
        yield
    finally:
        multiprocessing.set_start_method(old, force=True)


def processes_end(before, wait=30.0):
    """Processes started since `before` was taken have to end by themselves."""
    import gc
    import multiprocessing

    end = time.monotonic() + wait
    while True:
        left = [p for p in multiprocessing.active_children() if p.pid not in before]
        if not left:
            return
        if time.monotonic() > end:
            break
        gc.collect()
        time.sleep(0.02)
    raise Violation("{} processes are still running {:g} s after the decomposition".format(len(left), wait))


def process_ids():
    import multiprocessing

    return {p.pid for p in multiprocessing.active_children()}
