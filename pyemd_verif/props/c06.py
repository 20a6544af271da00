"""C06 - sifting applies its stopping rule exactly."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..common import array, build, decompose, describe, emd_cases, gap, make, same, scale_of
from ..core import Prop, Sub, require

FREE = {"range_thr": 0.0, "total_power_thr": 0.0}


def protos(S, cfg):
    """Proto-IMFs h_1, h_2, ... one sifting at a time, by the code itself, until a trend."""
    h = S
    while True:
        one = make(dict(cfg, FIXE=1, FIXE_H=0, MAX_ITERATION=1000, **FREE))
        _, imfs, _ = decompose(one, h, None, 1)
        if not len(imfs):
            return
        h = imfs[0]
        yield h


def fixe(case, rec):
    S, _ = build(case)
    cfg, n, m = case["cfg"], case["n"], case["maxit"]
    steps = min(n, m - 1)
    want = S
    trend = False
    k = 0
    for h in protos(S, cfg):
        k += 1
        want = h
        if k == steps:
            break
    if k < steps:
        trend = True
    emd = make(dict(cfg, FIXE=n, FIXE_H=0, MAX_ITERATION=m, **FREE))
    _, imfs, residue = decompose(emd, S, None, 1)
    tol = 1e-9 * scale_of(S, want)
    rec.mark(k >= 2)
    rec.label("capped" if n > m - 1 else "exact", "trend" if trend else "imf")
    if trend:
        require(len(imfs) == 0, "FIXE={}: proto-IMF became a trend after {} siftings but there is an IMF", n, k)
    elif n > m - 1:
        # Cap reached; it's said to be at most m
        require(len(imfs) == 1, "FIXE={} MAX_ITERATION={}: no IMF", n, m)
        if not same(imfs[0], want, tol):
            more = next(protos(want, cfg), None)
            require(more is not None and same(imfs[0], more, tol), "FIXE={} capped by MAX_ITERATION={}: IMF isn't that of {} or {} siftings", n, m, steps, m)
    else:
        require(len(imfs) == 1, "FIXE={}: no IMF although {} siftings are possible", n, k)
        require(same(imfs[0], want, tol), "FIXE={}: IMF isn't the result of {} single siftings: {}", n, n, gap(imfs[0], want))


def rule(case, rec):
    """The first proto-IMF that meets the rule is the IMF."""
    S, _ = build(case)
    cfg = case["cfg"]
    full = ref.full_config(cfg)
    cap = 60
    old = S
    want = None
    n = nh = 0
    trend = False
    margins = []
    balanced_seen = 0
    gen_ = protos(S, cfg)
    while n < cap:
        env = ref.envelopes(np.arange(len(S), dtype=float), old, full)
        h = next(gen_, None)
        if h is None or env is None:
            require((h is None) == (env is None), "sifting disagrees with the number of extrema")
            trend = True
            break
        n += 1
        mx, mn = ref.extrema_simple(h)
        balanced = abs(len(mx) + len(mn) - len(ref.zero_crossings(h))) < 2
        balanced_seen += balanced
        if cfg.get("FIXE_H"):
            if n >= 2:
                nh = nh + 1 if balanced else 0
                if nh >= cfg["FIXE_H"]:
                    want = h
                    break
        else:
            ok, margin = ref.criteria(h, old, env[2], env[3], full)
            if margin < 1e-6:
                rec.skip("criterion at a threshold")
            if ok and balanced:
                want = h
                break
        old = h
    if want is None and not trend:
        rec.skip("too long")
    _, imfs, residue = decompose(make(dict(cfg, MAX_ITERATION=1000, **FREE)), S, None, 1)
    rec.label("siftings:" + ("trend" if trend else "1" if n == 1 else "2" if n == 2 else "3-9" if n < 10 else "10+"))
    rec.mark(n >= 2)
    if trend:
        require(len(imfs) == 0, "proto-IMF became a trend after {} siftings but there is an IMF", n)
        return
    mx, mn = ref.extrema_simple(want)
    if len(mx) + len(mn) <= 2:
        require(len(imfs) == 0, "IMF has two or less extrema")
        return
    require(len(imfs) == 1, "no IMF although the rule is met after {} siftings", n)
    require(same(imfs[0], want, 1e-9 * scale_of(S, want)), "IMF isn't the first proto-IMF ({}) which meets the rule: {}", n, gap(imfs[0], want))


def balance(case, rec):
    """Each IMF has matching numbers of extrema and zero crossings."""
    S, _ = build(case)
    cfg = dict(case["cfg"], MAX_ITERATION=120)
    a = decompose(make(cfg), S, None, 4)[1]
    describe(rec, case, a)
    b = decompose(make(dict(cfg, MAX_ITERATION=127)), S, None, 4)[1]
    rec.mark(len(a) >= 1)
    for k in range(min(len(a), len(b))):
        if not same(a[k], b[k]):
            rec.label("max_iteration")
            break
        mx, mn = ref.extrema_simple(a[k])
        ext, zer = len(mx) + len(mn), len(ref.zero_crossings(a[k]))
        require(abs(ext - zer) <= 1, "IMF {} has {} extrema and {} zero crossings", k + 1, ext, zer)


def peel(case, rec):
    """IMFs are peeled off one after another: the k-th is the first one of what is left."""
    S, _ = build(case)
    cfg = dict(case["cfg"], **FREE)
    if not cfg.get("FIXE"):
        cfg["MAX_ITERATION"] = 40
    imfs = decompose(make(cfg), S, None, 4)[1]
    rec.mark(len(imfs) >= 2)
    for k in range(1, len(imfs)):
        left = S - imfs[:k].sum(axis=0)
        if np.max(np.abs(left)) < 1e-9 * scale_of(S):
            break
        one = decompose(make(cfg), left, None, 1)[1]
        if not len(one) and k == len(imfs) - 1:
            break
        if not len(one) or not same(one[0], imfs[k], 1e-9 * scale_of(S, imfs)):
            try:
                ref.stable_emd(left, None, 1, cfg)
            except ref.Degenerate as e:
                rec.skip(str(e))
            require(len(one), "no IMF in what is left after {} IMFs, though there is one more", k)
            require(same(one[0], imfs[k], 1e-6 * scale_of(S, imfs)), "IMF {} isn't the first IMF of what is left: {}", k + 1, gap(one[0], imfs[k]))
    rec.label("imfs:%d" % min(len(imfs), 4))


def strip(c):
    return dict(c, cfg={k: v for k, v in c["cfg"].items() if k != "MAX_ITERATION"})


def cases(modes, hi=100, **kw):
    return emd_cases(5, hi, modes=modes, thr=kw.pop("thr", True), osc=kw.pop("osc", True), maxit=False, amps=[1.0, 1.0, 20.0, 0.05], timeline=False, limits=st.just(1), **kw).map(strip)


PROP = Prop(
    "C06",
    "at least two siftings (rules), one IMF (balance) or two IMFs (peel)",
    [
        Sub("fixe", st.builds(lambda c, n, m: dict(c, n=n, maxit=m), cases(("fixe",)), st.integers(1, 12), st.sampled_from([1000, 1000, 1000, 13, 7, 4, 2])), fixe, quick=1200),
        Sub("fixe_h", cases(("fixe_h",)), rule, quick=1500),
        Sub("default", cases(("default",)), rule, quick=2500),
        Sub(
            "fixe_long",
            st.builds(lambda c, n, m: dict(c, n=n, maxit=m), cases(("fixe",), sig=gen.long_signals(400, 3000)), st.integers(1, 30), st.sampled_from([1000, 1000, 13])),
            fixe,
            quick=160,
        ),
        Sub("rules_long", cases(("fixe_h", "default"), sig=gen.long_signals(400, 2000)), rule, quick=240),
        Sub("balance", cases(("default", "fixe_h"), hi=200), balance, quick=700),
        Sub("peel", cases(("default", "fixe", "fixe_h"), hi=200), peel, quick=800),
    ],
)
