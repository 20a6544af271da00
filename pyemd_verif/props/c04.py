"""C04 - purity: no mutation of inputs, no dependence on history."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import gen, pristine
from ..common import array, gap, make, safe_limit, same
from ..core import Prop, Sub, require

ATTRS = {
    "extrema_detection": st.sampled_from(["simple", "parabol"]),
    "FIXE": st.integers(0, 5),
    "FIXE_H": st.integers(0, 3),
    "nbsym": st.integers(1, 5),
    "spline_kind": st.sampled_from(gen.SPLINES),
    "range_thr": st.sampled_from([0.001, 0.1, 1.0]),
    "total_power_thr": st.sampled_from([0.005, 0.1, 5.0]),
    "std_thr": st.sampled_from([0.2, 0.01, 1.0]),
    "svar_thr": st.sampled_from([0.001, 0.1, 1e-6]),
    "energy_ratio_thr": st.sampled_from([0.2, 0.01, 0.6]),
    "MAX_ITERATION": st.sampled_from([1000, 20, 5, 3]),
}


@st.composite
def run_op(draw, hi=80):
    return {
        "op": "run",
        "i": draw(st.integers(0, 1)),
        "S": draw(st.one_of(gen.oscillating(8, hi), gen.oscillating(8, hi), gen.signals(2, hi))),
        "T": draw(gen.timelines()),
        "dtype": draw(st.sampled_from(["float64", "float64", "float64", "float32", "int16", "uint8"])),
        "layout": draw(st.sampled_from(gen.LAYOUTS)),
        "tlayout": draw(st.sampled_from(gen.LAYOUTS)),
        "max_imf": draw(st.sampled_from([-1, -1, 1, 2, 4])),
    }


@st.composite
def histories(draw):
    pool = draw(st.lists(run_op(), min_size=1, max_size=3))
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["run", "run", "run", "rerun", "rerun", "set", "pickle", "copy", "scribble", "get"]))
        if k == "run":
            ops.append(draw(run_op()))
        elif k == "rerun":
            ops.append(dict(draw(st.sampled_from(pool)), i=draw(st.integers(0, 1))))
        elif k == "set":
            name = draw(st.sampled_from(sorted(ATTRS)))
            ops.append({"op": "set", "i": draw(st.integers(0, 1)), "name": name, "value": draw(ATTRS[name])})
        else:
            ops.append({"op": k, "i": draw(st.integers(0, 1))})
    ops.append(dict(draw(st.sampled_from(pool)), i=draw(st.integers(0, 1))))
    return {"cfgs": [draw(gen.configs(maxit=False, detection=("simple", "parabol"))) for _ in range(2)], "ops": ops}


def timeline(op, n):
    T = gen.timeline(op["T"], n)
    return T if T is None else gen.with_layout(T, op["tlayout"])


def emd_histories(case, rec):
    pristine.start()
    cfgs = [dict(c) for c in case["cfgs"]]
    objs = [make(c) for c in cfgs]
    kept = []  # (array, its copy)
    runs = [0, 0]
    for op in case["ops"]:
        i = op["i"]
        k = op["op"]
        if k == "run":
            S = gen.with_layout(gen.as_dtype(gen.signal(op["S"]), op["dtype"]), op["layout"])
            T = timeline(op, len(S))
            lim = safe_limit(S, cfgs[i], op["max_imf"], cap=5)
            parabol = cfgs[i].get("extrema_detection") == "parabol"
            if parabol:
                lim = lim if 0 < lim < 3 else 3
                rec.label("parabol")
            S0, T0 = np.array(S.tolist(), dtype=S.dtype), None if T is None else np.array(T.tolist(), dtype=T.dtype)
            try:
                out = objs[i].emd(S, T, lim)
            except Exception:
                # Mirrored parabolic extrema might not cover the signal (known finding of C01), with no history too
                status, clean = pristine.run(cls="EMD", kw=cfgs[i], S=S0, T=T0, max_imf=lim)
                if not parabol or status == "ok":
                    raise
                rec.label("known failure of parabolic detection")
                out = None
            require(np.array_equal(S, S0), "signal was modified")
            require(T is None or np.array_equal(T, T0), "time array was modified")
            if out is None:
                continue
            out = array(out, 2, "output", len(S))
            fresh = make(cfgs[i]).emd(S0.copy(), None if T is None else T0.copy(), lim)
            require(same(out, fresh), "result after a history differs from a fresh instance: {}", gap(out, fresh))
            status, clean = pristine.run(cls="EMD", kw=cfgs[i], S=S0, T=T0, max_imf=lim)
            require(status == "ok", "fails in a fresh process: {}", clean)
            require(same(out, clean), "result after a history differs from a fresh process: {}", gap(out, clean))
            kept.append((out, out.copy()))
            imfs, res = objs[i].get_imfs_and_residue()
            kept.append((imfs, imfs.copy()))
            kept.append((res, res.copy()))
            require(not np.shares_memory(out, S) and not np.shares_memory(imfs, S) and not np.shares_memory(res, S), "output shares memory with the input")
            runs[i] += 1
            rec.mark(sum(runs) >= 2 and len(out) >= 2)
        elif k == "set":
            setattr(objs[i], op["name"], op["value"])
            cfgs[i][op["name"]] = op["value"]
            rec.label("set:" + op["name"])
        elif k == "pickle":
            objs[i] = pickle.loads(pickle.dumps(objs[i]))
            rec.label("pickle")
        elif k == "copy":
            # The copy takes over, the original goes on with something else
            objs[i] = copy.deepcopy(objs[i]) if len(kept) % 2 else copy.copy(objs[i])
            rec.label("copy")
        elif k == "scribble" and kept:
            # A user may do anything to arrays one has got
            a, _ = kept[-1]
            if a.flags.writeable and a.size:
                a[...] = 7.0
            kept = [x for x in kept if not np.shares_memory(x[0], a)]
            rec.label("scribble")
        elif k == "get" and runs[i]:
            objs[i].get_imfs_and_trend()
            objs[i].get_imfs_and_residue()
        for a, b in kept:
            require(np.array_equal(a, b), "an array returned earlier was modified")


@st.composite
def ens_histories(draw, cls):
    ops = []
    pool = []
    for _ in range(draw(st.integers(2, 4))):
        r = draw(run_op(hi=40))
        r["dtype"] = "float64"
        pool.append(r)
    for _ in range(draw(st.integers(2, 5))):
        k = draw(st.sampled_from(["run", "run", "run", "pickle", "set", "noise"]))
        if k == "run":
            ops.append(dict(draw(st.sampled_from(pool)), i=draw(st.integers(0, 1)), seed=draw(st.integers(0, 20))))
        elif k == "set":
            name = draw(st.sampled_from(["trials", "noise_width" if cls == "EEMD" else "epsilon", "noise_kind"]))
            value = {"trials": st.integers(1, 4), "noise_kind": st.sampled_from(["normal", "uniform"])}.get(name, st.sampled_from([0.01, 0.2]))
            ops.append({"op": "set", "i": draw(st.integers(0, 1)), "name": name, "value": draw(value)})
        else:
            ops.append({"op": k, "i": draw(st.integers(0, 1))})
    ops.append(dict(pool[0], i=draw(st.integers(0, 1)), seed=draw(st.integers(0, 20))))
    cfg = [dict(draw(gen.configs(modes=("fixe", "fixe_h"), maxit=False, thr=False)), trials=draw(st.integers(1, 3))) for _ in range(2)]
    if cls == "EEMD" and draw(st.booleans()):
        cfg[0]["separate_trends"] = True
    return {"cls": cls, "cfgs": cfg, "ops": ops}


def ensemble_histories(case, rec):
    pristine.start()
    import PyEMD

    cls = getattr(PyEMD, case["cls"])
    cfgs = [dict(c) for c in case["cfgs"]]
    objs = [cls(parallel=False, **c) for c in cfgs]
    kept = []
    runs = 0
    for op in case["ops"]:
        i, k = op["i"], op["op"]
        if k == "run":
            S = gen.with_layout(gen.signal(op["S"]), op["layout"])
            T = timeline(op, len(S))
            lim = op["max_imf"]
            S0, T0 = S.copy(), None if T is None else T.copy()
            glob = np.random.get_state()[1].copy()
            objs[i].noise_seed(op["seed"])
            out = np.asarray(objs[i](S, T, max_imf=lim))
            require(np.array_equal(S, S0), "signal was modified")
            require(T is None or np.array_equal(T, T0), "time array was modified")
            fresh = cls(parallel=False, **cfgs[i])
            fresh.noise_seed(op["seed"])
            want = np.asarray(fresh(S0, T0, max_imf=lim))
            require(same(out, want), "result after a history differs from a fresh instance: {}", gap(out, want))
            status, clean = pristine.run(cls=case["cls"], kw=dict(cfgs[i], parallel=False), seed=op["seed"], S=S0, T=T0, max_imf=lim)
            require(status == "ok", "fails in a fresh process: {}", clean)
            require(same(out, clean), "result after a history differs from a fresh process: {}", gap(out, clean))
            require(np.array_equal(glob, np.random.get_state()[1]), "numpy's global random state was changed")
            kept.append((out, out.copy()))
            runs += 1
            rec.mark(runs >= 2 and len(out) >= 2)
        elif k == "set":
            setattr(objs[i], op["name"], op["value"])
            cfgs[i][op["name"]] = op["value"]
            rec.label("set:" + op["name"])
        elif k == "pickle":
            objs[i] = pickle.loads(pickle.dumps(objs[i]))
            rec.label("pickle")
        else:
            objs[i].generate_noise(1.0, 5)
        for a, b in kept:
            require(np.array_equal(a, b), "an array returned earlier was modified")


def setup(part):
    """Returns (instance, its EMD, function running it on the part's signal)."""
    import PyEMD

    S = gen.signal(part["S"])
    T = gen.timeline(part["T"], len(S))
    lim = part["max_imf"] if part["max_imf"] > 0 else 3
    if part["cls"] == "EMD":
        obj = make(part["cfg"])
        return obj, obj, lambda: np.array(obj.emd(S, T, lim))
    obj = getattr(PyEMD, part["cls"])(trials=2, parallel=False, **part["cfg"])

    def run():
        obj.noise_seed(part["seed"])
        return np.array(obj(S, T, max_imf=lim))

    return obj, obj.EMD, run


def nested(case, rec):
    """Another instance decomposes in the middle of a decomposition."""
    _, _, alone = setup(case["outer"])
    want = alone()
    _, emd, run = setup(case["outer"])
    _, _, other = setup(case["inner"])
    once = other()
    count = [0]
    inner = []
    name = case["hook"]
    real = getattr(emd, name, None)
    if real is None:
        rec.skip("no " + name)

    def hooked(*args, **kwargs):
        count[0] += 1
        if count[0] % case["every"] == 0 and len(inner) < 3:
            inner.append(other())
        out = real(*args, **kwargs)
        if case["after"] and count[0] % case["every"] == 0 and len(inner) < 3:
            inner.append(other())
        return out

    setattr(emd, name, hooked)
    got = run()
    rec.mark(bool(inner) and len(want) >= 2)
    rec.label(case["outer"]["cls"] + " in the middle of it " + case["inner"]["cls"], "nested:%d" % len(inner))
    require(same(got, want), "another decomposition in the middle of one changes its result: {}", gap(got, want))
    for x in inner:
        require(same(x, once), "a decomposition in the middle of another gives a different result: {}", gap(x, once))


def threads(case, rec):
    """Instances in use by different threads at the same time."""
    import sys
    import threading

    want = [setup(part)[2]() for part in case["parts"]]
    got = [None] * len(want)
    errors = []
    runs = [setup(part)[2] for part in case["parts"]]
    gate = threading.Barrier(len(runs))

    def work(i):
        try:
            gate.wait(30)
            for _ in range(2):
                got[i] = runs[i]()
                if not same(got[i], want[i]):
                    break
        except Exception as e:  # noqa: BLE001
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(runs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    rec.mark(min(len(w) for w in want) >= 2)
    for i, (a, b) in enumerate(zip(got, want)):
        require(same(a, b), "decomposition in a thread differs while others run: {}", gap(a, b))


@st.composite
def parts(draw, cls=None, hi=60):
    cls = cls or draw(st.sampled_from(["EMD", "EMD", "EMD", "EEMD", "CEEMDAN"]))
    return {
        "cls": cls,
        "S": draw(gen.oscillating(8, hi if cls == "EMD" else 24)),
        "T": draw(gen.timelines()),
        "cfg": draw(gen.configs(maxit=False, thr=False, modes=("fixe", "fixe_h", "default") if cls == "EMD" else ("fixe",))),
        "max_imf": draw(st.sampled_from([-1, 1, 2, 4])),
        "seed": draw(st.integers(0, 20)),
    }


@st.composite
def same_length(draw):
    """Several parts, often with signals of the same length."""
    ps = [draw(parts()) for _ in range(draw(st.integers(2, 4)))]
    if draw(st.booleans()):
        ps = [dict(p, S=dict(ps[0]["S"], s=i) if "s" in ps[0]["S"] else p["S"]) for i, p in enumerate(ps)]
    return ps


PROP = Prop(
    "C04",
    "the history has at least two decompositions and a result with at least two rows",
    [
        Sub("emd", histories(), emd_histories, quick=2200),
        Sub(
            "nested",
            st.builds(
                lambda ps, hook, every, after: {"outer": ps[0], "inner": ps[1], "hook": hook, "every": every, "after": after},
                same_length(),
                st.sampled_from(["find_extrema", "find_extrema", "extract_max_min_spline", "spline_points", "prepare_points", "end_condition"]),
                st.integers(1, 6),
                st.booleans(),
            ),
            nested,
            quick=600,
        ),
        Sub("threads", st.builds(lambda ps: {"parts": ps}, same_length()), threads, quick=120),
        Sub("eemd", ens_histories("EEMD"), ensemble_histories, quick=600),
        Sub("ceemdan", ens_histories("CEEMDAN"), ensemble_histories, quick=350),
    ],
)
