"""C03 - accessors describe the most recent decomposition."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, gap, pair, rounding, safe_limit, same
from ..core import Prop, Sub, Violation, require


def table(x, what, n):
    """2-D array; EEMD without any component gives an empty 1-D one."""
    if np.size(x) == 0:
        return np.zeros((0, n))
    return array(x, 2, what, n)


def raises_value_error(f, what):
    try:
        f()
    except ValueError:
        return
    except Exception as e:
        raise Violation("{} raised {} instead of ValueError".format(what, type(e).__name__))
    raise Violation("{} didn't raise ValueError before any decomposition".format(what))


ACC = st.sampled_from(["residue", "trend", "residue", "trend", "attrs"])


@st.composite
def histories(draw, kind):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 2)):
            ops.append(
                {
                    "op": "run",
                    "S": draw(gen.signals(4, 60)),
                    "amp": draw(st.sampled_from([1.0, 1.0, 1e-9, 1e-4])),
                    "max_imf": draw(st.sampled_from([-1, -1, 1, 2, 3])),
                    "scribble": draw(st.booleans()),
                    "dtype": draw(st.sampled_from(["float64", "float64", "float32", "int32", "uint8"])) if kind == "EMD" else "float64",
                }
            )
        else:
            ops.append({"op": draw(ACC)})
    ops.append({"op": "residue"})
    if kind == "EMD":
        ops.append({"op": "trend"})
    case = {"ops": ops, "cfg": draw(gen.configs(thr=True, maxit=False))}
    if kind != "EMD":
        case["cfg"] = draw(gen.configs(modes=("fixe",), thr=False, maxit=False))
        case["seed"] = draw(st.integers(0, 99))
        case["trials"] = draw(st.integers(1, 4))
        case["trends"] = draw(st.booleans())
    return case


def emd_history(case, rec):
    from PyEMD import EMD

    emd = EMD(**case["cfg"])
    last = None
    runs = 0
    for op in case["ops"]:
        if op["op"] == "run":
            S = gen.as_dtype(gen.signal(op["S"]) * op["amp"], op["dtype"])
            out = emd.emd(S, max_imf=safe_limit(S, case["cfg"], op["max_imf"]))
            rows = array(out, 2, "output", len(S))
            last = (S.astype(float).copy(), rows.copy(), rounding(S, rows))
            if op["scribble"]:  # What the caller does with arrays isn't of concern
                out[...] = out * 3 + 1
                S[:] = S[::-1].copy()
            runs += 1
        elif last is None:
            raises_value_error(emd.get_imfs_and_residue, "get_imfs_and_residue")
            raises_value_error(emd.get_imfs_and_trend, "get_imfs_and_trend")
            rec.label("before")
        else:
            S, rows, tol = last
            imfs, residue = pair(emd.get_imfs_and_residue(), "get_imfs_and_residue()")
            imfs, residue = array(imfs, 2, "IMFs", len(S)), array(residue, 1, "residue", len(S))
            want = S - imfs.sum(axis=0)
            require(same(residue, want, tol), "residue isn't the last signal minus IMFs: {}", gap(residue, want))
            size = float(np.max(np.abs(residue)))
            m = len(imfs)
            if size > 1.001e-8:
                require(same(rows, np.vstack((imfs, residue))), "output isn't IMFs followed by residue (residue up to {:.3g})", size)
            elif size < 0.999e-8:
                require(same(rows, imfs), "output isn't just IMFs although residue is up to {:.3g}", size)
            if op["op"] == "trend":
                timfs, trend = pair(emd.get_imfs_and_trend(), "get_imfs_and_trend()")
                timfs, trend = array(timfs, 2, "IMFs", len(S)), array(trend, 1, "trend", len(S))
                if size > 1.001e-8 or m == 0:
                    require(same(trend, residue), "trend isn't the residue: {}", gap(trend, residue))
                    require(same(timfs, imfs), "IMFs with trend differ from IMFs with residue: {}", gap(timfs, imfs))
                    rec.label("trend:residue")
                elif size < 0.999e-8:
                    require(same(trend, imfs[-1]), "trend isn't the last IMF although residue is negligible: {}", gap(trend, imfs[-1]))
                    require(same(timfs, imfs[:-1]), "IMFs with trend aren't all but the last one: {}", gap(timfs, imfs[:-1]))
                    rec.label("trend:last_imf")
                err = float(np.max(np.abs(timfs.sum(axis=0) + trend - S)))
                require(err <= tol + 1.01e-8, "IMFs and trend don't add up: {:.3g}", err)
            rec.mark(runs >= 1 and m >= 1)
    rec.label("runs:%d" % min(runs, 3))


def ensemble_history(cls_name):
    def check(case, rec):
        import PyEMD

        kw = dict(case["cfg"], trials=case["trials"], parallel=False)
        if cls_name == "EEMD":
            kw["separate_trends"] = case["trends"]
        obj = getattr(PyEMD, cls_name)(**kw)
        obj.noise_seed(case["seed"])
        last = None
        runs = 0
        for op in case["ops"]:
            if op["op"] == "run":
                S = gen.signal(op["S"]) * op["amp"]
                rows = table(obj(S, max_imf=op["max_imf"] if op["max_imf"] > 0 else 3), "output", len(S))
                last = (S.copy(), rows.copy(), rounding(S, rows))
                if op["scribble"]:
                    S[:] = S[::-1] * 3 + 1
                runs += 1
            elif last is None:
                raises_value_error(obj.get_imfs_and_residue, "get_imfs_and_residue")
                rec.label("before")
            else:
                S, rows, tol = last
                imfs, residue = pair(obj.get_imfs_and_residue(), "get_imfs_and_residue()")
                imfs, residue = table(imfs, "IMFs", len(S)), array(residue, 1, "residue", len(S))
                require(same(imfs, rows), "IMFs aren't those returned by the last run: {}", gap(imfs, rows))
                want = S - imfs.sum(axis=0)
                require(same(residue, want, tol), "residue isn't the last signal minus IMFs: {}", gap(residue, want))
                rec.mark(runs >= 1 and len(imfs) >= 2)
                rec.label("residue:" + ("zero" if np.max(np.abs(residue)) < 1e-12 else "nonzero"))

    return check


# Signals which are sifted completely, so that the residue is negligible and the trend is an IMF
symmetric = st.fixed_dictionaries(
    {
        "ops": st.lists(
            st.fixed_dictionaries(
                {
                    "op": st.just("run"),
                    "S": st.one_of(
                        st.builds(lambda n, a: {"k": "raw", "v": [float(a if i % 2 else -a) for i in range(n)]}, st.integers(5, 20), st.integers(1, 5)),
                        st.builds(lambda n, p, a: {"k": "shp", "d": "sinper", "n": n, "a": a, "b": 0.0, "p": p}, st.integers(12, 60), st.integers(3, 8), gen.floats(-2, 2, 1)),
                        st.builds(lambda n: {"k": "shp", "d": "zero", "n": n, "a": 1.0, "b": 0.0, "p": 2}, st.integers(2, 9)),
                    ),
                    "amp": st.sampled_from([1.0, 1e-9]),
                    "max_imf": st.sampled_from([-1, 1, 2]),
                    "scribble": st.booleans(),
                    "dtype": st.just("float64"),
                }
            ),
            min_size=1,
            max_size=3,
        ).map(lambda ops: ops + [{"op": "residue"}, {"op": "trend"}]),
        "cfg": gen.configs(maxit=False),
    }
)

PROP = Prop(
    "C03",
    "the history has an accessor call after a run with at least one IMF (two rows for ensembles)",
    [
        Sub("emd", histories("EMD"), emd_history, quick=2500),
        Sub("emd_no_residue", symmetric, emd_history, quick=1500),
        Sub("eemd", histories("EEMD"), ensemble_history("EEMD"), quick=700),
        Sub("ceemdan", histories("CEEMDAN"), ensemble_history("CEEMDAN"), quick=400),
    ],
)
