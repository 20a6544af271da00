"""C29 - two-dimensional components are results of sifting."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import gap, same
from ..core import Prop, Sub, require
from .c28 import CFG, CFGB, image, images, interior, make2d, makeb, stack


def surfaces(img):
    """Mean of surfaces spanned on the extrema of the image mirrored at all edges."""
    from scipy.interpolate import SmoothBivariateSpline

    r, c = img.shape
    big = np.block([[img[::-1, ::-1], img[::-1], img[::-1, ::-1]], [img[:, ::-1], img, img[:, ::-1]], [img[::-1, ::-1], img[::-1], img[::-1, ::-1]]])
    out = []
    for pts in interior(big):
        x, y = np.array(sorted(pts)).T
        out.append(SmoothBivariateSpline(x, y, big[x, y])(np.arange(r, 2 * r), np.arange(c, 2 * c)))
    return 0.5 * (out[0] + out[1])


def reference(img, limit):
    """Components after a single sifting each."""
    f = img.astype(float)
    off, scale = f.min(), (f.max() - f.min()) or 1.0
    left = (f - off) / scale
    rows = []
    while len(rows) < limit:
        lo, hi = interior(left)
        if min(len(lo), len(hi)) <= 4:
            break
        mean = surfaces(left)
        rows.append(left - mean)
        left = mean
        if np.allclose(left, 0):
            break
    rows.append(left)
    rows = np.array(rows) * scale
    rows[-1] += off
    return rows


def single(case, rec):
    img = image(case["img"])
    k = case["max_imf"]
    if img.max() == img.min():
        rec.skip("constant image")
    want = reference(img, k)
    rng = np.random.RandomState(0)
    f = img.astype(float)
    size = float(f.max() - f.min())
    for _ in range(2):
        other = reference(f + 1e-11 * size * rng.randn(*f.shape), k)
        if other.shape != want.shape or np.max(np.abs(other - want)) > 1e-7 * size:
            rec.skip("ill-conditioned")
    rows = stack(make2d({"MAX_ITERATION": 1, "FIXE": case["fixe"], "mean_thr": case["thr"]}).emd(img, k), "output of EMD2D", img.shape)
    gone = bool(np.max(np.abs(want[-1] - want[-1].mean())) < 1e-6 * size)
    if len(rows) != len(want) and not gone:
        require(False, "{} components instead of {}", len(rows), len(want))
    m = len(want) - gone
    require(same(rows[:m], want[:m], 1e-6 * size), "components after one sifting are off by {}", gap(rows[:m], want[:m]))
    rec.mark(len(want) >= 2)
    rec.label("components:%d" % len(want))


def protos(kind):
    """Whatever the rule, a component is the result of a number of siftings."""

    def run(img, cfg, k=1):
        obj = make2d(cfg) if kind == "EMD2D" else makeb(cfg)
        return stack((obj.emd if kind == "EMD2D" else obj.bemd)(img, k), "output of " + kind, img.shape)

    def check(case, rec):
        img = image(case["img"]).astype(float)
        if img.max() == img.min():
            rec.skip("constant image")
        cfg = dict(case["cfg"])
        top = cfg["MAX_ITERATION"]
        rows = run(img, cfg)
        if len(rows) == 1:
            rec.skip("nothing to sift")
        size = float(np.max(np.abs(rows))) + float(img.max() - img.min())
        if size > 1e8 * float(img.max() - img.min()):
            rec.skip("runaway sifting")
        steps = [run(img, dict(cfg, FIXE=99, FIXE_H=0, MAX_ITERATION=j))[0] for j in range(1, top + 1)]
        at = [j + 1 for j, p in enumerate(steps) if same(p, rows[0], 1e-9 * size)]
        require(at, "the component isn't the result of any number of siftings up to {}", top)
        if cfg.get("FIXE"):
            want = min(cfg["FIXE"] + 1, top)
            require(want in at, "FIXE={} makes {} siftings, not {}", cfg["FIXE"], at[0], want)
        elif cfg.get("FIXE_H"):
            require(at[-1] > min(cfg["FIXE_H"], top - 1), "FIXE_H={} makes {} siftings", cfg["FIXE_H"], at[-1])
        else:
            # Strictness of the rule
            loose = run(img, dict(cfg, mean_thr=1e300))
            require(same(loose[0], steps[0], 1e-9 * size), "sifting goes on although any mean is small enough")
        rec.mark(top > 1)
        rec.label("siftings:%d" % at[0])
        if kind == "BEMD":
            # The next component is the first one of what is left
            rest = img - rows[0]
            two = run(img, cfg, 2)
            one, odd = run(rest, cfg), run(rest * (1 + 1e-12), cfg)
            if len(two) > 1 and one.shape == odd.shape and same(one[0], odd[0], 1e-8 * size):
                require(same(two[0], rows[0], 1e-9 * size), "a higher limit changes the first component")
                require(same(two[1], one[0], 1e-6 * size), "the second component isn't the first one of what is left ({})", gap(two[1], one[0]))
                rec.label("second")

    return check


def siftings(verdicts, cfg, top):
    """Number of siftings and of verdicts asked for, by the rule."""
    asked = row = 0
    for n in range(1, top + 1):
        if cfg.get("FIXE"):
            if n >= cfg["FIXE"] + 1:
                return n, asked
        elif cfg.get("FIXE_H"):
            if n == 1:
                continue
            asked += 1
            row = row + 1 if verdicts[asked - 1] else 0
            if row >= cfg["FIXE_H"]:
                return n, asked
        else:
            asked += 1
            if verdicts[asked - 1]:
                return n, asked
    return top, asked


def halves(img, *args, **kwargs):
    """Envelopes leaving as many extrema as there are."""
    return 0.25 * img, 0.75 * img


def scripted(kind):
    """With given verdicts on proto-IMFs, numbers of siftings follow from the rule, for each component anew."""

    def check(case, rec):
        img = image(case["img"]).astype(float)
        if img.max() == img.min():
            rec.skip("constant image")
        cfg = dict(case["cfg"])
        top = cfg["MAX_ITERATION"]
        script = [bool(v) for v in case["script"]] + [False] * (2 * top)
        calls = []

        def decompose(k):
            del calls[:]
            obj = make2d(cfg) if kind == "EMD2D" else makeb(cfg)

            def verdict(proto, *args, **kwargs):
                calls.append(np.array(proto))
                return script[len(calls) - 1]

            obj.check_proto_imf = verdict
            if case["half"]:
                obj.extract_max_min_spline = halves
            rows = stack((obj.emd if kind == "EMD2D" else obj.bemd)(img, k), "output of " + kind, img.shape)
            return obj, rows

        obj, rows = decompose(1)
        if len(rows) == 1:
            rec.skip("nothing to sift")
        size = float(np.max(np.abs(rows))) + float(img.max() - img.min())
        if size > 1e8 * float(img.max() - img.min()):
            rec.skip("runaway sifting")
        n, asked = siftings(script, cfg, top)
        if asked and not calls:
            rec.skip("verdicts aren't asked for")
        plain = make2d if kind == "EMD2D" else makeb
        other = plain(dict(cfg, FIXE=99, FIXE_H=0, MAX_ITERATION=n))
        if case["half"]:
            other.extract_max_min_spline = halves
        step = stack((other.emd if kind == "EMD2D" else other.bemd)(img, 1), "output of " + kind, img.shape)
        require(same(step[0], rows[0], 1e-9 * size), "{} with verdicts {} doesn't make {} siftings", cfg, script[: len(calls)], n)
        rec.mark(n > 1)
        rec.label("siftings:%d" % n)
        # Another component
        if len(calls) == asked and asked:
            obj, rows = decompose(2)
            if len(calls) > asked:
                _, more = siftings(script[asked:], cfg, top)
                got = len(calls) - asked
                require(got <= more, "{} verdicts on the second component instead of {}", got, more)
                if got < more:
                    lo, hi = obj.find_extrema(calls[-1]) if kind == "EMD2D" else obj.find_extrema_positions(calls[-1])
                    least = min(len(lo[0]), len(hi[0]))
                    require(least <= (4 if kind == "EMD2D" else 1), "{} verdicts on the second component instead of {}", got, more)
                else:
                    rec.label("second component")

    return check


def criterion(case, rec):
    """Proto-IMF check, from its description. Values keep away from thresholds."""
    rng = np.random.RandomState(case["s"])
    thr, mse = case["mean_thr"], case["mse_thr"]
    shape = (case["r"], case["c"])
    for kind in ("EMD2D", "BEMD"):
        obj = make2d({}) if kind == "EMD2D" else makeb({})
        obj.mean_thr, obj.mse_thr = thr, mse
        # Fluctuation of the mean, anywhere on the image
        mean = np.zeros(shape)
        mean[rng.randint(shape[0]), rng.randint(shape[1])] = case["bump"] * thr * mean.size / (mean.size - 1.0)
        mean += case["offset"]
        flat = bool(np.max(np.abs(mean - mean.mean())) < thr)
        proto = rng.choice([-1.0, 1.0], shape) * case["amp"]
        proto[0, 0] *= 1.001
        prev = proto + rng.choice([-1.0, 1.0], shape) * case["step"] * case["amp"]
        small = bool(np.mean(np.abs(proto)) < thr)
        near = case["step"] <= (1e-6 if kind == "EMD2D" else 1e-3)
        weak = bool(np.mean(proto**2) < mse) and kind == "EMD2D"
        edge = min(abs(np.max(np.abs(mean - mean.mean())) / thr - 1), abs(np.mean(np.abs(proto)) / thr - 1), abs(np.mean(proto**2) / mse - 1))
        if edge < 1e-3:
            continue
        want = flat or small or near or weak
        got = bool(obj.check_proto_imf(proto, prev, mean))
        require(got == want, "{}: check of a proto-IMF gives {}: mean flat {}, small {}, converged {}, little energy {}", kind, got, flat, small, near, weak)
        rec.mark()
        rec.label("accepted" if want else "rejected")


RULES = st.builds(lambda h, it: {"MAX_ITERATION": it, "FIXE": 0, "FIXE_H": h}, st.sampled_from([0, 1, 2, 2, 3]), st.integers(1, 8))
SCRIPT = st.lists(st.sampled_from([1, 1, 0]), max_size=16)
RICH = ("normal", "uniform", "ints", "waves", "normal", "few")

PROP = Prop(
    "C29",
    "at least two components (reference), more than one sifting allowed (rules), values away from thresholds (check of proto-IMFs)",
    [
        Sub(
            "single",
            st.fixed_dictionaries({"img": images(lo=7, hi=18, kinds=RICH), "max_imf": st.integers(1, 3), "fixe": st.integers(0, 2), "thr": st.sampled_from([0.01, 1e-9])}),
            single,
            quick=800,
        ),
        Sub("protos2d", st.fixed_dictionaries({"img": images(lo=7, hi=18, kinds=RICH), "cfg": CFG}), protos("EMD2D"), quick=800),
        Sub("protosb", st.fixed_dictionaries({"img": images(square=True, lo=4, hi=10, kinds=RICH), "cfg": CFGB}), protos("BEMD"), quick=600),
        Sub("scripted2d", st.fixed_dictionaries({"img": images(lo=9, hi=30, kinds=RICH), "cfg": RULES, "script": SCRIPT, "half": st.booleans()}), scripted("EMD2D"), quick=600),
        Sub("scriptedb", st.fixed_dictionaries({"img": images(square=True, lo=4, hi=10, kinds=RICH), "cfg": RULES, "script": SCRIPT, "half": st.booleans()}), scripted("BEMD"), quick=400),
        Sub(
            "criterion",
            st.fixed_dictionaries(
                {"r": st.integers(2, 9), "c": st.integers(2, 9), "s": gen.seeds, "mean_thr": st.sampled_from([0.01, 0.5, 1e-4]), "mse_thr": st.sampled_from([0.01, 1.0, 1e-5]),
                 "bump": st.sampled_from([0.5, 0.9, 1.2, 10]), "offset": st.sampled_from([0.0, 3.0]), "amp": st.sampled_from([1e-5, 0.05, 0.5, 5.0]),
                 "step": st.sampled_from([0.0, 1e-7, 1e-3, 0.1, 1.0])}
            ),
            criterion,
            quick=2000,
        ),
    ],
)
