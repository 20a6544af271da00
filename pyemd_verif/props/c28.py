"""C28 - two-dimensional decompositions."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, gap, same
from ..core import Prop, Sub, require

# --------------------------------------------------------------------------- images


@st.composite
def images(draw, square=False, lo=3, hi=14, kinds=("normal", "uniform", "ints", "few", "waves", "const", "plane", "spots", "checker")):
    r = draw(st.integers(lo, hi))
    c = r if square else draw(st.integers(lo, hi))
    return {
        "r": r,
        "c": c,
        "d": draw(st.sampled_from(list(kinds))),
        "s": draw(gen.seeds),
        "amp": draw(st.sampled_from([1.0, 1.0, 7.0, 300.0, 0.01, 1e6, 1e10])),
        "off": draw(st.sampled_from([0.0, 0.0, 2.5, -40.0])),
        "dtype": draw(st.sampled_from(["float64", "float64", "float64", "float32", "int64", "uint8", "int8", "uint16", "int16"])),
    }


def image(spec):
    r, c = spec["r"], spec["c"]
    rng = np.random.RandomState(spec["s"])
    y, x = np.mgrid[0:r, 0:c]
    d = spec["d"]
    if d == "normal":
        a = rng.randn(r, c)
    elif d == "uniform":
        a = rng.rand(r, c)
    elif d == "ints":
        a = rng.randint(0, 50, (r, c)).astype(float)
    elif d == "few":
        a = rng.randint(0, 3, (r, c)).astype(float)
    elif d == "waves":
        f = rng.uniform(0.5, 3, 4)
        a = np.sin(f[0] * x + f[1] * y) + 0.7 * np.cos(f[2] * x - f[3] * y)
    elif d == "const":
        a = np.full((r, c), float(rng.randint(0, 3)))
    elif d == "plane":
        a = rng.randint(-3, 4) * x + rng.randint(-3, 4) * y + 0.0
    elif d == "checker":
        a = ((x + y) % 2) * 1.0
    else:
        a = np.zeros((r, c))
        for _ in range(4):
            a[rng.randint(r), rng.randint(c)] += rng.randint(1, 5)
    a = a * spec["amp"] + spec["off"]
    dt = np.dtype(spec["dtype"])
    if dt.kind == "u":
        a = a - a.min()
        return np.minimum(np.round(a * (255.0 / a.max()) if a.max() > 0 else a), 255).astype(dt)
    if dt.kind == "i":
        if dt.itemsize < 8:
            top = max(float(np.max(np.abs(a))), 1e-9)
            a = a * (np.iinfo(dt).max / top)
        return np.round(a).astype(dt)
    return a.astype(dt)


def stack(x, what, shape):
    x = array(x, 3, what)
    require(x.shape[1:] == shape, "{} has shape {} for image of {}", what, x.shape, shape)
    require(len(x) >= 1, "{} has no components", what)
    return x


def complete(img, rows, what):
    f = img.astype(float)
    scale = float(f.max() - f.min())
    # Negligible remainder isn't returned, and it's compared after normalisation
    tol = 1.01e-8 * max(scale, 1.0) + 64 * 2.3e-16 * (float(np.max(np.sum(np.abs(rows), axis=0))) + float(np.max(np.abs(f))))
    if img.dtype == np.float32:
        tol += 64 * 1.2e-7 * float(np.max(np.abs(f)))
    err = float(np.max(np.abs(rows.sum(axis=0) - f)))
    require(err <= tol, "{} is off the image by {:.3g} (tolerance {:.3g})", what, err, tol)


# --------------------------------------------------------------------------- EMD2D


def make2d(cfg):
    from PyEMD.EMD2d import EMD2D

    return EMD2D(**cfg)


def interior(img):
    """Inner pixels not higher (not lower) than any of their neighbours."""
    lo, hi = set(), set()
    r, c = img.shape
    for i in range(1, r - 1):
        for j in range(1, c - 1):
            box = img[i - 1 : i + 2, j - 1 : j + 2]
            if img[i, j] <= box.min():
                lo.add((i, j))
            if img[i, j] >= box.max():
                hi.add((i, j))
    return lo, hi


def flat(f):
    """Rounding to integers might have bent a plane."""
    return not (np.any(np.diff(f, 2, axis=0)) or np.any(np.diff(f, 2, axis=1)) or np.any(np.diff(np.diff(f, axis=0), axis=1)))


def emd2d(case, rec):
    img = image(case["img"])
    keep = img.copy()
    k = case["max_imf"]
    emd = make2d(case["cfg"])
    rows = stack(emd.emd(img, k), "output of EMD2D", img.shape)
    require(np.array_equal(img, keep), "image was modified")
    complete(img, rows, "sum of EMD2D components")
    require(len(rows) <= k + 1, "{} components with max_imf={}", len(rows), k)
    rec.mark(len(rows) >= 2)
    rec.label("rows:%d" % min(len(rows), 4), "kind:" + case["img"]["d"])
    f = img.astype(float)
    if f.max() == f.min() or (case["img"]["d"] == "plane" and (img.dtype.kind == "f" or flat(f))):
        # Nothing to find, so no limit is needed
        rec.bounded()
        every = stack(make2d(case["cfg"]).emd(img), "output of EMD2D", img.shape)
        complete(img, every, "sum of EMD2D components")
        require(len(every) == 1, "{} components of {}", len(every), "a constant" if f.max() == f.min() else "a plane")
    lo, hi = interior(f)
    unit = interior((f - f.min()) / ((f.max() - f.min()) or 1.0))  # Rounding might make ties
    if len(unit[0]) != len(lo) or len(unit[1]) != len(hi):
        rec.label("ties by rounding")
    elif img.dtype != np.float32 and (len(lo) <= 4 or len(hi) <= 4):
        require(len(rows) == 1, "an image with {} minima and {} maxima was split into {} components", len(lo), len(hi), len(rows))
        rec.label("few extrema")
    again = stack(emd(img, k), "output of EMD2D", img.shape)
    require(same(rows, again), "another call gives a different result ({})", gap(rows, again))
    if img.dtype == np.float64 and case["img"]["d"] != "const" and len(rows) > 1:
        # Limit gives a prefix
        more = stack(make2d(case["cfg"]).emd(img, k + 1), "output of EMD2D", img.shape)
        m = min(len(rows), len(more), k + 1) - 1
        require(same(rows[:m], more[:m]), "a higher limit changes components ({})", gap(rows[:m], more[:m]))


def shifted(case, rec):
    """Images with dyadic values, for which shifts and scales by powers of two are exact."""
    spec = dict(case["img"], amp=1.0, off=0.0, dtype="float64")
    img = np.round(image(spec) * 16) / 16
    lo, hi = img.min(), img.max()
    k = case["max_imf"]
    c, f = float(case["c"]), 2.0 ** case["e"]
    if lo == hi:
        rec.skip("constant image")
    base = stack(make2d(case["cfg"]).emd(img, k), "output of EMD2D", img.shape)
    rec.mark(len(base) >= 2)
    moved = stack(make2d(case["cfg"]).emd(img + c, k), "output of EMD2D", img.shape)
    tol = 1e-12 * (abs(c) + float(np.max(np.abs(base))))
    require(len(moved) == len(base), "a constant changes the number of components: {} and {}", len(base), len(moved))
    require(same(moved[:-1], base[:-1], tol), "a constant changes components ({})", gap(moved[:-1], base[:-1]))
    require(same(moved[-1], base[-1] + c, tol), "a constant doesn't go to the last component ({})", gap(moved[-1], base[-1] + c))
    times = stack(make2d(case["cfg"]).emd(img * f, k), "output of EMD2D", img.shape)
    require(same(times, base * f, 1e-12 * f * float(np.max(np.abs(base)))), "components don't scale with the image ({})", gap(times, base * f))


def extrema2d(case, rec):
    raw = image(case["img"])
    img = raw.astype(float)
    res = make2d({}).find_extrema(raw)
    require(isinstance(res, (tuple, list)) and len(res) == 2, "find_extrema doesn't give minima and maxima")
    lo, hi = interior(img)
    for got, want, what in ((res[0], lo, "minima"), (res[1], hi, "maxima")):
        require(len(got) == 2, "{} aren't rows and columns", what)
        pts = list(zip(np.asarray(got[0]).tolist(), np.asarray(got[1]).tolist()))
        require(len(pts) == len(set(pts)) and set(pts) == want, "{} at {} instead of {}", what, sorted(pts)[:9], sorted(want)[:9])
    rec.mark(len(lo) + len(hi) > 0)
    big = array(make2d({}).prepare_image(img), 2, "prepared image")
    want = np.block([[img[::-1, ::-1], img[::-1], img[::-1, ::-1]], [img[:, ::-1], img, img[:, ::-1]], [img[::-1, ::-1], img[::-1], img[::-1, ::-1]]])
    require(same(big, want), "the image isn't mirrored at all edges")


# --------------------------------------------------------------------------- BEMD


def makeb(cfg):
    from PyEMD.BEMD import BEMD

    b = BEMD()
    for k, v in cfg.items():
        setattr(b, k, v)
    return b


def bemd(case, rec):
    img = image(case["img"])
    if case["img"]["dtype"] == "float32":
        img = img.astype(float)
    keep = img.copy()
    k = case["max_imf"]
    b = makeb(case["cfg"])
    rows = stack(b.bemd(img, k), "output of BEMD", img.shape)
    require(np.array_equal(img, keep), "image was modified")
    complete(img, rows, "sum of BEMD components")
    require(len(rows) <= k + 1, "{} components with max_imf={}", len(rows), k)
    rec.mark(len(rows) >= 2)
    rec.label("rows:%d" % min(len(rows), 4), "kind:" + case["img"]["d"])
    again = stack(b(img, k), "output of BEMD", img.shape)
    require(same(rows, again), "another call gives a different result ({})", gap(rows, again))
    if len(rows) == k + 1:
        more = stack(makeb(case["cfg"]).bemd(img, k + 1), "output of BEMD", img.shape)
        require(same(rows[:k], more[:k]), "a higher limit changes components ({})", gap(rows[:k], more[:k]))


def regional(img):
    """Pixels of 8-connected components of equal values without a higher neighbour."""
    r, c = img.shape
    out, seen = set(), set()
    for i in range(r):
        for j in range(c):
            if (i, j) in seen:
                continue
            comp, todo, top = [], [(i, j)], True
            seen.add((i, j))
            while todo:
                a, b = todo.pop()
                comp.append((a, b))
                for u in range(max(a - 1, 0), min(a + 2, r)):
                    for v in range(max(b - 1, 0), min(b + 2, c)):
                        if img[u, v] > img[i, j]:
                            top = False
                        elif img[u, v] == img[i, j] and (u, v) not in seen:
                            seen.add((u, v))
                            todo.append((u, v))
            if top:
                out.update(comp)
    return out


def extremab(case, rec):
    raw = image(case["img"])
    if raw.dtype.kind == "f":
        raw = np.round(raw.astype(float))
    img = raw.astype(float)
    res = makeb({}).find_extrema_positions(raw)
    require(isinstance(res, (tuple, list)) and len(res) == 2, "find_extrema_positions doesn't give minima and maxima")
    for got, want, what in ((res[0], regional(-img), "minima"), (res[1], regional(img), "maxima")):
        require(len(got) == 2, "{} aren't x and y", what)
        pts = list(zip(np.asarray(got[1]).tolist(), np.asarray(got[0]).tolist()))
        require(len(pts) == len(set(pts)) and set(pts) == want, "{} at {} instead of {}", what, sorted(pts)[:9], sorted(want)[:9])
        rec.mark(0 < len(want) < img.size)


CFG = st.builds(
    lambda m, f, it, mean: dict({"MAX_ITERATION": it}, **({"FIXE": f} if m == 1 else {"FIXE_H": f} if m == 2 else {}), **({"mean_thr": mean} if mean else {})),
    st.integers(0, 2), st.integers(1, 3), st.integers(1, 5), st.sampled_from([None, None, 0.1, 0.001]),
)
CFGB = st.builds(lambda f, h, it: {"FIXE": f, "FIXE_H": h, "MAX_ITERATION": it}, st.sampled_from([1, 1, 0, 2]), st.sampled_from([0, 1, 2]), st.integers(1, 5))
LIM = st.integers(1, 4)

PROP = Prop(
    "C28",
    "at least two components (decompositions) or any extrema (detection)",
    [
        Sub("emd2d", st.fixed_dictionaries({"img": images(), "cfg": st.one_of(CFG, CFG, CFG, st.just({})), "max_imf": LIM}), emd2d, quick=3000),
        Sub("shifted", st.fixed_dictionaries({"img": images(), "cfg": CFG, "max_imf": st.integers(1, 3), "c": st.integers(-64, 64), "e": st.integers(-40, 40)}), shifted, quick=2500),
        Sub("extrema2d", st.fixed_dictionaries({"img": images(hi=10)}), extrema2d, quick=4000),
        Sub("bemd", st.fixed_dictionaries({"img": images(square=True, hi=12), "cfg": st.one_of(CFGB, CFGB, CFGB, st.just({})), "max_imf": LIM}), bemd, quick=2500),
        Sub("extremab", st.fixed_dictionaries({"img": images(hi=10)}), extremab, quick=3000),
    ],
)
