"""Independent reference model of the EMD family: written from the documentation and the papers,
with plain loops and other numerical routes than the package, and used only as an oracle."""
import math

import numpy as np
from scipy.interpolate import CubicSpline, make_interp_spline

# --------------------------------------------------------------------------- extrema


def _half_even(num):
    """round(num / 2), half to even, on integers."""
    q, rem = divmod(num, 2)
    if rem and q % 2:
        q += 1
    return q


def runs(S):
    """Maximal runs of equal values: list of (first index, last index, value)."""
    out = []
    i, n = 0, len(S)
    while i < n:
        j = i
        while j + 1 < n and S[j + 1] == S[i]:
            j += 1
        out.append((i, j, S[i]))
        i = j + 1
    return out


def extrema_simple(S):
    """Indices of local maxima and minima. A plateau counts once, at its middle sample."""
    S = [float(x) for x in S]
    rs = runs(S)
    mx, mn = [], []
    for k in range(1, len(rs) - 1):
        a, b, v = rs[k]
        left, right = rs[k - 1][2], rs[k + 1][2]
        if v > left and v > right:
            mx.append(_half_even(a + b))
        elif v < left and v < right:
            mn.append(_half_even(a + b))
    return mx, mn


def zero_crossings(S):
    """Indices of zero crossings: index before a change of sign, and middle of each run of zeros."""
    S = [float(x) for x in S]
    out = [i for i in range(len(S) - 1) if (S[i] < 0 < S[i + 1]) or (S[i] > 0 > S[i + 1])]
    out += [_half_even(a + b) for a, b, v in runs(S) if v == 0]
    return sorted(out)


def extrema_parabol(T, S):
    """Vertices of parabolas through three consecutive points (inner points of plateaus are skipped),
    accepted if the vertex is closer to the mid point than halfway to its neighbours.
    Returns (max_pos, max_val, min_pos, min_val, margin): margin is the relative distance of the
    closest call to the acceptance boundary (or to a straight line)."""
    n = len(S)
    keep = [0] + [i for i in range(1, n - 1) if not (S[i - 1] == S[i] == S[i + 1])] + [n - 1]
    t = [float(T[i]) for i in keep]
    s = [float(S[i]) for i in keep]
    mxp, mxv, mnp, mnv = [], [], [], []
    margin = math.inf
    top = max(abs(x) for x in s)
    for i in range(1, len(t) - 1):
        h0, h1 = t[i] - t[i - 1], t[i + 1] - t[i]
        d0, d1 = (s[i] - s[i - 1]) / h0, (s[i + 1] - s[i]) / h1
        curv = (d1 - d0) / (h0 + h1)  # coefficient of the quadratic
        slope = (d0 * h1 + d1 * h0) / (h0 + h1)  # derivative at the mid point
        big = max(abs(d0), abs(d1))
        if 0 < max(abs(s[i] - s[i - 1]), abs(s[i + 1] - s[i])) < 1e-10 * top:
            margin = 0.0  # Flat up to rounding errors
        if big == 0:
            margin = 0.0
            continue
        if abs(curv) * (h0 + h1) <= 1e-9 * big:
            # (Nearly) straight line: vertex is far away, unless also flat
            if abs(slope) * 1e-3 > abs(curv) * max(h0, h1):
                continue
            margin = 0.0
            continue
        x = -slope / (2 * curv)  # relative to the mid point
        margin = min(margin, abs(x - 0.5 * h1) / h1, abs(x + 0.5 * h0) / h0)
        if -0.5 * h0 <= x < 0.5 * h1:
            v = s[i] + slope * x + curv * x * x
            if curv < 0:
                mxp.append(t[i] + x)
                mxv.append(v)
            else:
                mnp.append(t[i] + x)
                mnv.append(v)
    return mxp, mxv, mnp, mnv, margin


# --------------------------------------------------------------------------- boundary


class Degenerate(Exception):
    """The rule isn't well defined for the input."""


def _mirror_left(S, mx, mn, nbsym, P):
    """Mirrored maxima and minima (lists of (position, value), the farthest first) left of the first sample.
    mx, mn: indices, ascending; P: positions of samples."""
    if mx[0] < mn[0]:
        swap = False
        first, other = mx, mn
        inside = S[0] > S[mn[0]]
    else:
        swap = True
        first, other = mn, mx
        inside = S[0] < S[mx[0]]
    # `first` - type of the extremum which is the closest to the edge
    if inside:
        axis = first[0]
        f, o = first[1 : nbsym + 1], other[:nbsym]
        if not f:
            f = first[:]
        # Has to get behind the edge
        for i in (f[-1], o[-1]):
            far = 2 * P[axis] - P[i] - P[0]
            if far != 0 and abs(far) < 1e-9 * (P[-1] - P[0]):
                raise Degenerate("mirrored right at the edge")
        if 2 * P[axis] - P[f[-1]] > P[0] or 2 * P[axis] - P[o[-1]] > P[0]:
            axis = 0
            f = first[:nbsym]
    else:
        axis = 0
        f, o = first[:nbsym], [0] + other[: nbsym - 1]
    fp = [(2 * P[axis] - P[i], S[i]) for i in reversed(f)]
    op = [(2 * P[axis] - P[i], S[i]) for i in reversed(o)]
    return (op, fp) if swap else (fp, op)


def knots_simple(S, mx, mn, nbsym, T=None):
    """Knots (positions, values) of the upper and lower envelopes; positions are sample indices unless T is given."""
    n = len(S)
    S = [float(x) for x in S]
    P = list(range(n)) if T is None else [float(x) for x in T]
    left = _mirror_left(S, mx, mn, nbsym, P)
    back = [-x for x in reversed(P)]
    rev = _mirror_left(S[::-1], [n - 1 - i for i in reversed(mx)], [n - 1 - i for i in reversed(mn)], nbsym, back)
    out = []
    for side, idx in ((0, mx), (1, mn)):
        right = [(-p, v) for p, v in reversed(rev[side])]
        pts = left[side] + [(P[i], S[i]) for i in idx] + right
        clean = []
        for p in pts:
            if clean and clean[-1][0] == p[0]:
                clean.pop()
            clean.append(p)
        out.append(np.array(clean, dtype=float).T)
    return out[0], out[1]


def _edge_parabol(t0, s0, mxp, mxv, mnp, mnv, nbsym, need_two=False):
    """Mirrored (max, min) points at the left edge; the farthest first."""
    d = mxp[0] - mnp[0]
    if d < 0:
        swap, fp, fv, op, ov = False, mxp, mxv, mnp, mnv
        inside = s0 > mnv[0]
    else:
        swap, fp, fv, op, ov = True, mnp, mnv, mxp, mxv
        inside = s0 < mxv[0]
    span = abs(mxp[-1] - mxp[0]) + abs(d)
    if abs(abs(d) - (fp[0] - t0)) < 1e-8 * span or abs(s0 - ov[0]) < 1e-9 * max(map(abs, [s0, *mxv, *mnv])):
        raise Degenerate("choice of symmetry at a tie")
    if inside and abs(d) > fp[0] - t0 and not (need_two and not swap and len(mxp) < 2):
        ax = fp[0]
        f = [(2 * ax - p, v) for p, v in zip(fp[1 : nbsym + 1], fv[1 : nbsym + 1])]
        o = [(2 * ax - p, v) for p, v in zip(op[:nbsym], ov[:nbsym])]
    else:
        ax = t0
        f = [(2 * ax - p, v) for p, v in zip(fp[:nbsym], fv[:nbsym])]
        o = [(2 * ax - p, v) for p, v in zip([t0] + op[: nbsym - 1], [s0] + ov[: nbsym - 1])]
    f, o = f[::-1], o[::-1]
    return (o, f) if swap else (f, o)


def knots_parabol(T, S, mxp, mxv, mnp, mnv, nbsym):
    if not mxp or not mnp:
        raise Degenerate("no maxima or no minima")
    lmax, lmin = _edge_parabol(float(T[0]), float(S[0]), mxp, mxv, mnp, mnv, nbsym)
    neg = lambda v: [-x for x in reversed(v)]  # noqa: E731
    bw = lambda v: list(reversed(v))  # noqa: E731
    rmax, rmin = _edge_parabol(-float(T[-1]), float(S[-1]), neg(mxp), bw(mxv), neg(mnp), bw(mnv), nbsym, True)
    out = []
    for lft, pos, val, rgt in ((lmax, mxp, mxv, rmax), (lmin, mnp, mnv, rmin)):
        pts = lft + list(zip(pos, val)) + [(-p, v) for p, v in reversed(rgt)]
        k = np.array(pts, dtype=float).T
        if k.ndim != 2 or k.shape[1] < 3:
            raise Degenerate("too few knots")
        if np.any(np.diff(k[0]) <= 1e-9 * (k[0, -1] - k[0, 0])):
            raise Degenerate("knots not increasing")
        if k[0, 0] > T[0] or k[0, -1] < T[-1]:
            raise Degenerate("knots don't cover the range")
        out.append(k)
    return out[0], out[1]


# --------------------------------------------------------------------------- splines


def _hermite(X, Y, D, x):
    X, Y, D, x = (np.asarray(v, dtype=float) for v in (X, Y, D, x))
    i = np.clip(np.searchsorted(X, x, side="right") - 1, 0, len(X) - 2)
    h = X[i + 1] - X[i]
    u = (x - X[i]) / h
    h00 = (1 + 2 * u) * (1 - u) ** 2
    h10 = u * (1 - u) ** 2
    h01 = u * u * (3 - 2 * u)
    h11 = u * u * (u - 1)
    return h00 * Y[i] + h10 * h * D[i] + h01 * Y[i + 1] + h11 * h * D[i + 1]


def spl_cubic(X, Y, x):
    if len(X) == 3:
        return spl_natural3(X, Y, x)
    return make_interp_spline(X, Y, k=3)(x)


def spl_natural3(X, Y, x):
    """Natural cubic spline on three points, from its second derivative in the middle."""
    X, Y, x = (np.asarray(v, dtype=float) for v in (X, Y, x))
    h0, h1 = X[1] - X[0], X[2] - X[1]
    M = 3.0 * ((Y[2] - Y[1]) / h1 - (Y[1] - Y[0]) / h0) / (h0 + h1)
    out = np.empty(len(x))
    lo = x < X[1]
    u = x[lo] - X[0]
    out[lo] = Y[0] + u * ((Y[1] - Y[0]) / h0 - M * h0 / 6) + M * u**3 / (6 * h0)
    u = X[2] - x[~lo]
    out[~lo] = Y[2] + u * ((Y[1] - Y[2]) / h1 - M * h1 / 6) + M * u**3 / (6 * h1)
    return out


def spl_akima(X, Y, x):
    X, Y = np.asarray(X, dtype=float), np.asarray(Y, dtype=float)
    n = len(X)
    m = np.diff(Y) / np.diff(X)
    ext = np.empty(n + 3)
    ext[2:-2] = m
    ext[1] = 2 * ext[2] - ext[3]
    ext[0] = 2 * ext[1] - ext[2]
    ext[-2] = 2 * ext[-3] - ext[-4]
    ext[-1] = 2 * ext[-2] - ext[-3]
    D = np.empty(n)
    dm = np.abs(np.diff(ext))
    big = max(dm[i + 2] + dm[i] for i in range(n))
    for i in range(n):
        w1, w2 = dm[i + 2], dm[i]
        if w1 + w2 > 1e-9 * big:
            D[i] = (w1 * ext[i + 1] + w2 * ext[i + 2]) / (w1 + w2)
        else:
            D[i] = 0.5 * (ext[i] + ext[i + 3])
    return _hermite(X, Y, D, x)


def spl_pchip(X, Y, x):
    X, Y = np.asarray(X, dtype=float), np.asarray(Y, dtype=float)
    h = np.diff(X)
    m = np.diff(Y) / h
    n = len(X)
    if n == 2:
        return _hermite(X, Y, np.array([m[0], m[0]]), x)
    D = np.zeros(n)
    for i in range(1, n - 1):
        if m[i - 1] * m[i] > 0:
            w1, w2 = 2 * h[i] + h[i - 1], h[i] + 2 * h[i - 1]
            D[i] = (w1 + w2) / (w1 / m[i - 1] + w2 / m[i])

    def end(h0, h1, m0, m1):
        d = ((2 * h0 + h1) * m0 - h0 * m1) / (h0 + h1)
        if np.sign(d) != np.sign(m0):
            return 0.0
        if np.sign(m0) != np.sign(m1) and abs(d) > 3 * abs(m0):
            return 3 * m0
        return d

    D[0] = end(h[0], h[1], m[0], m[1])
    D[-1] = end(h[-1], h[-2], m[-1], m[-2])
    return _hermite(X, Y, D, x)


def spl_cubic_hermite(X, Y, x):
    X, Y = np.asarray(X, dtype=float), np.asarray(Y, dtype=float)
    h = np.diff(X)
    m = np.diff(Y) / h
    D = np.empty(len(X))
    D[0], D[-1] = m[0], m[-1]
    # Derivative of the parabola through three neighbours
    D[1:-1] = (m[:-1] * h[1:] + m[1:] * h[:-1]) / (h[1:] + h[:-1])
    return _hermite(X, Y, D, x)


def spl_linear(X, Y, x):
    return np.interp(x, X, Y)


def spl_quadratic(X, Y, x):
    return make_interp_spline(X, Y, k=2)(x)


SPLINE = {
    "cubic": spl_cubic,
    "akima": spl_akima,
    "pchip": spl_pchip,
    "cubic_hermite": spl_cubic_hermite,
    "linear": spl_linear,
    "slinear": spl_linear,
    "quadratic": spl_quadratic,
}

natural3 = lambda X, Y, x: CubicSpline(X, Y, bc_type="natural")(x)  # noqa: E731


# --------------------------------------------------------------------------- EMD

DEFAULTS = dict(
    spline_kind="cubic",
    nbsym=2,
    energy_ratio_thr=0.2,
    std_thr=0.2,
    svar_thr=0.001,
    total_power_thr=0.005,
    range_thr=0.001,
    extrema_detection="simple",
    FIXE=0,
    FIXE_H=0,
    MAX_ITERATION=1000,
)


def full_config(cfg):
    out = dict(DEFAULTS)
    out.update(cfg)
    return out


def find(T, S, detection):
    """(max_pos, max_val, min_pos, min_val, margin)"""
    if detection == "simple":
        mx, mn = extrema_simple(S)
        return mx, [S[i] for i in mx], mn, [S[i] for i in mn], math.inf
    return extrema_parabol(T, S)


def count_extrema(T, S, detection):
    e = find(T, S, detection)
    return len(e[0]) + len(e[2])


def envelopes(T, S, cfg):
    """Upper and lower envelopes with their knots, or None if there are less than three extrema."""
    det = cfg["extrema_detection"]
    mxp, mxv, mnp, mnv, margin = find(T, S, det)
    if det == "parabol" and margin < 1e-7:
        raise Degenerate("vertex at the acceptance boundary")
    if len(mxp) + len(mnp) < 3:
        return None
    if det == "simple":
        kmax, kmin = knots_simple(S, list(mxp), list(mnp), cfg["nbsym"])
    else:
        kmax, kmin = knots_parabol(T, S, mxp, mxv, mnp, mnv, cfg["nbsym"])
    f = SPLINE[cfg["spline_kind"].lower()]
    return f(kmax[0], kmax[1], T), f(kmin[0], kmin[1], T), kmax, kmin


def criteria(new, old, kmax, kmin, cfg):
    """Default (Huang/Cauchy-like) IMF check: (verdict, relative margin of the closest comparison)."""
    ms = []

    def less(x, thr):
        ms.append(abs(x - thr) / max(abs(x), abs(thr), 1e-300) if np.isfinite(x) else 1.0)
        return x < thr

    scale = max(np.max(np.abs(old)), 1e-300)
    for v in list(kmax[1]) + [-x for x in kmin[1]]:
        ms.append(abs(v) / scale if v != 0 else 1.0)
    if any(v < 0 for v in kmax[1]) or any(v > 0 for v in kmin[1]):
        return False, min(ms)
    if less(float(np.sum(new**2)), 1e-10):
        return False, min(ms)
    diff = new - old
    e = float(np.sum(diff**2))
    if less(e / (np.max(old) - np.min(old)), cfg["svar_thr"]):
        return True, min(ms)
    if less(float(np.sum((diff / new) ** 2)), cfg["std_thr"]):
        return True, min(ms)
    if less(e / float(np.sum(old**2)), cfg["energy_ratio_thr"]):
        return True, min(ms)
    return False, min(ms)


def near_tie(h, scale, cfg):
    """Does the sifting of h hinge on a comparison that rounding errors could turn?"""
    eps = 1e-9 * scale
    if np.any(np.abs(np.diff(h)) < eps):
        return True
    if not cfg["FIXE"] and np.any(np.abs(h) < eps):
        return True
    if cfg["extrema_detection"] == "simple":
        mx, mn = extrema_simple(h)
        for edge, k in ((h[0], 0), (h[-1], -1)):
            for idx in (mx, mn):
                if idx and abs(edge - h[idx[k]]) < eps:
                    return True
    return False


def emd(S, T=None, max_imf=-1, cfg=None, jiggle=None, max_rows=60, budget=4000, strict=False):
    """Reference EMD. Returns dict(imfs, residue, sifts). `jiggle` (a RandomState) adds tiny noise after
    each sifting, to find out whether the result depends on rounding errors."""
    cfg = full_config(cfg or {})
    det = cfg["extrema_detection"]
    S = np.asarray(S, dtype=float)
    N = len(S)
    if T is None or det == "simple":
        t = np.arange(N, dtype=float)
    else:
        t = np.asarray(T, dtype=float)
        t = (t - t[0]) / np.min(np.diff(t))
    scale = max(np.max(np.abs(S)), 1e-300)
    imfs, sifts, margins = [], [], [math.inf]
    work = 0
    last_ext = -1
    finished = False
    while not finished:
        h = S - np.sum(imfs, axis=0) if imfs else S.copy()
        n = nh = sifted = 0
        while True:
            n += 1
            work += 1
            if work > budget:
                raise Degenerate("too long")
            if n >= cfg["MAX_ITERATION"]:
                break
            if strict and (imfs or n > 1) and near_tie(h, scale, cfg):
                raise Degenerate("tie in a proto-IMF")
            env = envelopes(t, h, cfg)
            last_ext = count_extrema(t, h, det)
            if env is None:
                finished = True
                break
            up, lo, kmax, kmin = env
            old = h
            h = old - (up + lo) / 2.0
            if jiggle is not None:
                h = h + 1e-12 * scale * jiggle.uniform(-1, 1, N)
            sifted += 1
            if not np.all(np.isfinite(h)):
                raise Degenerate("not finite")
            if cfg["FIXE"]:
                if n >= cfg["FIXE"]:
                    break
                continue
            last_ext = count_extrema(t, h, det)
            balanced = abs(last_ext - len(zero_crossings(h))) < 2
            if strict and near_tie(h, scale, cfg):
                raise Degenerate("tie in a proto-IMF")
            if cfg["FIXE_H"]:
                if n == 1:
                    continue
                nh = nh + 1 if balanced else 0
                if nh >= cfg["FIXE_H"]:
                    break
            else:
                ok, margin = criteria(h, old, kmax, kmin, cfg)
                margins.append(margin)
                if ok and balanced:
                    break
        imfs.append(h)
        sifts.append(sifted)
        rest = S - np.sum(imfs, axis=0)
        rng_, pw = float(np.max(rest) - np.min(rest)), float(np.sum(np.abs(rest)))
        for x, thr in ((rng_, cfg["range_thr"]), (pw, cfg["total_power_thr"])):
            if thr > 0:
                margins.append(abs(x - thr) / max(x, thr))
        if rng_ < cfg["range_thr"] or pw < cfg["total_power_thr"] or len(imfs) == max_imf:
            break
        if len(imfs) > max_rows:
            raise Degenerate("too many")
    if last_ext <= 2:
        imfs = imfs[:-1]
        sifts = sifts[:-1]
    imfs = np.array(imfs).reshape((-1, N))
    return {"imfs": imfs, "residue": S - np.sum(imfs, axis=0), "sifts": sifts, "margin": min(margins)}


def stable_emd(S, T=None, max_imf=-1, cfg=None, **kw):
    """Reference EMD together with a bound on its sensitivity to rounding errors.
    Raises Degenerate if the result's structure depends on them."""
    S = np.asarray(S, dtype=float)
    scale = max(np.max(np.abs(S)), 1e-300)
    base = emd(S, T, max_imf, cfg, strict=True, **kw)
    if base["margin"] < 1e-6:
        raise Degenerate("decision at a threshold")
    worst = 0.0
    # A strictly increasing map: equal samples stay equal, zero stays zero
    bent = S + 1e-11 * scale * np.sin(7.0 * S / scale)
    for s, j in ((bent, None), (S, np.random.RandomState(1)), (S, np.random.RandomState(2))):
        other = emd(s, T, max_imf, cfg, jiggle=j, **kw)
        if other["sifts"] != base["sifts"]:
            raise Degenerate("ill-conditioned structure")
        if len(base["imfs"]):
            worst = max(worst, float(np.max(np.abs(other["imfs"] - base["imfs"]))))
    if worst > 1e-6 * scale:
        raise Degenerate("ill-conditioned values")
    base["tol"] = 10 * worst + 1e-9 * scale
    return base


# --------------------------------------------------------------------------- MATLAB-compatible EMD


def matlab_env(t, h, cfg):
    mx, mn = extrema_simple(h)
    if len(mx) + len(mn) < 3:
        return None
    kmax, kmin = knots_simple(h, mx, mn, cfg["nbsym"], t)
    f = SPLINE[cfg["spline_kind"]]
    return f(kmax[0], kmax[1], t), f(kmin[0], kmin[1], t), kmax, kmin


def matlab_emd(S, T, limit, cfg, jiggle=None, budget=1500, strict=False):
    """Rilling's variant. cfg: spline_kind, nbsym, FIXE, FIXE_H, stop (three numbers), max_iter.
    Returns dict(rows, iters, exts, margin); the remainder, if any, isn't among the rows."""
    S = np.asarray(S, dtype=float)
    scale = max(np.max(np.abs(S)), 1e-300)
    t = np.asarray(T, dtype=float)
    s1, s2, s3 = cfg["stop"]
    rows, iters, exts = [], [], []
    rest = S.copy()
    work = 0
    done = False
    margin = math.inf
    tie_cfg = {"FIXE": cfg["FIXE"], "extrema_detection": "simple"}
    count = lambda x: sum(len(v) for v in extrema_simple(x))  # noqa: E731
    while not done:
        h = rest.copy()
        mean = np.zeros(len(S))
        n = nh = 0
        ext = 0
        while n < cfg["max_iter"]:
            n += 1
            work += 1
            if work > budget:
                raise Degenerate("too long")
            if strict and (rows or n > 1) and near_tie(h, scale, tie_cfg):
                raise Degenerate("tie")
            ext = count(h)
            if ext <= 2:
                done = True
                break
            h = h - mean
            if jiggle is not None and n > 1:
                h = h + 1e-12 * scale * jiggle.uniform(-1, 1, len(S))
            if not np.all(np.isfinite(h)):
                raise Degenerate("not finite")
            if strict and (rows or n > 1) and near_tie(h, scale, tie_cfg):
                raise Degenerate("tie")
            env = matlab_env(t, h, cfg)
            if env is None:
                break
            mean = 0.5 * (env[0] + env[1])
            if cfg["FIXE"]:
                if n >= cfg["FIXE"] + 1:
                    break
                continue
            ext = count(h)
            balanced = abs(ext - len(zero_crossings(h))) < 2
            if cfg["FIXE_H"]:
                if n == 1:
                    continue
                nh = nh + 1 if balanced else 0
                if nh >= cfg["FIXE_H"]:
                    break
            else:
                amp = np.abs(env[0] - env[1]) / 2
                if np.min(amp) < 1e-7 * scale:
                    raise Degenerate("envelopes cross")
                sx = np.abs(mean) / amp
                margin = min(margin, float(np.min(np.abs(sx - s1))), float(np.min(np.abs(sx - s2))))
                share = float(np.mean(sx > s1))
                if abs(share - s3) < 1e-9:
                    raise Degenerate("share at the threshold")
                if not (share > s3 or np.any(sx > s2)) and ext > 2 and balanced:
                    break
        rows.append(h)
        iters.append(n)
        exts.append(ext)
        rest = rest - h
        if len(rows) == limit - 1:
            break
        if len(rows) > 40:
            raise Degenerate("too many")
    return {"rows": np.array(rows).reshape(-1, len(S)), "iters": iters, "exts": exts, "margin": margin}


def stable_matlab(S, T, limit, cfg):
    S = np.asarray(S, dtype=float)
    scale = max(np.max(np.abs(S)), 1e-300)
    base = matlab_emd(S, T, limit, cfg, strict=True)
    if base["margin"] < 1e-7:
        raise Degenerate("decision at a threshold")
    bent = S + 1e-11 * scale * np.sin(7.0 * S / scale)
    worst = 0.0
    for s, j in ((bent, None), (S, np.random.RandomState(1)), (S, np.random.RandomState(2))):
        other = matlab_emd(s, T, limit, cfg, jiggle=j)
        if other["iters"] != base["iters"]:
            raise Degenerate("ill-conditioned structure")
        worst = max(worst, float(np.max(np.abs(other["rows"] - base["rows"]))))
    if worst > 1e-6 * scale:
        raise Degenerate("ill-conditioned values")
    base["tol"] = 100 * worst + 1e-9 * scale
    return base
