"""C24 - instantaneous frequency and plots."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import array, gap, make, same
from ..core import Prop, Sub, Violation, require
from .c23 import ref_filt6, ref_pade6


def vis(*args):
    import matplotlib

    matplotlib.use("Agg")
    from PyEMD import Visualisation

    return Visualisation(*args)


def analytic(x):
    """Analytic signal: negative frequencies removed."""
    n = len(x)
    X = np.fft.fft(x)
    for k in range(1, n):
        if 2 * k < n:
            X[k] *= 2
        elif 2 * k > n:
            X[k] = 0
    return np.fft.ifft(X)


def ref_freq(x, dt, order, alpha):
    """(frequency, clear): clear tells if unwrapping doesn't depend on rounding errors."""
    z = analytic(x)
    if alpha is not None:
        z = ref_filt6(z.real, alpha) + 1j * ref_filt6(z.imag, alpha)
    big = np.max(np.abs(z))
    clear = big > 0 and np.min(np.abs(z)) > 1e-4 * big
    if not clear:
        return None, False
    step = np.angle(z[1:] / z[:-1])
    clear = bool(np.all(np.pi - np.abs(step) > 1e-6))
    phase = np.angle(z[0]) + np.concatenate(([0.0], np.cumsum(step)))
    if abs(abs(np.angle(z[0])) - np.pi) < 1e-9:
        clear = False
    if alpha is not None:
        phase = ref_filt6(phase, alpha)
    if order:
        f = ref_pade6(phase, dt) / (2 * np.pi)
    else:
        f = np.diff(phase) / (2 * np.pi * dt)
        f = np.append(f, f[-1])
    if alpha is not None:
        f = ref_filt6(f, alpha)
    return f, clear


def freqs_of(v, imfs, t, order, alpha):
    if hasattr(v, "_calc_inst_freq"):
        f = v._calc_inst_freq(imfs, t, order, alpha)
    else:
        f = np.array([xy[1] for xy in plotted(lambda: v.plot_instant_freq(t, imfs, order, alpha))[1]])
    return array(f, 2, "instantaneous frequency", len(t), finite=False)


def frequency(case, rec):
    rows = [gen.signal(dict(s, n=case["n"])) for s in case["rows"]]
    imfs = np.array([r - np.mean(r) for r in rows])
    dt = case["dt"]
    t = dt * np.arange(case["n"]) + case["t0"]
    dt = float(t[1] - t[0])
    v = vis()
    keep = imfs.copy()
    f = freqs_of(v, imfs, t, case["order"], case["alpha"])
    require(f.shape == imfs.shape, "frequencies have shape {}, IMFs {}", f.shape, imfs.shape)
    require(np.array_equal(imfs, keep), "IMFs were modified")
    clear = []
    for i, row in enumerate(imfs):
        want, ok = ref_freq(row, dt, case["order"], case["alpha"])
        clear.append(ok)
        if ok:
            tol = 1e-8 / dt * case["n"]
            require(same(f[i], want, tol), "instantaneous frequency of IMF {} differs from the definition: {} (order={}, alpha={})", i + 1, gap(f[i], want), case["order"], case["alpha"])
    rec.mark(any(clear))
    rec.label("high" if case["order"] else "low", "filter" if case["alpha"] is not None else "no filter")
    tol = 1e-8 / dt * case["n"]
    if len(imfs) > 1:
        g = freqs_of(v, imfs[::-1], t, case["order"], case["alpha"])[::-1]
        for i, ok in enumerate(clear):
            require(not ok or same(g[i], f[i], tol), "frequency of a row depends on other rows: {}", gap(g[i], f[i]))
    g = freqs_of(v, imfs * 4, t, case["order"], case["alpha"])
    h = freqs_of(v, imfs, t * 2, case["order"], case["alpha"])
    for i, ok in enumerate(clear):
        require(not ok or same(g[i], f[i], tol), "frequency depends on the amplitude: {}", gap(g[i], f[i]))
        require(not ok or same(2 * h[i], f[i], tol), "frequency isn't inversely proportional to time: {}", gap(2 * h[i], f[i]))


def tone(case, rec):
    n, dt = case["n"], case["dt"]
    t = np.arange(n) * dt
    ks = [1 + k % ((n - 1) // 2) for k in case["ks"]]
    imfs = np.array([a * np.cos(2 * np.pi * k * np.arange(n) / n + p) for k, a, p in zip(ks, case["as"], case["ps"])])
    f = freqs_of(vis(), imfs, t, case["order"], None)
    rec.mark()
    for i, k in enumerate(ks):
        if n - 2 * k < 1:
            continue
        want = k / (n * dt)
        require(same(f[i], np.full(n, want), 1e-6 / dt), "a tone of frequency {:.5g} has instantaneous frequency between {:.5g} and {:.5g}", want, np.min(f[i]), np.max(f[i]))


def plotted(f):
    """Axes of the figure made by f: [(label, n lines)], [(x, y)]"""
    import matplotlib.pyplot as plt

    plt.close("all")
    f()
    nums = plt.get_fignums()
    require(len(nums) == 1, "{} figures made", len(nums))
    axes = plt.figure(nums[0]).axes
    labels, data = [], []
    for ax in axes:
        labels.append((ax.get_ylabel(), len(ax.lines)))
        data.append((np.asarray(ax.lines[0].get_xdata()), np.asarray(ax.lines[0].get_ydata())) if len(ax.lines) else (None, None))
    # Top to bottom
    pos = [-ax.get_position().y0 for ax in axes]
    idx = np.argsort(pos, kind="stable")
    plt.close("all")
    return [labels[i] for i in idx], [data[i] for i in idx]


def plots(case, rec):
    n = case["n"]
    rng = np.random.RandomState(case["s"])
    given, kept = rng.randn(case["k"], n), rng.randn(case["k2"], n)
    res, res2 = rng.randn(n), rng.randn(n)
    t = None if case["t"] is None else case["t"] * np.arange(n) + 1.5

    class Done:
        def get_imfs_and_residue(self):
            return kept, res2

    v = vis(Done()) if case["instance"] else vis()
    imfs = given if case["pass_imfs"] else None
    residue = res if case["pass_res"] else None
    want = imfs if imfs is not None else kept if case["instance"] else None
    wres = residue if residue is not None else res2 if case["instance"] else None
    with_res = case["with_res"]
    rec.label("residue" if with_res else "no residue", "rows:%d" % (0 if want is None else len(want)))
    if want is None or (with_res and wres is None):
        try:
            v.plot_imfs(imfs=imfs, residue=residue, t=t, include_residue=with_res)
        except AttributeError:
            rec.mark()
            return
        raise Violation("plot without data wasn't rejected")
    if len(want) + with_res == 0:
        rec.skip("nothing to plot")
    if case["default"] and with_res:
        labels, data = plotted(lambda: v.plot_imfs(imfs, residue, t))
    else:
        labels, data = plotted(lambda: v.plot_imfs(imfs=imfs, residue=residue, t=t, include_residue=with_res))
    rec.mark()
    rows = list(want) + ([wres] if with_res else [])
    compare(labels, data, rows, np.arange(n) if t is None else t, [str(i + 1) for i in range(len(want))] + ["Res"] * with_res, 0.0)


def compare(labels, data, rows, t, names, tol):
    require(len(labels) == len(rows), "{} axes for {} rows", len(labels), len(rows))
    for i, row in enumerate(rows):
        require(labels[i][1] == 1, "{} lines in axes {}", labels[i][1], i + 1)
        words = labels[i][0].replace("[", " ").split()
        require(names[i] in words if names[i] != "Res" else labels[i][0].lower().startswith("res"), "axes {} are labelled {!r}", i + 1, labels[i][0])
        x, y = data[i]
        require(x.shape == t.shape and np.array_equal(x, t), "axes {} aren't against the given time", i + 1)
        require(y.shape == row.shape and (np.array_equal(y, row) if tol == 0 else same(y, row, tol)), "axes {} don't show their row: {}", i + 1, gap(y, row))


def freq_plots(case, rec):
    n = case["n"]
    t = case["t"] * np.arange(n) + 0.25 if case["t"] else np.arange(n) * 1.0
    dt = float(t[1] - t[0])
    k = max(1, case["k"])
    imfs = np.array([(1 + i) * np.cos(2 * np.pi * (case["ks"][i] % 5 + 1.37) * np.arange(n) / n + i) for i in range(k)])
    rows = []
    for x in imfs:
        f, ok = ref_freq(x, dt, case["order"], case["alpha"])
        if not ok:
            rec.skip("unclear phase")
        rows.append(f)

    class Done:
        def get_imfs_and_residue(self):
            return imfs, np.zeros(n)

    rec.mark()
    if case["instance"]:
        labels, data = plotted(lambda: vis(Done()).plot_instant_freq(t, order=case["order"], alpha=case["alpha"]))
    else:
        labels, data = plotted(lambda: vis().plot_instant_freq(t, imfs=imfs, order=case["order"], alpha=case["alpha"]))
    compare(labels, data, rows, t, [str(i + 1) for i in range(k)], 1e-8 / dt * n)
    for bad in (0.5, -0.5, 0.7, -3.0):
        try:
            vis().plot_instant_freq(t, imfs=imfs, alpha=bad)
        except AssertionError:
            continue
        raise Violation("alpha={} was accepted".format(bad))


def decomposed(case, rec):
    """The whole way: EMD, then plots of its results."""
    S = gen.signal(case["S"])
    emd = make(case["cfg"])
    emd.emd(S, None, case["max_imf"])
    imfs, residue = emd.get_imfs_and_residue()
    with_res = case["with_res"]
    if len(imfs) + with_res == 0:
        rec.skip("nothing to plot")
    labels, data = plotted(lambda: vis(emd).plot_imfs(include_residue=with_res))
    rec.mark(len(imfs) > 0)
    rows = list(imfs) + ([residue] if with_res else [])
    compare(labels, data, rows, np.arange(len(S)), [str(i + 1) for i in range(len(imfs))] + ["Res"] * with_res, 0.0)


ALPHA = st.sampled_from([None, None, None, 0.0, 0.4, 0.49, -0.3, -0.49])
ROW = st.one_of(
    st.builds(
        lambda a, f, p, ch, no, s: {"k": "mix", "c": [[a, f, p, ch]], "tr": [], "no": no, "s": s},
        gen.floats(0.1, 3, 2),
        gen.floats(1, 12, 2),
        gen.floats(0, 6, 2),
        gen.floats(-4, 4, 1),
        st.sampled_from([0.0, 0.0, 0.05]),
        gen.seeds,
    ),
    st.builds(lambda s: {"k": "rnd", "d": "smooth", "q": 0, "s": s}, gen.seeds),
)
PLOT = {
    "n": st.integers(2, 40),
    "s": st.integers(0, 10**6),
    "k": st.integers(0, 4),
    "k2": st.integers(0, 4),
    "t": st.sampled_from([None, 1.0, 0.01, 5.0]),
    "instance": st.booleans(),
    "pass_imfs": st.booleans(),
    "pass_res": st.booleans(),
    "with_res": st.booleans(),
    "default": st.booleans(),
}

PROP = Prop(
    "C24",
    "unwrapped phase of at least one row doesn't hinge on rounding errors; plots: there is something to plot or to reject",
    [
        Sub(
            "frequency",
            st.fixed_dictionaries(
                {"n": gen.mostly(st.integers(12, 120), st.integers(121, 2000), 9), "rows": st.lists(ROW, min_size=1, max_size=3), "dt": st.sampled_from([1.0, 0.01, 0.1, 5.0]), "t0": st.sampled_from([0.0, 0.0, 3.0]), "order": st.booleans(), "alpha": ALPHA}
            ),
            frequency,
            quick=2000,
        ),
        Sub(
            "tone",
            st.fixed_dictionaries(
                {
                    "n": gen.mostly(st.integers(8, 150), st.integers(151, 2000), 9),
                    "dt": st.sampled_from([1.0, 0.01, 0.1, 5.0]),
                    "ks": st.lists(st.integers(0, 70), min_size=1, max_size=3),
                    "as": st.lists(gen.floats(0.1, 5, 1), min_size=3, max_size=3),
                    "ps": st.lists(gen.floats(0, 6.2, 2), min_size=3, max_size=3),
                    "order": st.booleans(),
                }
            ),
            tone,
            quick=1600,
        ),
        Sub("plots", st.fixed_dictionaries(PLOT), plots, quick=320, thorough=3000),
        Sub(
            "freq_plots",
            st.fixed_dictionaries(dict(PLOT, n=st.integers(12, 60), k=st.integers(1, 4), ks=st.lists(st.integers(0, 9), min_size=4, max_size=4), order=st.booleans(), alpha=ALPHA)),
            freq_plots,
            quick=160,
            thorough=2000,
        ),
        Sub(
            "decomposed",
            st.fixed_dictionaries({"S": gen.oscillating(8, 50), "cfg": gen.configs(thr=False, maxit=False), "max_imf": st.sampled_from([-1, 1, 2]), "with_res": st.booleans()}),
            decomposed,
            quick=80,
            thorough=1000,
        ),
    ],
)
