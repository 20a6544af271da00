"""Stand-in decomposers for the ensemble methods (ext_EMD): their results are simple functions of what
they're given, so that ensembles can be checked exactly. They're picklable, for parallel mode."""
import numpy as np


def positions(T, n):
    return np.arange(n, dtype=float) if T is None else np.asarray(T, dtype=float)


class Echo:
    """Rows tell what was passed: signal, time, limit; then a number of further rows that depends on the signal."""

    def __init__(self, spread=3):
        self.spread = spread
        self.calls = []
        self._last = None

    def rows(self, S, T, max_imf):
        n = len(S)
        out = [np.array(S, dtype=float), positions(T, n), np.full(n, float(max_imf))]
        k = int(abs(float(np.sum(S))) * 1e6) % (self.spread + 1)
        for j in range(k):
            out.append(np.cos((j + 1) * np.asarray(S, dtype=float)))
        return np.array(out)

    def emd(self, S, T=None, max_imf=-1):
        self.calls.append((np.array(S, dtype=float), None if T is None else np.array(T), max_imf))
        self._last = self.rows(S, T, max_imf)
        return self._last.copy()

    __call__ = emd

    def trend(self, rows):
        return np.sin(rows[0]) + 2.0

    def get_imfs_and_trend(self):
        return self._last.copy(), self.trend(self._last)

    def get_imfs_and_residue(self):
        return self._last[:-1].copy(), self._last[-1].copy()


class Ragged(Echo):
    """The number of rows of each trial is given (cyclically by call)."""

    def __init__(self, counts, empty_ok=True):
        Echo.__init__(self)
        self.counts = list(counts)
        self.given = []

    def rows(self, S, T, max_imf):
        k = self.counts[(len(self.calls) - 1) % len(self.counts)]
        S = np.asarray(S, dtype=float)
        out = np.array([np.cos((j + 1) * S) + j for j in range(k)]).reshape(k, len(S))
        self.given.append(out)
        return out

    def trend(self, rows):
        return np.full(rows.shape[1], 0.5 * len(rows)) + np.sin(np.arange(rows.shape[1]) + len(self.calls))


class Recorder:
    """The real thing, with a record of what came in and what came out."""

    def __init__(self, real):
        self.real = real
        self.calls = []
        self.given = []
        self.trends = []

    def emd(self, S, T=None, max_imf=-1):
        out = self.real.emd(S, T, max_imf=max_imf)
        self.calls.append((np.array(S), None if T is None else np.array(T), max_imf))
        self.given.append(np.array(out))
        self.trends.append(tuple(np.array(x) for x in self.real.get_imfs_and_trend()))
        return out

    __call__ = emd

    def get_imfs_and_trend(self):
        return self.real.get_imfs_and_trend()

    def get_imfs_and_residue(self):
        return self.real.get_imfs_and_residue()


class Smoother:
    """A well-conditioned 'EMD': each component is what a moving average removes. Depends on time, if given."""

    def __init__(self, width=3, rows=4, weight=0.1, stop=0.0, ragged=False):
        self.width, self.nrows, self.weight, self.stop, self.ragged = width, rows, weight, stop, ragged
        self.calls = []

    def smooth(self, x, t, w):
        n = len(x)
        k = np.ones(w) / w
        pad = np.concatenate((np.full(w, x[0]), x, np.full(w, x[-1])))
        y = np.convolve(pad, k, mode="same")[w : w + n]
        span = t[-1] - t[0] if n > 1 and t[-1] != t[0] else 1.0
        return y * (1.0 + self.weight * np.tanh((t - t[0]) / span))

    def emd(self, S, T=None, max_imf=-1):
        S = np.array(S, dtype=float)
        self.calls.append((S.copy(), None if T is None else np.array(T), max_imf))
        t = positions(T, len(S))
        if np.max(S) - np.min(S) <= self.stop:
            return S.reshape(1, -1)
        out, left = [], S
        limit = self.nrows if max_imf is None or max_imf <= 0 else min(max_imf, self.nrows)
        if self.ragged and limit > 1:
            limit = 1 + int(abs(float(S[0])) * 1e4) % limit
        for j in range(limit):
            low = self.smooth(left, t, self.width * (j + 1))
            out.append(left - low)
            left = low
        out.append(left)
        return np.array(out)

    __call__ = emd


class Uneven(Echo):
    """Some trials take longer than others."""

    def emd(self, S, T=None, max_imf=-1):
        import time

        time.sleep(0.004 * (int(abs(float(S[0])) * 1e6) % 4))
        return Echo.emd(self, S, T, max_imf)

    __call__ = emd
