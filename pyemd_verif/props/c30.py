"""C30 - release and performance tooling: verdicts of compare_results, statistics of benchmarks, version bumps."""
import contextlib
import functools
import importlib.util
import io
import json
import math
import os
import random
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from ..core import REPO, Prop, Sub, require


@functools.lru_cache(None)
def tool(path):
    """A script of the repository as a module."""
    name = "pyemd_tool_" + os.path.basename(path)[:-3]
    spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, path))
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    keep = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.dont_write_bytecode = keep
    return mod


def comparer():
    return tool("perf_test/compare_results.py")


def bench():
    return tool("perf_test/perf_test_comprehensive.py")


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# --- statistics -------------------------------------------------------------------------------


def welch(case, rec):
    """Welch's statistic exactly; the p-value is normal's for many degrees of freedom and errs on the safe side for few."""
    from scipy.stats import t as student

    m1, s1, n1, s2, n2 = (case[k] for k in ("m", "s1", "n1", "s2", "n2"))
    m2 = m1 + case["d"] * math.hypot(s1 / math.sqrt(n1), s2 / math.sqrt(n2))
    f = comparer().welch_ttest
    t, p = f(m1, s1, n1, m2, s2, n2)
    if s1 == 0 and s2 == 0:
        require((t, p) == (0.0, 1.0), "no variance: t={}, p={}", t, p)
        return
    v1, v2 = s1 * s1 / n1, s2 * s2 / n2
    want = (m1 - m2) / math.sqrt(v1 + v2)
    require(abs(t - want) <= 1e-9 * (abs(want) + m1 / math.sqrt(v1 + v2)), "t={}, expected {}", t, want)
    require(0 <= p <= 1, "p={}", p)
    u, q = f(m2, s2, n2, m1, s1, n1)
    require(close(u, -t) and close(p, q), "exchanged samples: t={}, p={}, was t={}, p={}", u, q, t, p)
    down = (v1 * v1 / (n1 - 1) if n1 > 1 else 0) + (v2 * v2 / (n2 - 1) if n2 > 1 else 0)
    df = (v1 + v2) ** 2 / down if down > 0 else 1.0
    rec.mark(p < 0.5)
    exact = 2 * student.sf(abs(t), df)
    if df > 30.001:
        require(abs(p - math.erfc(abs(t) / math.sqrt(2))) <= 1e-12, "p={} for t={} and {} degrees of freedom", p, t, df)
    elif df < 29.999 and p < 0.1:
        require(p >= exact * (1 - 1e-9) - 1e-14, "p={} is below the exact {} for t={} and {} degrees of freedom", p, exact, t, df)
    # Larger difference, smaller p
    u, q = f(m1, s1, n1, m1 + 1.5 * (m2 - m1), s2, n2)
    require(q <= p + 1e-12, "p rises from {} to {} with the difference", p, q)
    if n1 > 30 and n2 > 30 and abs(t) > 5:
        require(p < 1e-3, "p={} for t={}", p, t)


def trimmed(case, rec):
    """10% of times, at least one, are left out on each side; the order doesn't matter."""
    B = bench()
    times, part = case["times"], case["part"]
    n = len(times)
    k = 0 if n < 3 else max(1, int(n * part))
    if 2 * k >= n:
        k = (n - 1) // 2
    kept = sorted(times)[k : n - k]
    want = math.fsum(kept) / len(kept)
    rec.mark(n >= 3)
    got = B.trimmed_mean(list(times), part)
    require(close(got, want, 1e-12), "trimmed mean of {} is {}, not {}", times, got, want)
    keep = list(times)
    stats = B.BenchmarkStats.from_times(keep, part)
    require(keep == list(times), "times were modified")
    mean = math.fsum(times) / n
    std = math.sqrt(math.fsum((x - mean) ** 2 for x in times) / n)
    for name, want in (("mean", mean), ("std", std), ("min", min(times)), ("max", max(times)), ("trimmed_mean", want)):
        require(close(getattr(stats, name), want, 1e-9), "{} of {} is {}, not {}", name, times, getattr(stats, name), want)
    a, b = B.BenchmarkStats.from_times(list(times)), B.trimmed_mean(list(times), 0.1)
    require(a.trimmed_mean == b, "default isn't 10%: {} and {}", a.trimmed_mean, b)


def runs(case, rec):
    """Functions are run warmup + runs times, each run from its own, reproducible random state."""
    B = bench()
    state = random.getstate(), np.random.get_state()

    class Seeded:
        def __init__(self):
            self.seeds = []

        def noise_seed(self, s):
            self.seeds.append(s)

    logs = []
    try:
        for _ in range(2):
            log, inst = [], Seeded()

            def func(a, b=None):
                require(a == 7 and b == 8, "arguments {} {}", a, b)
                log.append((random.random(), float(np.random.rand()), inst.seeds[-1]))

            stats = B.benchmark(func, 7, runs=case["runs"], warmup=case["warmup"], seed=case["seed"], instance_with_seed=inst, b=8)
            require(len(log) == case["runs"] + case["warmup"], "{} calls with {}", len(log), case)
            require(len(inst.seeds) == len(log), "{} seeds in {} calls", len(inst.seeds), len(log))
            require(len(stats.times) == case["runs"], "{} times with {}", len(stats.times), case)
            require(all(x >= 0 for x in stats.times), "times {}", stats.times)
            logs.append(log)
            random.random()
            np.random.rand()
    finally:
        random.setstate(state[0])
        np.random.set_state(state[1])
    rec.mark(case["runs"] > 1)
    require(logs[0] == logs[1], "random state of runs isn't reproducible")
    require(len(set(logs[0])) == len(logs[0]), "runs share random state")


# --- comparison -------------------------------------------------------------------------------


def entry(e):
    out = {"name": e["name"], "params": e["params"], "mean": e["mean"]}
    if e["std"] is not None:
        out["std"] = e["std"] * e["mean"]
    if e["runs"] is not None:
        out["runs"] = e["runs"]
    if e["trim"] is not None:
        out["trimmed_mean"] = e["mean"] * e["trim"]
    return out


def key(e):
    return e["name"], json.dumps(e["params"], sort_keys=True)


def compare(case, rec):
    C = comparer()
    base = [entry(e) for e in case["base"]]
    comp = [entry(e) for e in case["comp"]]
    thr, alpha = case["thr"], case["alpha"]
    got = C.compare_results(base, comp, thr, alpha)
    b, c = {key(e): e for e in base}, {key(e): e for e in comp}
    common = set(b) & set(c)
    rec.mark(bool(common))
    require(len(got) == len(common), "{} results for {} common tests", len(got), len(common))
    verdict = {}
    for r in got:
        k = key({"name": r.test_name, "params": r.params})
        require(k in common and k not in verdict, "result for {}, which isn't common or is repeated", k)
        x, y = b[k], c[k]
        p = C.welch_ttest(x["mean"], x.get("std", 0), x.get("runs", 1), y["mean"], y.get("std", 0), y.get("runs", 1))[1]
        tx, ty = x.get("trimmed_mean", x["mean"]), y.get("trimmed_mean", y["mean"])
        diff = ty - tx
        pct = 100 * diff / tx
        require(close(r.diff_seconds, diff) and close(r.diff_percent, pct), "{}: difference {} s, {}%, expected {} s, {}%", k, r.diff_seconds, r.diff_percent, diff, pct)
        require(close(r.p_value, p), "{}: p={}, expected {}", k, r.p_value, p)
        require(close(r.baseline_mean, x["mean"]) and close(r.comparison_mean, y["mean"]), "{}: means", k)
        require(close(r.baseline_cv, 100 * x.get("std", 0) / x["mean"]) and close(r.comparison_cv, 100 * y.get("std", 0) / y["mean"]), "{}: variation {} {}", k, r.baseline_cv, r.comparison_cv)
        require(r.is_faster == (ty < tx), "{}: is_faster={} for {} s -> {} s", k, r.is_faster, tx, ty)
        if abs(abs(pct) - thr) > 1e-9 * (1 + thr) and abs(p - alpha) > 1e-12:
            want = p < alpha and abs(pct) >= thr
            require(r.is_significant == want, "{}: significant={} with p={}, change {}%, alpha={}, threshold {}%", k, r.is_significant, p, pct, alpha, thr)
        verdict[k] = "unchanged" if not r.is_significant else "faster" if r.is_faster else "slower"
    outputs(C, case, base, comp, got, verdict)
    # The other way round what was faster is slower
    for r in C.compare_results(comp, base, 0.0, alpha):
        k = key({"name": r.test_name, "params": r.params})
        s = [q for q in C.compare_results(base, comp, 0.0, alpha) if key({"name": q.test_name, "params": q.params}) == k][0]
        same = r.is_significant == s.is_significant or abs(r.p_value - alpha) < 1e-12
        require(close(r.diff_seconds, -s.diff_seconds) and same, "{}: {} exchanged to {}", k, s, r)


def outputs(C, case, base, comp, got, verdict):
    """Reports and the exit status agree with the verdicts."""
    n = {w: sum(v == w for v in verdict.values()) for w in ("faster", "slower", "unchanged")}
    info = {"timestamp": "then", "git_commit": "0123456789", "pyemd_version": "1"}
    d = tempfile.mkdtemp(prefix="pyemd_verif_")
    try:
        paths = []
        for name, part in (("b", base), ("c", comp)):
            path = Path(d) / name
            if case["dirs"]:
                path.mkdir()
            with open(path / "results.json" if case["dirs"] else path, "w") as f:
                json.dump({"system_info": info, "results": part}, f)
            paths.append(path)
            si, res = C.load_results(path)
            require(si == info and res == part, "loaded results differ from the saved ones")
        for fmt in ("text", "json", "markdown"):
            argv = sys.argv
            sys.argv = ["compare_results.py", str(paths[0]), str(paths[1]), "--threshold", repr(case["thr"]), "--alpha", repr(case["alpha"]), "--format", fmt]
            out, status = io.StringIO(), 0
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    C.main()
            except SystemExit as e:
                status = e.code or 0
            finally:
                sys.argv = argv
            want = 1 if n["slower"] or not verdict else 0
            require(status == want, "exit status {} with {} regressions among {} tests", status, n["slower"], len(verdict))
            out = out.getvalue()
            if not verdict:
                continue
            if fmt == "json":
                data = json.loads(out)
                require(data["summary"] == dict(n, total=len(verdict)), "summary {} for {}", data["summary"], n)
                for r in data["results"]:
                    k = key({"name": r["test_name"], "params": r["params"]})
                    w = "unchanged" if not r["is_significant"] else "faster" if r["is_faster"] else "slower"
                    require(verdict[k] == w, "{} is reported as {}, is {}", k, w, verdict[k])
                require(len(data["results"]) == len(verdict), "{} results for {} tests", len(data["results"]), len(verdict))
            elif fmt == "text":
                require("Summary: {faster} faster, {slower} slower, {unchanged} unchanged".format(**n) in out, "text report doesn't have the summary {}: {}", n, out[:900])
                marks = [sum(line.strip().startswith(m) for line in out.splitlines()) for m in ("\u2713", "\u2717", "= ")]
                require(marks == [n["faster"], n["slower"], n["unchanged"]], "text report lists {} for {}", marks, n)
            else:
                marks = [sum(m in line for line in out.splitlines()) for m in ("\U0001f7e2", "\U0001f534", "\u26aa")]
                require(marks == [n["faster"], n["slower"], n["unchanged"]], "markdown report lists {} for {}", marks, n)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def saved(case, rec):
    """What a performance run saves is what the comparison loads."""
    B, C = bench(), comparer()
    rec.mark(len(case["base"]) > 1)
    res = []
    for e in case["base"]:
        e = entry(e)
        res.append(B.PerfResult(name=e["name"], params=e["params"], mean=e["mean"], std=e.get("std", 0.0), min=e["mean"] / 2, max=e["mean"] * 2, runs=e.get("runs", 1),
                                trimmed_mean=e.get("trimmed_mean", e["mean"]), extra={"n": 1}))
    d = tempfile.mkdtemp(prefix="pyemd_verif_")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            B.save_results(res, Path(d), {"git_commit": "x"})
        info, back = C.load_results(Path(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    require(info == {"git_commit": "x"}, "system info {}", info)
    require(len(back) == len(res), "{} of {} results", len(back), len(res))
    for r, e in zip(res, back):
        for k in ("name", "params", "mean", "std", "min", "max", "runs", "trimmed_mean"):
            require(e[k] == getattr(r, k), "{} {} is loaded as {}", k, getattr(r, k), e[k])


# --- version bumps ----------------------------------------------------------------------------


def bump(case, rec):
    """Conventional commits: breaking changes are major, features minor, the rest patches."""
    f = tool(".github/scripts/bump_version.py").bump_type
    head = case["type"] + ("({})".format(case["scope"]) if case["scope"] else "") + ("!" if case["bang"] else "") + ": " + case["text"]
    lines = list(case["body"])
    if case["footer"] is not None:
        lines.insert(case["footer"] % (len(lines) + 1), case["mark"] + ": api " + case["text"])
    msg = case["nl"].join([head] + lines)
    breaking = case["bang"] or case["footer"] is not None
    want = "major" if breaking else "minor" if case["type"].lower() == "feat" else "patch"
    rec.mark(want != "patch")
    got = f(msg)
    require(got == want, "bump of {!r} is {!r}, not {!r}", msg, got, want)
    if case["main"]:
        M = tool(".github/scripts/bump_version.py")
        argv, sys.argv = sys.argv, ["bump_version.py", msg]
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                M.main()
        finally:
            sys.argv = argv
        require(out.getvalue() == want + "\n", "printed bump of {!r} is {!r}", msg, out.getvalue())


WORD = st.sampled_from(["add spline", "Feat of engineering", "fix!", "feat: no", "breaking the ice", "change", "", "x", "why not?! yes", "FIX", "#12", "refactor!ed"])
ENTRY = st.fixed_dictionaries(
    {
        "name": st.sampled_from(["EMD", "EEMD", "EMD_scaling"]),
        "params": st.sampled_from([{}, {"n": 1}, {"n": 2, "kind": "a"}, {"kind": "a", "n": 2}]),
        "mean": st.sampled_from([1.0, 1.01, 1.04, 1.0500001, 1.06, 1.2, 2.0, 0.95, 0.9, 0.5, 1e-6, 30.0]),
        "std": st.sampled_from([None, 0.0, 1e-4, 0.01, 0.03, 0.1, 0.5]),
        "runs": st.sampled_from([None, 1, 2, 5, 20, 50, 200]),
        "trim": st.sampled_from([None, 1.0, 1.0, 0.9, 0.97, 1.03]),
    }
)
SCALE = st.floats(1e-4, 1.0) | st.just(0.0)
PROP = Prop(
    "C30",
    "a difference worth testing (p < 0.5), three or more times, common tests, a bump above patch",
    [
        Sub(
            "welch",
            st.fixed_dictionaries({"m": st.floats(1e-3, 100), "d": st.floats(-8, 8), "s1": SCALE, "s2": SCALE, "n1": st.integers(1, 80), "n2": st.integers(1, 80)}),
            welch,
            quick=6000,
        ),
        Sub("trimmed", st.fixed_dictionaries({"times": st.lists(st.floats(1e-6, 1e3), min_size=1, max_size=60), "part": st.sampled_from([0.1, 0.1, 0.05, 0.25, 0.4, 0.5])}), trimmed, quick=6000),
        Sub("runs", st.fixed_dictionaries({"runs": st.integers(1, 9), "warmup": st.integers(0, 3), "seed": st.integers(0, 10**6)}), runs, quick=300),
        Sub(
            "compare",
            st.fixed_dictionaries(
                {
                    "base": st.lists(ENTRY, min_size=1, max_size=7),
                    "comp": st.lists(ENTRY, min_size=1, max_size=7),
                    "thr": st.sampled_from([5.0, 0.0, 1.0, 10.0, 25.0]),
                    "alpha": st.sampled_from([0.05, 0.01, 0.2, 1e-6]),
                    "dirs": st.booleans(),
                }
            ),
            compare,
            quick=5000,
        ),
        Sub("saved", st.fixed_dictionaries({"base": st.lists(ENTRY, min_size=1, max_size=7)}), saved, quick=500),
        Sub(
            "bump",
            st.fixed_dictionaries(
                {
                    "type": st.sampled_from(["feat", "Feat", "FEAT", "fix", "chore", "docs", "refactor", "perf", "ci"]),
                    "scope": st.sampled_from(["", "", "emd", "feat", "fix feat", "eemd/ceemdan"]),
                    "bang": st.booleans(),
                    "text": WORD.filter(lambda w: "!:" not in w),
                    "body": st.lists(WORD, max_size=4),
                    "footer": st.none() | st.integers(0, 5),
                    "mark": st.sampled_from(["BREAKING CHANGE", "breaking change", "Breaking Change"]),
                    "nl": st.sampled_from(["\n", "\r\n", "\n\n"]),
                    "main": st.booleans(),
                }
            ),
            bump,
            quick=6000,
        ),
    ],
)
