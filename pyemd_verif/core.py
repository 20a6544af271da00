"""Runner: shards a property's sub-checks over worker processes, drives them with
Hypothesis, writes the evidence and, for a failure, the shrunk replay file."""
import argparse
import hashlib
import importlib
import json
import math
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("PYEMD_VERIF_REPO", "/repo"))
PKG = REPO + os.sep
EVIDENCE_DIR = os.environ.get("PYEMD_VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAY_DIR = os.environ.get("PYEMD_VERIF_REPLAYS", os.path.join(VERIF, "replays"))
WORKERS = 8
# Safety caps (seconds). Searches are bounded by case counts; the caps only cut a search short.
SOFT = {"quick": 300.0, "thorough": 1500.0}
HARD = {"quick": 780.0, "thorough": 3000.0}
# The cheap checks run more cases than their sub-checks ask for
BOOST = dict.fromkeys(
    "C05 C06 C07 C08 C09 C10 C14 C16 C21 C23 C25 C26 C28 C29 C30".split(), 3
) | dict.fromkeys("C01 C03 C13 C15 C22".split(), 2)
CASE_LIMIT = 60.0
# Limit (seconds) for calls known to return in a fraction of a second, see Rec.bounded
END_LIMIT = 45.0
STUCK = 200.0
# Time for other workers once a violation is found
GRACE = 20.0


class Violation(Exception):
    """The code under test broke the property on the given case."""


class HarnessError(Exception):
    """The harness itself misbehaved."""


class CaseTimeout(BaseException):
    pass


class Stuck(Exception):
    """The code under test doesn't return although the work is bounded."""


class Skip(Exception):
    """The case is outside of the domain where the oracle is decisive."""


class Rec:
    """Per-case record: labels and whether the case is non-trivial."""

    def __init__(self, on_bounded=None):
        self.labels = []
        self.nontrivial = False
        self.must_end = False
        self.on_bounded = on_bounded

    def bounded(self, yes=True):
        """From now on (or no longer) the code under test has to return: the amount of work is known to be small,
        so not returning within END_LIMIT, twice, is a violation. Otherwise timeouts are inconclusive."""
        self.must_end = yes
        if self.on_bounded is not None:
            self.on_bounded(yes)

    def label(self, *names):
        self.labels.extend(names)

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True

    def skip(self, why):
        raise Skip(why)


class Sub:
    """One executable statement of a property: a strategy of JSON-able cases and a check."""

    def __init__(self, name, strategy, check, quick=400, thorough=None, examples=(), shards=WORKERS):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.examples = list(examples)
        self.shards = shards


class Prop:
    def __init__(self, pid, rule, subs, warmup=None):
        self.id, self.rule, self.subs, self.warmup = pid, rule, subs, warmup


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def origin(exc):
    """Who raised: 'repo' if the innermost frame of ours is in the package, else 'harness'."""
    cause = exc.__cause__
    if cause is not None and type(cause).__name__ == "RemoteTraceback":
        text = str(cause)
        return "repo" if PKG in text else "harness"
    where = "harness"
    for frame in traceback.extract_tb(exc.__traceback__):
        name = os.path.abspath(frame.filename)
        if name.startswith(PKG):
            where = "repo"
        elif name.startswith(VERIF + os.sep):
            where = "harness"
    return where


def call(sub, case, rec):
    """Runs a check on a case. Returns None, or a message if the property is violated."""
    try:
        sub.check(case, rec)
    except Violation as e:
        return str(e)
    except Skip as e:
        rec.label("skip:" + str(e))
        rec.nontrivial = False
    except (CaseTimeout, KeyboardInterrupt, HarnessError, Stuck):
        raise
    except Exception as e:
        if origin(e) == "repo":
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return "unexpected {}: {} (at {}:{})".format(
                type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno
            )
        raise HarnessError("".join(traceback.format_exception(e))[-3000:]) from e
    return None


def load(pid):
    mod = importlib.import_module("pyemd_verif.props." + pid.lower())
    return mod.PROP


def derived_seed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], "big")


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------- worker


class Stats:
    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.timeouts = 0
        self.timeout_cases = []
        self.cut = False
        self.per_sub = {}
        self.slowest = 0.0
        self.current = None

    def add(self, sub, case, rec):
        self.evals += 1
        for lab in rec.labels:
            key = sub.name + "/" + lab
            self.labels[key] = self.labels.get(key, 0) + 1
        ps = self.per_sub.setdefault(sub.name, [0, 0])
        ps[0] += 1
        if rec.nontrivial:
            d = digest([sub.name, case])
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                ps[1] += 1
                # Keep few and preferably short samples per sub-check
                if ps[1] in (1, 3, 17) and len(json.dumps(case)) < 1500:
                    self.samples.append({"sub": sub.name, "case": case, "labels": rec.labels[:8]})


def _alarm(*_):
    raise CaseTimeout()


def note(stats, sub, case, bounded):
    """Tells the parent what is being run, in case this process gets stuck where signals aren't handled."""
    if stats.current:
        with open(stats.current, "w") as f:
            json.dump({"sub": sub.name, "case": case, "bounded": bounded}, f)


def rearm():
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)


def timed(sub, case, stats):
    """(message, record, timed out)"""

    def arm(yes):
        signal.setitimer(signal.ITIMER_REAL, END_LIMIT if yes else CASE_LIMIT)
        note(stats, sub, case, yes)

    rec = Rec(arm)
    signal.signal(signal.SIGALRM, _alarm)
    arm(False)
    start = time.monotonic()
    try:
        return call(sub, case, rec), rec, False
    except CaseTimeout:
        return None, rec, True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        stats.slowest = max(stats.slowest, time.monotonic() - start)


def guarded(sub, case, stats):
    msg, rec, late = timed(sub, case, stats)
    if late and rec.must_end:
        msg, rec, late = timed(sub, case, stats)
        if late and rec.must_end:
            raise Stuck("no result within {:.0f} s".format(END_LIMIT))
    if late:
        stats.timeouts += 1
        stats.timeout_cases.append({"sub": sub.name, "case": case})
        rec.label("timeout")
        rec.nontrivial = False
    stats.add(sub, case, rec)
    return msg


def run_sub(pid, sub, seed, shard, n, stop_at, stats):
    """Returns None or a (case, message) violation."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 20

    for case in sub.examples[shard :: sub.shards]:
        case = json.loads(json.dumps(case))
        try:
            msg = guarded(sub, case, stats)
        except Stuck as e:
            return case, str(e)
        if msg is not None:
            return case, msg

    failing, stuck = [], []

    @hypothesis.seed(derived_seed(seed, pid, sub.name, shard))
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(sub.strategy)
    def search(case):
        if stuck:
            return
        if not failing and (time.monotonic() > stop_at or stats.timeouts >= 3):
            stats.cut = True
            return
        try:
            msg = guarded(sub, case, stats)
        except Stuck as e:
            # Isn't shrunk: each attempt would take as long
            stuck.append((case, str(e)))
            return
        if msg is not None:
            failing.append((case, msg))
            raise Violation(msg)

    try:
        search()
    except HarnessError:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if not failing:
            raise HarnessError("".join(traceback.format_exception(e))[-3000:])
    if stuck and not failing:
        return stuck[0]
    if failing:
        # The last failing run is the minimal one; make sure that it's reproducible
        for case, msg in (failing[-1], failing[0]):
            try:
                again = guarded(sub, case, stats)
            except Stuck:
                break
            if again is not None:
                return case, again
        return failing[-1]
    return None


def setup_process():
    warnings.simplefilter("ignore")
    import logging

    import numpy as np

    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)


def worker(pid, shard, seed, tier, out):
    setup_process()
    start = time.monotonic()
    stats = Stats()
    stats.current = out + ".current"
    result = {"violation": None, "error": None}
    try:
        prop = load(pid)
        if prop.warmup is not None:
            try:
                prop.warmup()  # Not subject to the limit per case
            except Exception:
                pass  # Cases will show
        stop_at = time.monotonic() + SOFT[tier]
        for sub in prop.subs:
            total = getattr(sub, tier) * (BOOST.get(pid, 1) if tier == "quick" else 1)
            if shard >= sub.shards:
                continue
            n = max(1, math.ceil(total / sub.shards))
            found = run_sub(pid, sub, seed, shard, n, stop_at, stats)
            if found is not None:
                result["violation"] = {"sub": sub.name, "case": found[0], "message": found[1]}
                break
    except HarnessError as e:
        result["error"] = str(e)
    except Exception:
        result["error"] = traceback.format_exc()[-3000:]
    result.update(
        evals=stats.evals,
        nontrivial=sorted(stats.nontrivial),
        labels=stats.labels,
        samples=stats.samples,
        timeouts=stats.timeouts,
        timeout_cases=stats.timeout_cases[:2],
        cut=stats.cut,
        slowest=stats.slowest,
        per_sub={k: v for k, v in stats.per_sub.items()},
        wall=time.monotonic() - start,
    )
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f)
    os.replace(tmp, out)
    return 0


# --------------------------------------------------------------------------- parent


def violated(out):
    try:
        with open(out) as f:
            return json.load(f)["violation"] is not None
    except (OSError, ValueError):
        return False


def stuck_in(path):
    """The case a worker has been running for so long that its own timer would have stopped it, if it could."""
    try:
        if time.time() - os.path.getmtime(path) < STUCK:
            return None
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    found = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry["property"] == pid:
                        found.append(entry)
    return found


def write_replay(pid, v, seed, tier):
    os.makedirs(REPLAY_DIR, exist_ok=True)
    path = os.path.join(REPLAY_DIR, "{}-{}-{}.json".format(pid, v["sub"], digest(v["case"])))
    with open(path, "w") as f:
        json.dump(
            {"property": pid, "sub": v["sub"], "case": v["case"], "message": v["message"], "seed": seed, "tier": tier},
            f,
            indent=1,
        )
    return path


def replay(pid, path):
    setup_process()
    with open(path) as f:
        data = json.load(f)
    prop = load(pid)
    sub = next(s for s in prop.subs if s.name == data["sub"])
    if prop.warmup is not None:
        prop.warmup()
    try:
        msg, rec, late = timed(sub, data["case"], Stats())
        if late:
            msg = "no result" if rec.must_end else None
    except Stuck as e:
        msg = str(e)
    if msg is None:
        print("replay: property {} holds on {} (labels: {})".format(pid, path, rec.labels))
        return 0
    print(msg)
    print("VIOLATION property={} replay={}".format(pid, path))
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    args = ap.parse_args(argv)
    pid = args.property
    if args.worker is not None:
        return worker(pid, args.worker, args.seed, args.tier, args.out)
    if args.replay:
        return replay(pid, args.replay)

    start = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="pyemd_verif_")
    procs = []
    try:
        env = dict(os.environ, TMPDIR=tmp, MPLCONFIGDIR=os.path.join(tmp, "mpl"))
        for i in range(WORKERS):
            out = os.path.join(tmp, "{}.json".format(i))
            cmd = [sys.executable, "-W", "ignore", "-B", os.path.join(VERIF, "check.py"), pid, "--tier", args.tier]
            cmd += ["--seed", str(args.seed), "--worker", str(i), "--out", out]
            log = open(os.path.join(tmp, "{}.log".format(i)), "w")
            p = subprocess.Popen(cmd, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append((i, p, out, log))
        killed, hung = 0, []
        waiting = list(procs)
        until = start + HARD[args.tier]
        while waiting:
            time.sleep(0.05)
            late = time.monotonic() > until
            for item in list(waiting):
                i, p, out, log = item
                stop = late
                if p.poll() is None and not stop:
                    stop = stuck_in(out + ".current") is not None
                if p.poll() is None and stop:
                    killed += 1
                    found = stuck_in(out + ".current")
                    if found and found["bounded"]:
                        hung.append(found)
                if p.poll() is not None or stop:
                    waiting.remove(item)
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    log.close()
                    if not stop and violated(out):
                        until = min(until, time.monotonic() + GRACE)
        results, errors = [], []
        for i, p, out, log in procs:
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r["error"]:
                    errors.append("worker {}: {}".format(i, r["error"]))
            elif not killed:
                with open(os.path.join(tmp, "{}.log".format(i))) as f:
                    errors.append("worker {} died (status {}): {}".format(i, p.returncode, f.read()[-2000:]))
    finally:
        for i, p, out, log in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(tmp, ignore_errors=True)

    setup_process()
    prop = load(pid)
    labels, nontrivial, samples, per_sub = {}, set(), [], {}
    for r in results:
        nontrivial.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["per_sub"].items():
            ps = per_sub.setdefault(k, [0, 0])
            ps[0] += v[0]
            ps[1] += v[1]
    for s in prop.subs:
        mine = [x for r in results for x in r["samples"] if x["sub"] == s.name]
        mine.sort(key=lambda x: len(json.dumps(x)))
        samples.extend(mine[len(mine) // 2 :][:2])
    violations = [r["violation"] for r in results if r["violation"]]
    for h in hung:
        violations.append({"sub": h["sub"], "case": h["case"], "message": "no result within {:.0f} s".format(STUCK)})
    violations.sort(key=lambda v: len(json.dumps(v["case"])))

    known = []
    for entry in known_findings(pid):
        if entry.get("status") != "known":
            continue
        sub = next(s for s in prop.subs if s.name == entry["sub"])
        msg = call(sub, dict(entry["case"], known_finding=True), Rec())
        if msg is not None:
            known.append(entry["id"])
            print("KNOWN-FINDING: property={} {}".format(pid, entry["what"]))

    wall = time.monotonic() - start
    evidence = {
        "property": pid,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "samples": samples[:16],
            "per_sub_check": {k: {"evaluations": v[0], "distinct_nontrivial": v[1]} for k, v in sorted(per_sub.items())},
            "labels": dict(sorted(labels.items())),
            "inconclusive_timeouts": sum(r["timeouts"] for r in results),
            "inconclusive_cases": [c for r in results for c in r["timeout_cases"]][:4],
            "slowest_case_s": round(max([r["slowest"] for r in results] + [0.0]), 2),
            "cut_short_by_time_cap": any(r["cut"] for r in results) or bool(killed),
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "known_findings": known,
    }
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    with open(os.path.join(EVIDENCE_DIR, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(
        "{} tier={} seed={} evaluations={} nontrivial={} wall={:.1f}s".format(
            pid, args.tier, args.seed, evidence["coverage"]["evaluations"], len(nontrivial), wall
        )
    )
    if violations:
        v = violations[0]
        path = write_replay(pid, v, args.seed, args.tier)
        print("{}: {}".format(v["sub"], v["message"]))
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors), file=sys.stderr)
        return 2
    return 0
