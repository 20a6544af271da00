#!/usr/bin/env python3
"""Validates planted changes: seeded.py [ID...]. In a scratch copy of /repo, per change: the patch applies, stable tests
pass, demo.sh passes without and fails with it, and (unless --no-check) the property's check reports it. Prints a table."""
import concurrent.futures, json, os, pathlib, shutil, subprocess, sys, tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def run(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def one(name, check=True, checks=None):
    d = ROOT / "seeded" / name
    meta = json.loads((d / "meta.json").read_text())
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="seeded-"))
    try:
        repo = tmp / "repo"
        shutil.copytree("/repo", repo, symlinks=True)
        out = {"id": name, "property": meta["property"]}
        r = run(["bash", str(d / "demo.sh")], repo)
        out["demo_clean"] = r.returncode
        r = run(["git", "apply", str(d / "patch.diff")], repo)
        if r.returncode:
            out["apply"] = r.stdout
            return out
        r = run(["bash", str(d / "demo.sh")], repo)
        out["demo_bug"] = r.returncode
        r = run([PY, "-m", "pytest", "PyEMD/tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x"], repo)
        out["tests"] = r.stdout.strip().splitlines()[-1]
        out["tests_ok"] = r.returncode == 0
        out["caught"] = []
        for c in (checks or [meta["property"]]) if check else []:
            env = dict(ENV, PYEMD_VERIF_REPO=str(repo), PYEMD_VERIF_EVIDENCE=str(tmp / "ev"), PYEMD_VERIF_REPLAYS=str(tmp / "rp"), VERIF_SEED="1", VERIF_TIER="quick")
            r = run(["python3", str(ROOT / "check.py"), c], ROOT, env)
            hit = r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout
            if hit:
                out["caught"].append(c)
            out.setdefault("says", []).append(" | ".join(r.stdout.strip().splitlines()[-2:])[:160])
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = [a[len("--checks="):].split(",") for a in sys.argv if a.startswith("--checks=")]
    jobs = [int(a[7:]) for a in sys.argv if a.startswith("--jobs=")]
    names = args or sorted(p.name for p in (ROOT / "seeded").iterdir() if p.is_dir())
    with concurrent.futures.ThreadPoolExecutor(jobs[0] if jobs else 2) as ex:
        for o in ex.map(lambda n: one(n, "--no-check" not in sys.argv, checks[0] if checks else None), names):
            good = o.get("demo_clean") == 0 and o.get("demo_bug", 0) != 0 and o.get("tests_ok")
            print("%-34s %s %s caught=%s" % (o["id"], o["property"], "VALID" if good else "INVALID %s" % o, o.get("caught")))
            for s in o.get("says", []):
                print("      ", s)
            sys.stdout.flush()


if __name__ == "__main__":
    main()
