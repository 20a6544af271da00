#!/usr/bin/env python3
"""Entry point of the checks:  check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Exit status: 0 - the property held on everything explored, 1 - violation (a
"VIOLATION property=<id> replay=<path>" line is printed), 2 - harness error.
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONWARNINGS": "ignore",
    "TQDM_DISABLE": "",
    "PYEMD_VERIF_CHILD": "1",
}

if os.environ.get("PYEMD_VERIF_CHILD") != "1" and os.path.exists(PY):
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-W", "ignore", "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PYEMD_VERIF_REPO", "/repo"))
# Hypothesis lives in the tooling venv (same Python version). It's put at the very end,
# so that numpy & co. are those the project is run with.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from pyemd_verif import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
