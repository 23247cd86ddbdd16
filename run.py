#!/usr/bin/env python3
"""Entry point of every registered check:  run.py <property id> [--replay FILE] [--tier T] [--list]."""
import os
import sys

ENV = {
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONWARNINGS": "ignore",
    "LC_ALL": "C.UTF-8",
}
PY = "/opt/venv/bin/python"

if any(os.environ.get(k) != v for k, v in ENV.items()) or os.path.realpath(sys.prefix) != "/opt/venv":
    if os.environ.get("QETMC_REEXEC") != "1":
        os.environ.update(ENV)
        os.environ["QETMC_REEXEC"] = "1"
        os.execv(PY if os.path.exists(PY) else sys.executable,
                 [PY if os.path.exists(PY) else sys.executable, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("QETMC_REPO", "/repo"))

from mc import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
