#!/usr/bin/env python3
"""setup_cmd: nothing to build (pure Python); verifies the interpreter and the imports."""
import subprocess
import sys
import os

here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c",
                    f"import sys; sys.path[:0]=['{here}','/repo']; import mc.core, numpy, scipy, qetpy; print('ok', qetpy.__file__)"],
                   env=env, cwd=here)
sys.exit(r.returncode)
