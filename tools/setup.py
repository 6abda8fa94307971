#!/opt/venv/bin/python
"""Checks that the toolchain the checks need is there (nothing has to be built: pySOT is imported from /repo, TLC parses the specifications)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import env, tla  # noqa: F401,E402
import pySOT  # noqa: F401,E402
for m in sorted(os.listdir(tla.SPEC)):
    if m.endswith(".tla"):
        import subprocess
        r = subprocess.run(["java", "-cp", tla.jar(), "tla2sany.SANY", m], cwd=tla.SPEC, capture_output=True, text=True)
        if r.returncode or "Error" in r.stdout and "*** Errors" in r.stdout:
            print(r.stdout, r.stderr)
            sys.exit(1)
print("ready")
