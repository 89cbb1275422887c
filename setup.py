"""setup_cmd: nothing to fetch or compile; checks that the tools are there."""
import subprocess, sys
import z3  # noqa: F401
subprocess.check_call(["/opt/venv/bin/python", "-c", "import numpy, pandas, scipy, cvxpy"])
print("ok")
