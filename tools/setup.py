#!/usr/bin/env python3
"""Checks that the tools the checks need are there (nothing is built ahead:
every check compiles what it needs from /repo's working tree)."""
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(HERE + "/evidence", exist_ok=True)
os.makedirs(HERE + "/out", exist_ok=True)
bad = [t for t in ("clang++", "python3") if not shutil.which(t)]
sys.path.insert(0, HERE)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
from check import PYTHON  # noqa: E402
if subprocess.run([PYTHON, "-c", "import numpy"]).returncode:
    bad.append("numpy in " + PYTHON)
if bad:
    print("missing:", bad)
    sys.exit(1)
print("ready")
