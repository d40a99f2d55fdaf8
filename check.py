#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(VENV, [VENV, "-W", "ignore"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
