"""setup_cmd: nothing to build; verifies that the interpreter and modules the checks need are there."""
import os, subprocess, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
subprocess.check_call([py, "-B", "-c", "import sys; sys.path.insert(0, %r); import numpy, scipy; from mc import core, ref, common" % here])
print("ok")
