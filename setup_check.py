"""setup: nothing to build (the checks read /repo's source directly); verify that the tools they need are here."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy  # noqa
import z3  # noqa

here = os.path.dirname(os.path.abspath(__file__))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
print("python", sys.version.split()[0], "numpy", numpy.__version__, "z3", z3.get_version_string())
