#!/opt/venv/bin/python
"""Setup: nothing is built; makes sure the solver, the code under test and the harnesses load."""
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("MPLBACKEND", "Agg")
import json

import z3

from vlib import runner

runner.load_real()
ids = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
n = 0
for p in ids:
    n += len(runner.load_property(p)[1])
    for m in [m for m in sys.modules if m.startswith("harness.p")]:
        del sys.modules[m]
print("z3", z3.get_version_string(), "-", len(ids), "properties,", n, "tasks")
