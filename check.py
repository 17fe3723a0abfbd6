#!/opt/venv/bin/python
"""Entry point: check.py <property> [--tier quick|thorough]"""
import os
import sys

ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           MPLBACKEND="Agg", JAX_PLATFORMS="cpu", OMPI_MCA_ess_singleton_isolated="1")
PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_REEXEC"] = "1"
    os.execve(PY, [PY, "-u", os.path.abspath(__file__)] + sys.argv[1:], env)
import atexit
import shutil
import tempfile

_d = tempfile.mkdtemp(prefix="verif-mpl-")
_pid = os.getpid()
os.environ["MPLCONFIGDIR"] = _d
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_d, ignore_errors=True))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vlib import runner  # noqa: E402

runner.main()
