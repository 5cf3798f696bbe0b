"""Process environment of the simulator: must be imported before numpy / niapy.

Everything the repository could read from its surroundings is pinned here (BLAS
threads, plotting backend, scratch matplotlib cache), and the niapy package is
always taken from the working tree of the repository under test.
"""
import os
import sys
import warnings
import logging

REPO = os.environ.get("NIAPY_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl")
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
sys.setrecursionlimit(1500)

NIAPY_DIR = os.path.join(SRC, "niapy") + os.sep

from . import locks  # noqa: E402
locks.install(NIAPY_DIR)
