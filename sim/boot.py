"""Process set-up shared by every entry point: one BLAS thread, no display,
pydmd imported from /repo's working tree and from nowhere else."""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl-%d" % os.getuid())

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.append(VERIF)

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy  # noqa: E402,F401
import scipy  # noqa: E402,F401
import pydmd  # noqa: E402
import pydmd.plotter  # noqa: E402,F401
import pydmd.preprocessing  # noqa: E402,F401

assert os.path.realpath(pydmd.__file__).startswith(
    os.path.realpath(REPO) + os.sep
), pydmd.__file__
warnings.simplefilter("ignore")
numpy.seterr(all="ignore")
