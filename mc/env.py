"""Process set-up: import the code under test from /repo, quietly and freshly.

Must be imported before numpy / the package. No bytecode of /repo is read or
written, so that an edit to the working tree is always what runs.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch = tempfile.mkdtemp(prefix="mc-verif-")
_owner = os.getpid()


def _cleanup():
  if os.getpid() == _owner:
    shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(_cleanup)

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(_scratch, "pyc")
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
  os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
_mpl = os.path.join(_scratch, "mpl")
if os.path.isdir("/opt/vp/mplconfig"):
  shutil.copytree("/opt/vp/mplconfig", _mpl)
else:
  os.makedirs(_mpl)
os.environ["MPLCONFIGDIR"] = _mpl

sys.path.insert(0, REPO)

import warnings  # pylint: disable=g-import-not-at-top
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
from absl import logging as _absl_logging
_absl_logging.set_verbosity(_absl_logging.FATAL)
import numpy as np
np.seterr(all="ignore")
import causal_effect_bandits as ceb  # noqa
from causal_effect_bandits import example_scm  # noqa
warnings.simplefilter("ignore")

assert os.path.realpath(ceb.__file__).startswith(
    os.path.realpath(REPO) + os.sep), ceb.__file__
