"""Import the system under test from the repository's working tree, deterministically and read-only."""
import os
import sys

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
sys.dont_write_bytecode = True

REPO = os.path.realpath(os.environ.get('MC_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, REPO)
import logging      # noqa: E402
import warnings     # noqa: E402
import numpy as np  # noqa: E402
import dfols        # noqa: E402

assert os.path.dirname(os.path.dirname(os.path.realpath(dfols.__file__))) == REPO, dfols.__file__

import dfols.model, dfols.util, dfols.trust_region, dfols.controller, dfols.params, dfols.solver  # noqa: E402,F401

warnings.simplefilter('ignore')
np.seterr(all='ignore')

LOGGER = logging.getLogger('dfols')
LOGGER.propagate = False
LOGGER.addHandler(logging.NullHandler())
LOGGER.setLevel(logging.CRITICAL)

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
