"""The environment in which pySOT runs under the checks."""
import os, sys
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
warnings.filterwarnings("ignore")
import logging
logging.disable(logging.CRITICAL)

# pyDOE2 draws Latin hypercubes from a generator of its own; here from numpy's, so that runs can be repeated.
import numpy as _np  # noqa: E402
import pyDOE2 as _doe  # noqa: E402
import pyDOE2.doe_lhs as _mod  # noqa: E402

_lhs = _doe.lhs


def _seeded(n, samples=None, criterion=None, iterations=None, random_state=None, correlation_matrix=None):
    return _lhs(n, samples, criterion, iterations, _np.random.mtrand._rand if random_state is None else random_state, correlation_matrix)


_doe.lhs = _mod.lhs = _seeded
