"""Process environment of every simulated run. Import this before numpy."""
import os
import sys

for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS',
           'NUMEXPR_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True

# The tree under test. SIMFIT_REPO is only used while developing the checks
# (to try them on scratch copies).
REPO = os.path.abspath(os.environ.get('SIMFIT_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, 'menpofit') + os.sep

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import warnings

warnings.simplefilter('ignore')


def load():
    """Import everything that is needed, once, before any run is forked."""
    import numpy as np
    np.seterr(all='ignore')
    import menpo.io          # noqa
    import menpo.model       # noqa
    import menpo.feature     # noqa
    import menpo.visualize   # noqa
    import menpofit
    for m in ('aam', 'atm', 'clm', 'aps', 'lk', 'sdm', 'unified_aam_clm',
              'io', 'dlib', 'math', 'visualize', 'fitter', 'builder',
              'modelinstance', 'result', 'checks', 'base', 'error',
              'transform'):
        __import__('menpofit.' + m)
    got = os.path.abspath(menpofit.__file__)
    if not got.startswith(SRC):
        raise SystemExit('menpofit was imported from {} instead of {}'.format(
            got, SRC))
