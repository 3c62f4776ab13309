"""Process environment of every check process.

* niapy is imported from /repo/src (the current working tree), never from an installed copy;
* no byte code is read from or written to /repo (PYTHONPYCACHEPREFIX points into a scratch directory);
* Hypothesis comes from the tooling venv, appended at the END of sys.path so that numpy & co. stay those of the project venv.
"""
import os
import sys

REPO = os.environ.get('NV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def child_env(scratch):
    e = dict(os.environ)
    e.update(HYPOTHESIS_NO_PLUGINS='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0',
             PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), NV_SCRATCH=scratch,
             HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, 'hyp'))
    e.pop('PYTHONPATH', None)
    return e


def setup_path():
    src = os.path.join(REPO, 'src')
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import niapy
    assert os.path.realpath(niapy.__file__).startswith(os.path.realpath(src)), niapy.__file__
