"""Process environment for every check: import defdap from /repo's working tree, keep
matplotlib headless with a private config dir, and keep every file effect in a scratch
directory that the process creates and removes."""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')

SCRATCH = tempfile.mkdtemp(prefix='verif_', dir=os.environ.get('TMPDIR', '/tmp'))
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

_mpl = os.path.join(SCRATCH, 'mpl')
try:
    shutil.copytree('/opt/vp/mplconfig', _mpl)
except OSError:
    os.makedirs(_mpl, exist_ok=True)
os.environ['MPLCONFIGDIR'] = _mpl

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402
warnings.filterwarnings('ignore')


def import_defdap():
    import defdap
    got = os.path.realpath(os.path.dirname(os.path.abspath(defdap.__file__)))
    want = os.path.realpath(os.path.join(REPO, 'defdap'))
    if got != want:
        raise RuntimeError(f'defdap imported from {got}, expected {want}')
    return defdap
