"""Process bootstrap: private HOME, private caches, silenced stdio, hypothesis, and pyg2p imported from /repo's working tree."""
import atexit
import glob
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
WHEELS = '/opt/veriftools/wheels'
DEPS = os.path.join(VERIF, '.deps')
_NEEDED = ('hypothesis-6.170.15-cp312-*.whl', 'sortedcontainers-*.whl', 'attrs-*.whl')

SCRATCH = None
REAL_OUT = None   # the process' true stdout, for reports


class HarnessError(BaseException):
    """Something is wrong with the check itself: never a verdict on the code."""


def install_deps(target):
    os.makedirs(target, exist_ok=True)
    for pat in _NEEDED:
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if found:
            with zipfile.ZipFile(found[-1]) as z:
                z.extractall(target)


def find_deps():
    if os.environ.get('PV_DEPS'):
        return os.environ['PV_DEPS']
    if os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        return DEPS
    d = tempfile.mkdtemp(prefix='pvdeps_')
    install_deps(d)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return d


def report(line):
    out = REAL_OUT or sys.__stdout__
    out.write(line + '\n')
    out.flush()


def boot(quiet=True):
    """Must run before pyg2p is imported."""
    global SCRATCH, REAL_OUT
    if SCRATCH:
        return SCRATCH
    deps = find_deps()
    SCRATCH = tempfile.mkdtemp(prefix='pv_')
    main_pid = os.getpid()

    def _clean():
        if os.getpid() == main_pid:
            os.chdir('/')
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(_clean)
    home = os.path.join(SCRATCH, 'home')
    work = os.path.join(SCRATCH, 'work')
    os.makedirs(os.path.join(home, '.pyg2p'))
    os.makedirs(work)
    os.environ['HOME'] = home
    os.environ['NUMBA_CACHE_DIR'] = os.environ.get('PV_NUMBA_CACHE') or os.path.join(SCRATCH, 'numba')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['TMPDIR'] = SCRATCH
    os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'NUMEXPR_NUM_THREADS', 'NUMEXPR_MAX_THREADS', 'NUMBA_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    tempfile.tempdir = SCRATCH
    sys.dont_write_bytecode = True
    os.chdir(work)
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.path.append(deps)
    if quiet:
        sys.stdout.flush()
        REAL_OUT = os.fdopen(os.dup(1), 'w')
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        if not os.environ.get('PV_STDERR'):
            REAL_ERR = os.dup(2)
            os.dup2(null, 2)
            sys.stderr = os.fdopen(REAL_ERR, 'w')
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import logging
    logging.basicConfig(stream=open(os.devnull, 'w'))
    import pyg2p
    if not os.path.abspath(pyg2p.__file__).startswith(os.path.join(REPO, 'src')):
        raise HarnessError(f'wrong pyg2p: {pyg2p.__file__}')
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    return SCRATCH
