"""Puts Hypothesis (from the offline wheelhouse) and the code under test (/repo) on sys.path."""
import os
import sys
import tempfile
import zipfile
import glob
import shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, '.deps')
WHEELS = '/opt/veriftools/wheels'
MARK = '.complete'


def ensure_deps():
    """Unpacks the hypothesis and sortedcontainers wheels into .deps (atomic rename, so that concurrent runs are safe)."""
    if not os.path.exists(os.path.join(DEPS, MARK)):
        wheels = []
        for pattern in ('hypothesis-*-cp312-*manylinux*x86_64.whl', 'hypothesis-*cp312*.whl', 'hypothesis-*-abi3-*x86_64.whl', 'hypothesis-*.whl'):
            found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
            if found:
                wheels.append(found[-1])
                break
        wheels += sorted(glob.glob(os.path.join(WHEELS, 'sortedcontainers-*.whl')))[-1:]
        if not wheels:
            raise RuntimeError('hypothesis wheel not found')
        tmp = tempfile.mkdtemp(prefix='.deps-', dir=ROOT)
        for w in wheels:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        open(os.path.join(tmp, MARK), 'w').close()
        try:
            os.rename(tmp, DEPS)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


def setup():
    sys.dont_write_bytecode = True
    if not os.environ.get('MPLCONFIGDIR'):
        d = tempfile.mkdtemp(prefix='vmpl-')
        os.environ['MPLCONFIGDIR'] = d
        for f in glob.glob('/opt/vp/mplconfig/*.json'):
            shutil.copy(f, d)
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY', os.path.join(tempfile.gettempdir(), 'no-hypothesis'))
    ensure_deps()
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy, scipy.optimize, scipy.linalg, scipy.stats, networkx, matplotlib.pyplot, pandas  # noqa
    # never trust a .pyc of the code under test: compile the sources that are in the tree right now
    sys.pycache_prefix = '/nonexistent-pycache-prefix'
    import pydtmc
    sys.pycache_prefix = None
    where = os.path.realpath(os.path.dirname(pydtmc.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'pydtmc')):
        raise RuntimeError(f'pydtmc imported from {where}')
    return pydtmc
