"""paths and thread settings shared by every entry point"""
import glob
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def setup():
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('MPLCONFIGDIR', '/tmp')
    sys.dont_write_bytecode = True
    for p in (os.path.join(REPO, 'src'), VERIF):
        if p not in sys.path:
            sys.path.insert(0, p)
    for p in ('/opt/vp', '/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
        if p not in sys.path:
            sys.path.append(p)
    try:
        import vp_noext
    except ImportError:
        pass


def harness_modules():
    return sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(VERIF, 'harness', 'h_*.py')))


def load_harnesses(prop=None):
    """the harness modules (all of them: they are small)"""
    for m in harness_modules():
        with open(os.path.join(VERIF, 'harness', m + '.py')) as f:
            if prop is not None and "'%s'" % prop not in f.read():
                continue
        importlib.import_module('harness.' + m)
    importlib.import_module('harness.whole').extend()
