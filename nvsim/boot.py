"""Loads the libraries, installs the seams, imports the package under test from REPO."""
import os
import sys

REPO = os.environ.get('NVSIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
ROOT = os.path.join(SRC, 'nvector') + os.sep


def env_setup():
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    sys.dont_write_bytecode = True


def libs():
    env_setup()
    import numpy, numpy.linalg, numpy.random, numpy.ma        # noqa
    import scipy.interpolate, scipy.signal, scipy.special     # noqa
    import geographiclib.geodesic                             # noqa
    import decimal, locale, pickle, copy, datetime, json, hashlib, tempfile, threading, queue, textwrap, inspect  # noqa
    import concurrent.futures, concurrent.futures.thread, contextlib, functools, collections, weakref, logging    # noqa


def package():
    """import nvector from the working tree (never from stale byte code)"""
    sys.path.insert(0, SRC)
    sys.pycache_prefix = '/nonexistent/nvsim-pycache'
    import nvector
    if not os.path.abspath(nvector.__file__).startswith(ROOT):
        raise SystemExit('nvector was loaded from %s, not from %s' % (nvector.__file__, ROOT))
    return nvector


_compiled = {}
fresh = False           # compile the sources anew (the compiler's own warnings then come again)


def compile_once():
    """the sources are read by every simulated import, but compiled once per process tree"""
    import importlib.machinery as m
    orig = m.SourceFileLoader.source_to_code

    def source_to_code(self, data, path, *a, **k):
        if fresh or not str(path).startswith(ROOT):
            return orig(self, data, path, *a, **k)
        key = (bytes(data), path)
        if key not in _compiled:
            _compiled[key] = orig(self, data, path, *a, **k)
        return _compiled[key]
    m.SourceFileLoader.source_to_code = source_to_code


def bare():
    """everything but the package itself"""
    compile_once()
    sys.path.insert(0, SRC)
    sys.pycache_prefix = '/nonexistent/nvsim-pycache'
    import glob
    for path in glob.glob(os.path.join(ROOT, '*.py')):
        with open(path, 'rb') as f:
            data = f.read()
        try:
            _compiled[data, path] = compile(data, path, 'exec', dont_inherit=True)
        except SyntaxError:
            pass


def boot(package=True):
    libs()
    from . import seams
    seams.install()
    from . import sched
    sched.warm_up(ROOT)
    import gc
    gc.disable()
    nv = globals()['package']() if package else bare()
    from . import ops, values
    ops.nv = values.nv = nv
    ops.install_warnings()
    gc.collect()
    gc.freeze()
    return nv
