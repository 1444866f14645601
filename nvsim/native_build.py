"""Native helpers, built from source on first use into /verif/build:

nvtrace  the tracer (required)
npfault  a numpy data allocator that fails on demand (without it that fault kind is skipped)
"""
import hashlib
import importlib.util
import os
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), 'build')
_mods = {}


def _build(name, extra, tag):
    src = os.path.join(HERE, 'native', name + '.c')
    with open(src, 'rb') as f:
        sha = hashlib.sha1(f.read()).hexdigest()[:10]
    so = os.path.join(BUILD, '%s-%d%d-%s-%s.so' % (name, sys.version_info[0], sys.version_info[1], tag, sha))
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = so + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-I' + sysconfig.get_paths()['include']] + extra + [src, '-o', tmp],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        os.replace(tmp, so)
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def tracer():
    if 'nvtrace' not in _mods:
        _mods['nvtrace'] = _build('nvtrace', [], 'a')
    return _mods['nvtrace']


def load():
    """npfault, or None if it cannot be built here"""
    if 'npfault' not in _mods:
        import numpy
        try:
            _mods['npfault'] = _build('npfault', ['-I' + numpy.get_include()], numpy.__version__)
        except Exception as exc:
            print('note: numpy allocation faults are not available here (%s)' % type(exc).__name__)
            _mods['npfault'] = None
    return _mods['npfault']


if __name__ == '__main__':
    try:
        print('nvtrace', tracer())
    except subprocess.CalledProcessError as exc:
        print(exc.stderr.decode())
        raise
    print('npfault', load())
