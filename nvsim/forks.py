"""Run a function in a forked child of this (pristine) process; results come back by pipe."""
import os
import pickle
import select
import shutil
import signal
import sys
import traceback

from . import seams


class ChildFailure(Exception):
    """the harness, not the library, failed in a child"""


class ChildCrash(ChildFailure):
    """the child's process was killed by a signal (SIGSEGV, SIGABRT, ...)"""


class ChildTimeout(Exception):
    """no answer within the wall-clock limit"""


stats = {'forks': 0}
scratch = None       # this worker's temporary directory: empty when a child starts


def _sweep():
    try:
        names = os.listdir(scratch)
    except OSError:
        return
    for n in names:
        path = os.path.join(scratch, n)
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path, ignore_errors=True)
        else:
            os.unlink(path)


def in_child(fn, *args, timeout=60.0):
    global scratch
    r, w = os.pipe()
    stats['forks'] += 1
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            scratch = None
            seams.reset()
            try:
                data = pickle.dumps(('ok', fn(*args)), protocol=4)
                code = 0
            except BaseException:
                data = pickle.dumps(('err', traceback.format_exc()), protocol=4)
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = seams.real_monotonic() + timeout
    try:
        while True:
            left = deadline - seams.real_monotonic()
            if left <= 0:
                raise ChildTimeout()
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                raise ChildTimeout()
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    except ChildTimeout:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    if scratch is not None:
        _sweep()
    data = b''.join(chunks)
    if not data:
        raise (ChildCrash if os.WIFSIGNALED(status) else ChildFailure)('child ended with status %d and no answer' % status)
    kind, val = pickle.loads(data)
    if kind == 'err':
        raise ChildFailure(val)
    return val
