"""A second interpreter (another hash seed, optimisation mode ...) that runs functions in forked children.

Used as the "restarted process" and to compare interpreter modes.  Started on demand by the process
that needs it, ends when that process closes the pipe.
"""
import importlib
import os
import pickle
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODES = {
    'plain': ([], {'PYTHONHASHSEED': '0'}),
    'seed1': ([], {'PYTHONHASHSEED': '1'}),
    'seed2': ([], {'PYTHONHASHSEED': '4242'}),
    'O': (['-O'], {'PYTHONHASHSEED': '3'}),
    'OO': (['-OO'], {'PYTHONHASHSEED': '0'}),
    'dev': (['-X', 'dev'], {'PYTHONHASHSEED': '5'}),
    'utf8': (['-X', 'utf8', '-b'], {'PYTHONHASHSEED': '6', 'LC_ALL': 'C', 'LANG': 'C'}),
    'nofrozen': (['-X', 'no_debug_ranges', '-X', 'importtime'], {'PYTHONHASHSEED': '7'}),
    'hostile0': ([], {'PYTHONHASHSEED': '9', 'NVSIM_HOSTILE': '0'}),
    'hostile1': ([], {'PYTHONHASHSEED': '10', 'NVSIM_HOSTILE': '4'}),
    'hostile2': ([], {'PYTHONHASHSEED': '11', 'NVSIM_HOSTILE': '-1'}),
    'empty': ([], {'PYTHONHASHSEED': '12', 'NVSIM_EMPTY': '1'}),          # the environment is emptied before the import
    'odd': ([], {'PYTHONHASHSEED': '13', 'NVSIM_BEFORE': '[["odd", 3]]'}),   # these settings are changed before the import
    'changed': ([], {'PYTHONHASHSEED': '14', 'NVSIM_BEFORE': '[["logging", 10], ["machine", 3], ["locale", "C"], ["decimal", 3], ["printoptions", {"precision": 2, "threshold": 2}], '
                                                             '["argv", ["prog", "--debug"]], ["interactive", null], ["np random", 1], ["umask", 63], ["matplotlib", null]]'}),
    'malloc': ([], {'PYTHONHASHSEED': '8', 'PYTHONMALLOC': 'malloc', 'TZ': 'Asia/Kolkata'}),
}


def _write(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    view = memoryview(len(data).to_bytes(8, 'big') + data)
    while view:
        view = view[os.write(fd, view):]


def _read_n(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, min(1 << 20, n - len(out)))
        if not b:
            return None
        out += b
    return out


def _read(fd):
    head = _read_n(fd, 8)
    if head is None:
        return None
    body = _read_n(fd, int.from_bytes(head, 'big'))
    return None if body is None else pickle.loads(body)


class Server:
    def __init__(self, mode):
        args, env = MODES[mode.split('/')[0]]
        bare = ['bare'] if mode.endswith('/bare') else []
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                a, b = os.dup(r1), os.dup(w2)
                os.dup2(a, 200)
                os.dup2(b, 201)
                devnull = os.open('/dev/null', os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(devnull, fd)
                os.set_inheritable(200, True)
                os.set_inheritable(201, True)
                os.closerange(3, 200)
                os.chdir(HERE)
                e = dict(os.environ)
                e.update(env)
                e['PYTHONDONTWRITEBYTECODE'] = '1'
                argv = [sys.executable] + args + ['-W', 'ignore', '-m', 'nvsim.server', '200', '201'] + bare
                os.execve(sys.executable, argv, e)
            finally:
                os._exit(9)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.owner = os.getpid()
        hello = _read(self.r)
        if not hello or hello[0] != 'ready':
            raise RuntimeError('the %s interpreter did not start: %s' % (mode, hello))

    def call(self, fn, *args):
        _write(self.w, (fn, args))
        ans = _read(self.r)
        if ans is None:
            raise RuntimeError('the second interpreter ended')
        if ans[0] != 'ok':
            raise RuntimeError('the second interpreter failed: %s' % ans[1])
        return ans[1]


_servers = {}


def call(mode, fn, *args):
    """run 'module:function' in a forked child of the interpreter in that mode"""
    s = _servers.get(mode)
    if s is None or s.owner != os.getpid():
        s = _servers[mode] = Server(mode)
    return s.call(fn, *args)


def call_own(mode, fn, *args):
    """run 'module:function' in a new interpreter of that mode itself: nothing is forked after its imports"""
    s = Server(mode)
    try:
        return s.call('own!' + fn, *args)
    finally:
        os.close(s.w)
        os.close(s.r)
        os.waitpid(s.pid, 0)


def main():
    r, w = int(sys.argv[1]), int(sys.argv[2])
    import traceback
    try:
        from . import boot
        if os.environ.get('NVSIM_HOSTILE'):
            from . import ambient
            ambient.hostile_environ(int(os.environ['NVSIM_HOSTILE']))
        if os.environ.get('NVSIM_BEFORE'):
            import json
            from . import ambient
            for kind, arg in json.loads(os.environ['NVSIM_BEFORE']):
                ambient.perturb(kind, arg)
        if os.environ.get('NVSIM_EMPTY'):
            os.environ.clear()
        boot.boot(package='bare' not in sys.argv[3:])
        from . import forks
        _write(w, ('ready',))
    except BaseException:
        _write(w, ('failed', traceback.format_exc()))
        os._exit(1)
    while True:
        req = _read(r)
        if req is None:
            os._exit(0)
        try:
            own = req[0].startswith('own!')
            mod, name = req[0].replace('own!', '').split(':')
            fn = getattr(importlib.import_module(mod), name)
            _write(w, ('ok', fn(*req[1]) if own else forks.in_child(fn, *req[1])))
        except BaseException:
            _write(w, ('err', traceback.format_exc()))


if __name__ == '__main__':
    main()
