"""Process-wide settings a library call must neither change nor depend on."""
import builtins
import contextvars
import decimal
import gc
import hashlib
import locale
import logging
import math
import os
import random
import signal
import socket
import sys
import threading
import warnings

import numpy as np
import scipy.special

SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGFPE, signal.SIGCHLD]


def _h(b):
    return hashlib.sha1(b).hexdigest()[:12]


def process_wide():
    """settings every thread sees (cheap enough to look at many times per run)"""
    st = np.random.get_state()
    return {
        'warning filters': tuple((f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters),
        'warnings.showwarning': id(warnings.showwarning),
        'warnings.formatwarning': (id(warnings.formatwarning), id(warnings.warn), id(warnings.warn_explicit)),
        'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'numpy random state': (_h(st[1].tobytes()), st[2]),
        'random state': hash(random.getstate()),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'working directory': _cwd(),
        'environment': _h(repr(sorted(os.environ.items())).encode()),
        'locale': locale.setlocale(locale.LC_ALL),
        'sys.path': tuple(sys.path),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'gc settings': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'sys hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
        'logging': (tuple(map(id, logging.root.handlers)), logging.root.level, logging.root.disabled, logging.root.manager.disable, logging.raiseExceptions,
                    id(logging.getLoggerClass()), id(logging.getLogRecordFactory())),
        'socket timeout': socket.getdefaulttimeout(),
        'import machinery': (tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), sys.dont_write_bytecode),
        'int digits limit': sys.get_int_max_str_digits(),
        'stack size of threads': threading.stack_size(),
        'trace functions of threads': (threading.gettrace(), threading.getprofile()),
        'gc callbacks': len(gc.callbacks),
    }


class Watch:
    """the process-wide settings in a form that is quick to compare, for use at every simulated step"""

    def __init__(self):
        self.base = None
        self.reset()

    @staticmethod
    def look():
        return (warnings.filters[:], warnings.showwarning, np.get_printoptions(), sys.getrecursionlimit(), sys.getswitchinterval(),
                _cwd(), dict(os.environ), locale.setlocale(locale.LC_ALL), sys.path[:], sys.stdin, sys.stdout, sys.stderr,
                gc.isenabled(), gc.get_threshold(), sys.excepthook, random.getstate())

    def reset(self):
        self.base = self.look()
        self.np = np.random.get_state()

    def check(self, thorough=False):
        """None or what changed"""
        now = self.look()
        if now != self.base:
            names = ('warning filters', 'warnings.showwarning', 'numpy print options', 'recursion limit', 'switch interval', 'working directory',
                     'environment', 'locale', 'sys.path', 'stdin', 'stdout', 'stderr', 'gc switch', 'gc thresholds', 'excepthook', 'random state')
            return ', '.join(n for n, a, b in zip(names, now, self.base) if a != b)
        if thorough:
            st = np.random.get_state()
            if st[2] != self.np[2] or not np.array_equal(st[1], self.np[1]):
                return 'numpy random state'
        return None


def _cwd():
    try:
        return os.getcwd()
    except OSError:
        return None


def thread_local():
    """settings of the calling thread"""
    return {
        'numpy error handling': tuple(sorted(np.geterr().items())),
        'numpy error callback': id(np.geterrcall()) if np.geterrcall() is not None else None,
        'numpy buffer size': np.getbufsize(),
        'scipy error handling': tuple(sorted(scipy.special.geterr().items())),
        'decimal context': repr(decimal.getcontext()),
    }


def slow():
    """settings looked at before and after a call only"""
    return {
        'signal handlers': tuple(str(signal.getsignal(s)) for s in SIGNALS),
        'open files': tuple(sorted(os.listdir('/proc/self/fd'))),
        'umask': _umask(),
        'threads': threading.active_count(),
        'profile function': id(sys.getprofile()) if sys.getprofile() else None,
        'decimal default context': repr(decimal.DefaultContext),
        'time zone': _tz(),
        'context variables': tuple(sorted((v.name, id(x)) for v, x in contextvars.copy_context().items())),
    }


def modules():
    return {(m.__name__, k): id(v) for m in (np, np.linalg, math, builtins) for k, v in vars(m).items() if k != '_'}


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _tz():
    import time
    return time.tzname, time.timezone


def snapshot():
    s = process_wide()
    s.update(thread_local())
    s.update(slow())
    s['modules'] = modules()
    return s


def changed(a, b):
    out = [k for k in a if k in b and a[k] != b[k] and k != 'modules']
    if 'modules' in a and 'modules' in b:
        out += ['%s.%s' % k for k in a['modules'] if k in b['modules'] and a['modules'][k] != b['modules'][k]][:3]
    return out


# ------------------------------------------------------------------ perturbations (C04)
class Errcall:
    def __init__(self):
        self.n = 0

    def __call__(self, *a):
        self.n += 1

    def write(self, msg):
        self.n += 1


HOSTILE = ('1', '0', '1', '', '1', 'yes', '1', 'true', '1', 'off', '3', '1e-3', 'WGS72', 'sphere', 'E', '/nonexistent', 'float32', 'debug,trace', 'euclidean')


def _asks(frame):
    """is the code that asks for an environment variable the library itself?"""
    from . import boot
    for _ in range(8):
        frame = frame.f_back
        if frame is None:
            return False
        name = frame.f_code.co_filename
        if name.startswith(boot.ROOT):
            return True
        if not (name == os.__file__ or 'collections_abc' in name or name.startswith('<frozen')):
            return False


class HostileEnviron(os._Environ):
    """an environment in which every variable the library might ask for is set, to something of no use to it"""
    pick = None

    def __getitem__(self, key):
        if _asks(sys._getframe()) and isinstance(key, str):
            if type(self).pick < 0:
                return '1'
            return HOSTILE[(int(hashlib.sha1(key.encode()).hexdigest(), 16) + type(self).pick) % len(HOSTILE)]
        return os._Environ.__getitem__(self, key)

    def __iter__(self):
        return os._Environ.__iter__(self)


def hostile_environ(pick):
    HostileEnviron.pick = pick
    os.environ.__class__ = HostileEnviron


def odd(k):
    """every setting at once has a value that nobody would set back to by accident"""
    np.seterr(divide='ignore', over='call' if k % 2 else 'ignore', under='warn', invalid='ignore' if k % 3 else 'print')
    np.seterrcall(Errcall())
    np.setbufsize((16, 4096, 12800)[k % 3])
    scipy.special.seterr(singular='warn', domain='warn' if k % 2 else 'ignore')
    warnings.resetwarnings()
    warnings.filterwarnings('always', category=BytesWarning, module='odd%d' % k)
    warnings.simplefilter(('always', 'default', 'once')[k % 3], append=True)
    np.set_printoptions(precision=3 + k % 4, suppress=True, linewidth=61 + k, threshold=5 + k)
    np.random.seed(1234 + k)
    random.seed(k)
    sys.setrecursionlimit(3333 + k)
    sys.setswitchinterval(0.0071)
    decimal.getcontext().prec = 11 + k
    decimal.getcontext().rounding = decimal.ROUND_DOWN
    os.environ['NVSIM_ODD'] = str(k)
    if k % 2:
        gc.disable()
    gc.set_threshold(611 + k, 7, 5)
    sys.set_int_max_str_digits(700 + k)
    os.umask(0o037)
    os.chdir(('/', '/usr', '/tmp')[k % 3])
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)


def crowd(n):
    """n other threads of the program, all of them waiting for something"""
    from . import seams
    stop = seams.real_allocate_lock()
    stop.acquire()
    ready = []

    def idle():
        threading.current_thread()
        ready.append(1)
        stop.acquire()
    for i in range(n):            # one by one: locks are the simulator's here, and these threads are not
        seams.real_start_new_thread(idle, ())
        while len(ready) <= i:
            seams.real_sleep(0.0002)


def machine(n):
    """another computer: its number of cores, its name, its user, its load"""
    os.cpu_count = lambda: n
    os.sched_getaffinity = lambda pid: set(range(n or 1))
    if hasattr(os, 'process_cpu_count'):
        os.process_cpu_count = lambda: n
    os.getloadavg = lambda: (99.0, 99.0, 99.0)
    import getpass
    import platform
    import time
    for mod, names, val in ((platform, ('node', 'system', 'machine', 'processor', 'release', 'python_implementation'), 'other'), (socket, ('gethostname',), 'other'),
                            (getpass, ('getuser',), 'other')):
        for name in names:
            setattr(mod, name, lambda *a, _v=val, **k: _v)
    sys.platform = ('win32', 'darwin', 'linux2')[(n or 0) % 3]
    os.getpid = lambda: 1 if n == 1 else 4194303


def perturb(kind, arg=None):
    """change one ambient setting of this (forked) process"""
    if kind == 'odd':
        odd(arg)
    elif kind == 'errstate':
        np.seterr(all=arg)
        if arg in ('call', 'log'):
            np.seterrcall(Errcall())
    elif kind == 'scipy errors':
        scipy.special.seterr(all=arg)
    elif kind == 'warnings':
        warnings.resetwarnings()
        warnings.simplefilter(arg)
    elif kind == 'printoptions':
        np.set_printoptions(**arg)
    elif kind == 'np random':
        np.random.seed(arg)
    elif kind == 'random':
        random.seed(arg)
    elif kind == 'recursion':
        sys.setrecursionlimit(arg)
    elif kind == 'cwd':
        os.chdir(arg)
    elif kind == 'environ':
        os.environ.update(arg)
    elif kind == 'hostile environ':
        hostile_environ(arg)
    elif kind == 'argv':
        sys.argv = list(arg)
    elif kind == 'thread name':
        threading.current_thread().name = arg
    elif kind == 'environ clear':
        for k in list(os.environ):
            if k not in ('PATH',):
                del os.environ[k]
    elif kind == 'locale':
        locale.setlocale(locale.LC_ALL, arg)
    elif kind == 'decimal':
        decimal.getcontext().prec = arg
        decimal.getcontext().rounding = decimal.ROUND_UP
    elif kind == 'stdout':
        import io
        sys.stdout = None if arg is None else io.StringIO()
        sys.stderr = None if arg is None else io.StringIO()
    elif kind == 'stdout closed':
        f = open('/dev/null', 'w')
        f.close()
        sys.stdout = sys.stderr = f
    elif kind == 'bufsize':
        np.setbufsize(arg)
    elif kind == 'clock':
        from . import seams
        seams.clock.jump(arg)
    elif kind == 'gc':
        if arg:
            gc.enable()
            gc.set_threshold(*arg)
        else:
            gc.disable()
    elif kind == 'tz':
        os.environ['TZ'] = arg
        import time
        time.tzset()
    elif kind == 'switchinterval':
        sys.setswitchinterval(arg)
    elif kind == 'intdigits':
        sys.set_int_max_str_digits(arg)
    elif kind == 'umask':
        os.umask(arg)
    elif kind == 'crowd':
        crowd(arg)
    elif kind == 'localeconv':
        locale._override_localeconv = {'decimal_point': ',', 'thousands_sep': '.', 'grouping': [3, 3, 0]}
    elif kind == 'interactive':
        sys.ps1, sys.ps2 = '>>> ', '... '
        builtins.__IPYTHON__ = True
    elif kind == 'signal':
        signal.signal(signal.SIGFPE, signal.SIG_IGN)
    elif kind == 'machine':
        machine(arg)
    elif kind == 'logging':
        logging.raiseExceptions = False
        logging.root.setLevel(arg)
        logging.root.addHandler(logging.NullHandler())
        logging.captureWarnings(arg == logging.DEBUG)
    elif kind == 'profile':
        sys.setprofile(lambda *a: None)
    elif kind == 'refuses':
        gc.callbacks.append(lambda *a: None)
        sys.unraisablehook = lambda *a: None
    elif kind == 'matplotlib':
        import matplotlib
        matplotlib.rcParams.update({'lines.linewidth': 9, 'axes.unicode_minus': False})
    elif kind == 'nofile':
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (arg, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    else:
        raise ValueError(kind)


PERTURBATIONS = [
    *[('odd', k) for k in (0, 1, 2, 3, 4, 5)],
    ('errstate', 'ignore'), ('errstate', 'warn'), ('errstate', 'call'), ('errstate', 'print'), ('errstate', 'log'),
    ('scipy errors', 'ignore'), ('scipy errors', 'warn'),
    ('warnings', 'ignore'), ('warnings', 'once'), ('warnings', 'default'), ('warnings', 'module'),
    ('printoptions', {'precision': 2, 'suppress': True, 'threshold': 2}), ('printoptions', {'floatmode': 'fixed', 'sign': '+', 'legacy': '1.13'}),
    ('np random', 1), ('random', 7), ('recursion', 5000), ('recursion', 300), ('cwd', '/'), ('environ', {'LC_ALL': 'C', 'LANG': 'tr_TR', 'NVECTOR': '1', 'DEBUG': '1', 'PYTHONOPTIMIZE': '2'}),
    ('environ clear', None), *[('hostile environ', k) for k in (-1, -1, *range(0, 19, 3))],
    ('argv', ['prog', '--debug', '-v', '--degrees']), ('argv', []), ('locale', 'C'), ('decimal', 3), ('stdout', 'buffer'), ('stdout', None), ('stdout closed', None),
    ('bufsize', 16), ('bufsize', 1024), ('clock', 86400.0 * 365), ('clock', -1e9), ('clock', 3e9), ('gc', (1, 1, 1)), ('gc', None),
    ('crowd', 3), ('crowd', 12), ('crowd', 40), ('localeconv', None), ('interactive', None),
    ('tz', 'Pacific/Kiritimati'), ('tz', 'UTC+12'), ('switchinterval', 1e-6), ('intdigits', 640), ('umask', 0o777), ('signal', None),
    *[('machine', n) for n in (1, 2, 3, 5, 64, None)], ('logging', 10), ('logging', 10), ('logging', 60), ('profile', None), ('refuses', None), ('matplotlib', None),
]
