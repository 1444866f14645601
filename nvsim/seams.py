"""Seams: every source of nondeterminism the library could reach goes through here.

install() must run after numpy/scipy/geographiclib are loaded and before nvector is
imported, so that whatever nvector binds at import time (locks, clocks, threads, queues)
is the simulated one.  Nothing in /repo is changed.
"""
import _thread
import datetime as _dt
import importlib._bootstrap as _boot
import os
import queue as _queue
import random as _random
import sys
import threading as _threading
import time as _time

real_allocate_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread
real_get_ident = _thread.get_ident
real_monotonic = _time.monotonic
real_time = _time.time
real_sleep = _time.sleep
real_localtime = _time.localtime
real_gmtime = _time.gmtime
real_strftime = _time.strftime
real_asctime = _time.asctime
real_ctime = _time.ctime
real_clock_gettime = _time.clock_gettime
real_clock_gettime_ns = _time.clock_gettime_ns
real_datetime = _dt.datetime
real_date = _dt.date


class SimDeadlock(BaseException):
    """A simulated call would wait for ever."""


class SimKilled(BaseException):
    """The simulator tears a simulated thread down."""


def _no_ticks():
    return 0


class Clock:
    """The only clock: simulated seconds since the epoch (and a monotonic offset).

    Every bytecode step of the library takes a simulated microsecond.
    """
    ticks = staticmethod(_no_ticks)

    def __init__(self, start=1767225600.0):       # 2026-01-01
        self._base = self.ticks()
        self._now = start
        self._mono = 1000.0
        self.advanced = 0.0

    def _t(self):
        return (self.ticks() - self._base) * 1e-6

    @property
    def now(self):
        return self._now + self._t()

    @property
    def mono(self):
        return self._mono + self._t()

    def advance(self, dt):
        self._now += dt
        self._mono += dt
        self.advanced += dt

    def jump(self, dt):
        """wall clock steps (NTP, operator): monotonic time is not affected"""
        self._now += dt


clock = Clock()
sim = None            # the active sched.Sim, if any
lock_registry = []    # every simulated lock made (for reports)
audit = None          # list collecting audit events while a call is observed


def _time_time():
    return clock.now


def _time_ns():
    return int(clock.now * 1e9)


def _mono():
    return clock.mono


def _mono_ns():
    return int(clock.mono * 1e9)


def _sleep(secs):
    if sim is not None and sim.managed():
        sim.sleep(max(0.0, float(secs)))
    else:
        clock.advance(max(0.0, float(secs)))


def _localtime(secs=None):
    return real_localtime(clock.now if secs is None else secs)


def _gmtime(secs=None):
    return real_gmtime(clock.now if secs is None else secs)


def _strftime(fmt, t=None):
    return real_strftime(fmt, _localtime() if t is None else t)


def _asctime(t=None):
    return real_asctime(_localtime() if t is None else t)


def _ctime(secs=None):
    return real_ctime(clock.now if secs is None else secs)


def _clock_gettime(which):
    return clock.now if which in (_time.CLOCK_REALTIME, _time.CLOCK_TAI) else clock.mono


def _clock_gettime_ns(which):
    return int(_clock_gettime(which) * 1e9)


class _DateMeta(type(real_date)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_date)


class SimDate(real_date, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        t = real_localtime(clock.now)
        return real_date(t.tm_year, t.tm_mon, t.tm_mday)


class _DTMeta(type(real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)


class SimDatetime(real_datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        return real_datetime.fromtimestamp(clock.now, tz)

    @classmethod
    def utcnow(cls):
        return real_datetime.fromtimestamp(clock.now, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return real_datetime.fromtimestamp(clock.now)


class SimLock:
    """Non-reentrant lock owned by the simulator; detects waits that can never end."""

    _n = 0

    def __init__(self):
        self._owner = None
        SimLock._n += 1
        self._id = SimLock._n
        lock_registry.append(self)

    def acquire(self, blocking=True, timeout=-1):
        if self._owner is None:
            self._owner = (os.getpid(), real_get_ident())
            if sim is not None:
                sim.lock_ops += 1
            return True
        if not blocking or timeout == 0:
            return False
        s = sim
        if s is None or not s.managed():
            if timeout is not None and timeout >= 0:
                clock.advance(timeout)
                return False
            raise SimDeadlock('lock %d is held and nobody is left to release it' % self._id)
        ok = s.block(self, None if timeout is None or timeout < 0 else timeout)
        if ok:
            self._owner = (os.getpid(), real_get_ident())
        return ok

    acquire_lock = acquire

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._owner = None

    release_lock = release

    def locked(self):
        return self._owner is not None

    locked_lock = locked

    def _at_fork_reinit(self):
        self._owner = None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    __copy__ = __reduce__


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._own = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = real_get_ident()
        if self._own == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._own = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._own != real_get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._own = None
            self._block.release()

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._own = None
        self._count = 0

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._own = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError('cannot release un-acquired lock')
        state = (self._count, self._own)
        self._count = 0
        self._own = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._own == real_get_ident()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.RLock' object")

    __copy__ = __reduce__


def _start_new_thread(function, args=(), kwargs=None):
    if sim is not None and sim.managed():
        return sim.spawn(function, args, kwargs or {})
    return real_start_new_thread(function, args, kwargs or {})


def _set_sentinel():
    lock = SimLock()
    if sim is not None and sim.managed():
        sim.current.sentinel = lock
    return lock


class _ThreadShim:
    """what importlib._bootstrap sees as the _thread module"""
    allocate_lock = staticmethod(lambda: SimLock())
    RLock = staticmethod(lambda: SimRLock())
    get_ident = staticmethod(real_get_ident)

    def __getattr__(self, name):
        return getattr(_thread, name)


WATCHED = {'socket.connect', 'socket.bind', 'subprocess.Popen', 'os.system', 'os.remove', 'os.rename',
           'os.rmdir', 'os.mkdir', 'os.chdir', 'os.putenv', 'os.unsetenv', 'os.chmod', 'os.truncate',
           'shutil.rmtree', 'os.kill', 'os.exec', 'os.posix_spawn', 'signal.pthread_kill',
           'tempfile.mkstemp', 'tempfile.mkdtemp', 'os.symlink', 'os.link', 'os.utime'}


def _own_file(path):
    """a file of the interpreter, of an installed package or of the library, or a device: not the user's"""
    from . import boot
    return path.startswith((sys.prefix + os.sep, sys.base_prefix + os.sep, boot.REPO + os.sep, os.path.dirname(os.path.abspath(__file__)) + os.sep, '/nonexistent/nvsim-pycache/', '/dev/', '/proc/', '/sys/', '/usr/', '<'))


def _audit_hook(event, args):
    if audit is None:
        return
    if event == 'open':
        mode = args[1]
        flags = args[2] if len(args) > 2 else 0
        writing = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
            (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if writing and not str(args[0]).startswith('/dev/'):
            audit.append('open for writing')
        elif isinstance(args[0], (str, bytes)) and not _own_file(os.fsdecode(args[0])):
            audit.append('open %s' % os.fsdecode(args[0]))
    elif event in WATCHED:
        audit.append(event)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.addaudithook(_audit_hook)
    # clocks
    for name, fn in dict(time=_time_time, time_ns=_time_ns, monotonic=_mono, monotonic_ns=_mono_ns,
                         perf_counter=_mono, perf_counter_ns=_mono_ns, process_time=_mono,
                         process_time_ns=_mono_ns, thread_time=_mono, thread_time_ns=_mono_ns,
                         sleep=_sleep, localtime=_localtime, gmtime=_gmtime, strftime=_strftime, asctime=_asctime,
                         ctime=_ctime, clock_gettime=_clock_gettime, clock_gettime_ns=_clock_gettime_ns).items():
        setattr(_time, name, fn)
    _dt.datetime = SimDatetime
    _dt.date = SimDate
    # locks and threads
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
    _thread.start_new_thread = _start_new_thread
    _thread.start_new = _start_new_thread
    _threading.Lock = SimLock
    _threading.RLock = SimRLock
    _threading._CRLock = SimRLock
    _threading._allocate_lock = SimLock
    _threading._start_new_thread = _start_new_thread
    _threading._set_sentinel = _set_sentinel
    _threading._time = _mono
    _queue.SimpleQueue = _queue._PySimpleQueue
    _queue.time = _mono
    try:
        import concurrent.futures.thread as cft
        cft.queue = _queue
    except Exception:       # pragma: no cover
        pass
    _boot._thread = _ThreadShim()
    _random.seed(12345)


def reset(start=1767225600.0):
    """fresh clock for a run (called in the forked child)"""
    clock.__init__(start)
    del lock_registry[:]
