"""The release tool (build_package.py) in a scratch project, on a disk and with sub-commands the simulator controls.

The tool runs unchanged in a forked child whose working tree is a small scratch copy of the
project.  Opening, writing, syncing, closing, replacing and deleting files are numbered events; a
fault can hit any of them, and the process can be killed at any of them.  Nothing outside the
scratch directory can be written or deleted: an audit hook refuses and records it.  Sub-commands
are never run, only recorded.
"""
import builtins
import errno
import io
import os
import shutil
import subprocess
import sys
import tempfile

from . import boot, core, sched, seams

KILLED = 77
TOOL = os.path.join(boot.REPO, 'build_package.py')
TARGETS = ('README.rst', 'LICENSE.txt', 'src/nvector/__init__.py')
OWN = ('dist', 'build', 'src/nvector.egg-info', 'docs/_build')

real = dict(open=builtins.open, ioopen=io.open, osopen=os.open, write=os.write, close=os.close, fsync=os.fsync, replace=os.replace, rename=os.rename,
            remove=os.remove, unlink=os.unlink, rmtree=shutil.rmtree, rmdir=os.rmdir, truncate=os.truncate, ftruncate=os.ftruncate, Popen=subprocess.Popen, chdir=os.chdir)


# ------------------------------------------------------------------ scratch projects
def original(name):
    try:
        with real['open'](os.path.join(boot.REPO, name), 'rb') as f:
            return f.read()
    except OSError:
        return None


def make(start):
    """a scratch directory holding a project in that state; returns its path"""
    top = tempfile.mkdtemp(prefix='nvsim-release-')
    proj = os.path.join(top, 'project')
    os.makedirs(os.path.join(proj, 'src', 'nvector', 'tests'))
    os.makedirs(os.path.join(proj, 'docs', '_static'))
    files = {n: original(n) for n in TARGETS}
    for n, how in start.get('old', {}).items():
        if how == 'missing':
            files[n] = None
        elif how == 'empty':
            files[n] = b''
        elif how == 'older':
            files[n] = (files[n] or b'').replace(b'0.7.', b'0.6.').replace(b'2015-2', b'2015-1') + b'\n'
        elif how == 'long':
            files[n] = (files[n] or b'') + b'# kept by an earlier release\n' * 700
    others = {'setup.py': b'# setup\n', 'CHANGELOG.rst': b'changes\n', 'src/nvector/core.py': b'x = 1\n', 'src/nvector/tests/test_x.py': b'pass\n', 'docs/conf.py': b'# conf\n',
              'docs/_static/a.css': b'a\n', 'docs/make.bat': b'rem\n', 'distance.txt': b'not dist\n', 'src/other.egg-info/PKG-INFO': b'other\n', 'docs/_builder/x': b'x\n', 'build.cfg': b'[x]\n',
              'notes/dist/keep.txt': b'keep\n'}
    for n, data in list(files.items()) + list(others.items()):
        if data is not None:
            put(os.path.join(proj, n), data)
    put(os.path.join(top, 'outside', 'precious.txt'), b'precious\n')
    put(os.path.join(top, 'outside', 'dist', 'precious.txt'), b'precious too\n')
    for n, how in start.get('own', {}).items():
        path = os.path.join(proj, n)
        if how == 'full':
            put(os.path.join(path, 'a.bin'), b'1' * 100)
            put(os.path.join(path, 'sub', 'b.bin'), b'2')
        elif how == 'link':
            os.symlink(os.path.join(top, 'outside'), path)
        elif how == 'link inside':
            put(os.path.join(path, 'c.bin'), b'3')
            os.symlink(os.path.join(top, 'outside'), os.path.join(path, 'away'))
        elif how == 'file':
            put(path, b'a file of that name\n')
        elif how == 'empty':
            os.makedirs(path)
    if start.get('link target'):
        n = start['link target']
        path = os.path.join(proj, n)
        if os.path.exists(path):
            os.makedirs(os.path.join(proj, 'shared'), exist_ok=True)
            os.rename(path, os.path.join(proj, 'shared', 'linked.txt'))
            os.symlink(os.path.join(proj, 'shared', 'linked.txt'), path)
    return top


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with real['open'](path, 'wb') as f:
        f.write(data)


def tree(top):
    """every file below top -> its bytes (symbolic links: where they lead)"""
    out = {}
    for d, dirs, files in os.walk(top):
        for n in list(dirs):
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = ('link', os.path.relpath(os.readlink(p), top))
            elif not os.listdir(p):
                out[os.path.relpath(p, top) + '/'] = ('folder',)
        for n in files:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = ('link', os.path.relpath(os.readlink(p), top))
            else:
                with real['open'](p, 'rb') as f:
                    out[os.path.relpath(p, top)] = f.read()
    return out


def target(top, name):
    try:
        with real['open'](os.path.join(top, 'project', name), 'rb') as f:
            return f.read()
    except OSError:
        return None


# ------------------------------------------------------------------ the simulated disk and sub-commands
class World:
    def __init__(self, top, sim, faults, watch=None):
        self.top = os.path.realpath(top)
        self.sim = sim
        self.faults = faults
        self.watch = watch               # {target: allowed contents}: looked at before every event
        self.count = {}
        self.total = 0
        self.calls = []                  # recorded sub-commands
        self.escapes = []                # refused effects outside the scratch directory
        self.torn = []
        self.fired = []
        self.own = 0                     # > 0: the harness itself is at work

    # ---- containment
    def inside(self, path, dir_fd=None):
        if isinstance(path, int):
            path = os.readlink('/proc/self/fd/%d' % path)
            if not path.startswith('/'):
                return False             # a pipe or socket
        path = os.fsdecode(path)
        if dir_fd not in (None, -1) and not os.path.isabs(path):
            path = os.path.join(os.readlink('/proc/self/fd/%d' % dir_fd), path)
        path = os.path.abspath(path)
        p = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
        return p == self.top or p.startswith(self.top + os.sep)

    def audit(self, event, args):
        if self.own:
            return
        bad = None
        if event == 'open':
            path, mode, flags = args
            writing = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if writing and not isinstance(path, int) and os.fsdecode(path) != os.devnull and not self.inside(path):
                bad = 'write to %s' % os.fsdecode(path)
        elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.chmod', 'os.chown', 'os.truncate', 'os.utime', 'shutil.rmtree', 'os.setxattr'):
            fd = args[-1] if event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.chmod', 'os.utime', 'shutil.rmtree', 'os.chown') and isinstance(args[-1], int) else None
            if not self.inside(args[0], fd):
                bad = '%s of %s' % (event, args[0])
        elif event in ('os.rename', 'os.link', 'os.symlink', 'shutil.move'):
            fds = [a if isinstance(a, int) and a != -1 else None for a in list(args[2:4])] + [None, None]
            if not self.inside(args[1], fds[1] if event != 'os.symlink' else fds[0]) or (event != 'os.symlink' and not self.inside(args[0], fds[0])):
                bad = '%s %s -> %s' % (event, args[0], args[1])
        elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.startfile', 'os.fork', 'os.forkpty', 'os.kill', 'os.killpg', 'socket.connect', 'socket.bind'):
            bad = event
        if bad:
            self.escapes.append(bad)
            exc = PermissionError(errno.EPERM, 'refused by the simulator: ' + bad)
            exc.nvsim = True
            raise exc

    # ---- events
    def look(self):
        if self.watch:
            for n, ok in self.watch.items():
                now = target(self.top, n)
                if now not in ok:
                    self.torn.append((self.total, n, -1 if now is None else len(now)))

    def event(self, kind, what):
        """returns the fault for this event, if any; kills the process if it is time"""
        self.look()
        self.total += 1
        k = self.count[kind] = self.count.get(kind, 0) + 1
        hit = None
        for f in self.faults:
            if f[0] == 'kill' and f[1] == self.total:
                self.die('before %s %s' % (kind, what))
            if f[0] == kind and f[1] == k:
                hit = f
        if hit is not None:
            self.note(hit, '%s %s' % (kind, what))
        return hit

    def note(self, f, where):
        name = '%s fails:%s' % (f[0], f[2]) if f[0] not in ('kill', 'short') else f[0]
        self.fired.append([list(f), where])
        self.sim.hit(name)
        self.sim.ilog.update(('%s %s;' % (f, where.replace(self.top, ''))).encode())

    def die(self, where):
        self.report(('killed', where.replace(self.top, '')))
        os._exit(KILLED)

    report = staticmethod(lambda x: None)

    def error(self, name, path=None):
        if name in ('KeyboardInterrupt', 'MemoryError', 'TimeoutError', 'SystemExit'):
            raise sched.make_exc(name)
        exc = OSError(getattr(errno, name), os.strerror(getattr(errno, name)), path)
        exc.nvsim = True
        raise exc

    # ---- files
    def install(self):
        w = self

        class Raw(io.FileIO):
            def write(self, b):
                f = w.event('write', str(self.name))
                data = bytes(b)
                if f is not None:
                    keep = int(len(data) * f[3])
                    if keep:
                        super().write(data[:keep])
                    w.error(f[2])
                for g in w.faults:
                    if g[0] == 'short' and g[1] == w.count['write'] and len(data) > 1:
                        w.note(g, 'write')
                        return super().write(data[:max(1, int(len(data) * g[2]))])
                    if g[0] == 'torn' and g[1] == w.count['write']:
                        super().write(data[:int(len(data) * g[2])])
                        w.look()
                        w.die('in the middle of a write')
                return super().write(b)

            def got(self, n):
                f = None if w.own else w.event('read', str(self.name))
                if f is not None:
                    w.error(f[2])
                return n

            def readinto(self, b):
                return self.got(super().readinto(b))

            def readall(self):
                return self.got(super().readall())

            def read(self, size=-1):
                return self.got(super().read(size))

            def close(self):
                if not self.closed and not self.writable():
                    super().close()
                elif not self.closed:
                    f = w.event('close', str(self.name))
                    super().close()
                    if f is not None:
                        w.error(f[2])

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            reading = not any(c in mode for c in 'wax+')
            if w.own or reading and (isinstance(file, int) or not w.inside(file)):
                return real['ioopen'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            f = w.event('ropen' if reading else 'open', str(file))
            if f is not None:
                w.error(f[2], str(file))
            raw = Raw(file, mode.replace('b', '').replace('t', ''), closefd, opener)
            w.look()
            buf = io.BufferedRandom(raw) if '+' in mode else raw if buffering == 0 else io.BufferedReader(raw) if reading else io.BufferedWriter(raw)
            if 'b' in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
            text.mode = mode
            return text

        def one(kind, fn, two=False):
            def call(*a, **k):
                if w.own:
                    return fn(*a, **k)
                f = w.event(kind, ' '.join(str(x) for x in a[:2 if two else 1]))
                if f is not None:
                    w.error(f[2])
                res = fn(*a, **k)
                w.look()
                return res
            return call
        builtins.open = io.open = sim_open
        os.replace = one('replace', real['replace'], True)
        os.rename = one('replace', real['rename'], True)
        os.remove = one('remove', real['remove'])
        os.unlink = one('remove', real['unlink'])
        os.fsync = one('fsync', real['fsync'])
        os.truncate = one('truncate', real['truncate'])
        WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

        def sim_osopen(path, flags, mode=0o777, *, dir_fd=None):
            if w.own or not flags & WRITING or not w.inside(path, dir_fd):
                return real['osopen'](path, flags, mode, dir_fd=dir_fd)
            f = w.event('open', str(path))
            if f is not None:
                w.error(f[2], str(path))
            fd = real['osopen'](path, flags, mode, dir_fd=dir_fd)
            w.look()
            return fd

        def sim_oswrite(fd, data):
            if w.own or not w.inside(fd):
                return real['write'](fd, data)
            f = w.event('write', str(fd))
            data = bytes(data)
            part = None
            if f is not None:
                part = f[3]
            for g in w.faults:
                if g[0] in ('short', 'torn') and g[1] == w.count['write']:
                    f, part = g, g[2]
            if f is None:
                return real['write'](fd, data)
            n = max(int(len(data) * part), f[0] == 'short')
            n = real['write'](fd, data[:n]) if n else 0
            w.look()
            if f[0] == 'short':
                w.note(f, 'write')
                return n
            if f[0] == 'torn':
                w.die('in the middle of a write')
            w.error(f[2])
        os.open, os.write = sim_osopen, sim_oswrite
        tempfile._name_sequence = ('nvsim%d' % i for i in range(1 << 20))
        shutil._USE_CP_SENDFILE = False

        home = os.path.realpath(os.getcwd())

        def chdir(path):
            if not w.own and (isinstance(path, int) or os.path.realpath(path) != home):   # going back is never made to fail
                f = w.event('chdir', str(path))
                if f is not None:
                    w.error(f[2], str(path))
            return real['chdir'](path)
        os.chdir = chdir

        def rmtree(path, ignore_errors=False, onerror=None, **k):
            f = w.event('rmtree', str(path))
            if f is not None:
                if f[3] and w.inside(path) and os.path.isdir(path) and not os.path.islink(path):
                    names = sorted(os.listdir(path))
                    for n in names[:1]:
                        p = os.path.join(path, n)
                        w.own += 1
                        try:
                            real['rmtree'](p) if os.path.isdir(p) and not os.path.islink(p) else real['unlink'](p)
                        finally:
                            w.own -= 1
                if ignore_errors:
                    return None
                w.error(f[2], str(path))
            if not w.inside(path):
                w.escapes.append('rmtree of %s' % path)
                raise PermissionError(errno.EPERM, 'refused by the simulator: rmtree of %s' % path)
            saved = os.unlink, os.remove
            os.unlink, os.remove = real['unlink'], real['remove']
            try:
                return real['rmtree'](path, ignore_errors, onerror, **k)
            finally:
                os.unlink, os.remove = saved
        rmtree.avoids_symlink_attacks = True
        shutil.rmtree = rmtree

        class Popen:
            """a sub-command that is recorded, not run"""

            def __init__(self, args, *a, cwd=None, **k):
                self.args = args
                here = os.path.realpath(cwd) if cwd else os.path.realpath(cwd_now() or '/')
                w.calls.append([args if isinstance(args, str) else [str(x) for x in args], os.path.relpath(here, w.top)])
                self.fault = w.event('command', str(args))
                self.stdin = self.stdout = self.stderr = None
                self.pid = 0
                self.returncode = None
                if self.fault is not None and self.fault[2] in ('ENOENT', 'EACCES', 'ENOMEM'):
                    w.error(self.fault[2])

            def wait(self, timeout=None):
                if self.fault is not None and self.fault[2] in ('KeyboardInterrupt', 'TimeoutError', 'SystemExit'):
                    f, self.fault = self.fault, None
                    w.error(f[2])
                self.returncode = 1 if self.fault is not None else 0
                return self.returncode

            poll = wait

            def communicate(self, input=None, timeout=None):
                self.wait()
                return (b'', b'')

            def kill(self):
                self.returncode = -9
            terminate = kill
            send_signal = lambda self, sig: self.kill()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.fault = None
                self.wait()
        subprocess.Popen = Popen
        os.system = lambda cmd: Popen(cmd).wait()
        sys.addaudithook(self.audit)


_code = {}


def load_tool():
    """the tool's code, compiled once"""
    if 'code' not in _code:
        with real['open'](TOOL, 'rb') as f:
            _code['code'] = f.read()
    return _code['code']


class Quiet(io.StringIO):
    pass


def cwd_now():
    """the working directory, unless it is gone"""
    try:
        return os.getcwd()
    except OSError:
        return None


def run_tool(top, spec, watch, wfd):
    """in a grandchild: run the tool's functions under the faults; the report goes to wfd"""
    import pickle
    proj = os.path.join(top, 'project')
    os.chdir(os.path.join(proj, spec.get('cwd', '.')))
    cwd = os.getcwd()
    sim = sched.Sim(proj + os.sep, record=spec.get('record'))
    w = World(top, sim, spec.get('faults', []), watch)
    log = []

    def report(end):
        data = pickle.dumps(dict(end=end, log=log, calls=w.calls, escapes=w.escapes, torn=w.torn[:5], fired=w.fired, hits=dict(sim.fired), count=w.count, total=w.total,
                                 steps=sim.steps, il=sim.ilog.digest()[:8] if sim.fired else b'', cwd=cwd_now() == cwd, legal=legal))
        while data:
            data = data[real['write'](wfd, data):]
    w.report = report
    legal = {}
    idx = core.plan_index([[1, i, s, ['int', name]] for i, s, name in spec.get('ints', [])])
    sys.stdout = sys.stderr = Quiet()
    env = {'__name__': 'build_package', '__file__': os.path.join(proj, 'build_package.py')}
    exec(compile(load_tool(), env['__file__'], 'exec'), env)
    w.install()

    def body(t):
        for i, (fn, args) in enumerate(spec['calls']):
            sim.begin_op(t, i, idx.get((1, i), {}))
            f = env[fn]
            f = getattr(f, 'callback', None) or f
            exc = None
            try:
                sim.trace_on(t)
                try:
                    f(*args)
                finally:
                    sim.trace_off(t)
            except BaseException as e:
                inj, x = False, e
                while x is not None:
                    inj, x = inj or getattr(x, 'nvsim', False), x.__cause__ or x.__context__
                exc = type(e).__name__, str(e)[:200].replace(top, ''), inj
            w.own += 1
            log.append((fn, exc, cwd_now() == cwd, list(t.fired)))
            w.own -= 1
            if spec.get('record'):
                legal[i] = t.tracer.legals
            if exc:
                break
    sim.add(1, body)
    sim.run()
    w.look()
    w.own += 1
    report(('ended', ''))


def simulate(top, spec, watch=None):
    """run the tool in a grandchild that may be killed; returns its report"""
    import pickle
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            run_tool(top, spec, watch, wfd)
            os._exit(0)
        except BaseException:
            import traceback
            msg = pickle.dumps(dict(error=traceback.format_exc()))
            os.write(wfd, msg)
            os._exit(1)
    os.close(wfd)
    buf = b''
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not buf:
        raise RuntimeError('the simulated release tool ended with status %d and no report' % status)
    rep = pickle.loads(buf)
    if 'error' in rep:
        raise RuntimeError(rep['error'])
    return rep


def clean(top):
    if os.path.basename(top).startswith('nvsim-release-'):
        real['rmtree'](top, ignore_errors=True)
