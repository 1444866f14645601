"""C09: importing the package is all-or-nothing, repeatable and correctly dated."""
import builtins
import importlib
import importlib.machinery
import inspect
import os
import re
import sys
import time
import types

from .. import ambient, boot, core, forks, gen, ops, sched, seams, server, values
from .base import Base, REAL, STUB

MODULES = ('core', 'license', 'objects', 'rotation', 'util')
YEAR = re.compile(r'(2015-)(\d{1,5})(?!\d)')
ZONES = ('UTC0', 'AAA-14', 'BBB12', 'CCC-5:30', 'DDD5EEE')
STMTS = ('import nvector', 'from nvector import GeoPoint, lat_lon2n_E', 'from nvector import *', 'import nvector.objects', 'from nvector.core import interp_nvectors',
         'import nvector.rotation, nvector.util')
SETTINGS = [p for p in ambient.PERTURBATIONS if p[0] in ('odd', 'errstate', 'scipy errors', 'printoptions', 'np random', 'random', 'recursion', 'cwd', 'environ', 'argv', 'decimal',
                                                         'stdout', 'stdout closed', 'bufsize', 'gc', 'crowd', 'localeconv', 'interactive', 'umask', 'switchinterval', 'thread name')
            and not (p[0] == 'gc' and p[1] is None)] + [('errstate', 'raise')]
NEUTRAL = dict(mode='plain', clock=1767225600.0, tz='UTC0', threads=[], plan=[], faults=[])


# ------------------------------------------------------------------ what the importer sees
def text(doc, years):
    if not isinstance(doc, str):
        return None
    years.update(int(m.group(2)) for m in YEAR.finditer(doc))
    return YEAR.sub(r'\1YEAR', doc)


def describe(x, years, depth=0):
    if isinstance(x, (staticmethod, classmethod)):
        return (type(x).__name__, describe(x.__func__, years, depth + 1))
    if isinstance(x, property):
        return ('property', text(x.__doc__, years)) + tuple(describe(f, years, depth + 1) if f else None for f in (x.fget, x.fset))
    if inspect.isclass(x) and depth < 2:
        skip = ('__dict__', '__weakref__', '__doc__', '__module__')
        return ('class', tuple(b.__name__ for b in x.__mro__), text(x.__doc__, years),
                tuple((k, describe(v, years, depth + 1)) for k, v in sorted(vars(x).items()) if k not in skip))
    if callable(x):
        try:
            sig = str(inspect.signature(x))
        except (TypeError, ValueError):
            sig = '?'
        sig = re.sub(r' at 0x[0-9a-f]+', '', sig)
        return ('callable', getattr(x, '__name__', '?'), sig, text(getattr(x, '__doc__', None), years))
    if isinstance(x, str):
        return ('text', text(x, years))
    return ('value', type(x).__name__)


def api(years):
    """the public interface as it is now -> {name: description}"""
    nv = sys.modules['nvector']
    out = {'nvector': text(nv.__doc__, years)}
    for n in sorted(dir(nv)):
        x = getattr(nv, n)
        if n.startswith('_') and n != '__version__' or isinstance(x, types.ModuleType):
            continue
        out[n] = describe(x, years)
        home = sys.modules.get(getattr(x, '__module__', None) or '')
        if home is not None and home.__name__.startswith('nvector') and getattr(home, getattr(x, '__name__', ''), x) is not x:
            out[n] = ('another copy than the one in %s' % home.__name__,)
    for m in MODULES:
        mod = sys.modules.get('nvector.' + m)
        if mod is None:
            out['module ' + m] = 'not loaded'
            continue
        out['module ' + m] = text(mod.__doc__, years) if getattr(nv, m, None) is mod else 'not reachable as nvector.' + m
        out['names of ' + m] = tuple(sorted(getattr(mod, '__all__', ()))), tuple(n for n in getattr(mod, '__all__', ()) if not hasattr(mod, n))
    lic = sys.modules.get('nvector.license')
    out['licence'] = text(lic.__doc__, years) if lic is not None else None
    return out


# ------------------------------------------------------------------ the simulated importers
class Disk:
    """import statements and source reads of the package, counted; some of them fail"""

    def __init__(self, sim, table):
        self.sim = sim
        self.table = table                 # (tid, attempt) -> [[kind, exception, k], ...]
        self.count = {}
        self.total = {'imp': 0, 'read': 0}
        self.last = {}

    def event(self, kind, what):
        self.total[kind] += 1
        t = self.sim.me()
        if t is None:
            return
        k = (t.tid, t.op, kind)
        self.count[k] = self.count.get(k, 0) + 1
        for f in self.table.get((t.tid, t.op), ()):
            if f[0] == kind and f[2] == self.count[k]:
                t.fired.append((f[1], t.step, '%s of %s' % (kind, what)))
                self.sim.hit('%s fails:%s' % ({'imp': 'import statement', 'read': 'source read'}[kind], f[1]))
                self.sim.ilog.update(('%s %d.%d %s %s;' % (kind, t.tid, t.op, f[1], what)).encode())
                raise sched.make_exc(f[1])

    def install(self):
        self.saved = builtins.__import__, importlib.machinery.SourceFileLoader.get_data
        real_import, real_get = self.saved
        disk = self

        def __import__(name, globals=None, locals=None, fromlist=(), level=0):
            if globals is not None and str(globals.get('__name__', '')).startswith('nvector'):
                disk.event('imp', name or '.')
            return real_import(name, globals, locals, fromlist, level)

        def get_data(loader, path):
            if str(path).startswith(boot.ROOT):
                disk.event('read', os.path.basename(path))
            return real_get(loader, path)
        builtins.__import__ = __import__
        importlib.machinery.SourceFileLoader.get_data = get_data

    def remove(self):
        builtins.__import__, importlib.machinery.SourceFileLoader.get_data = self.saved


def years_now(years):
    years.add(seams.real_localtime(seams.clock.now).tm_year)


def child(spec, queries):
    os.environ['TZ'] = spec['tz']
    time.tzset()
    seams.reset(spec['clock'])
    allowed, problems, raised = set(), [], 0
    record = spec.get('record')
    sim = sched.Sim(boot.ROOT, order=spec.get('order'), record=record)
    table = {}
    for tid, i, kind, exc, k in spec['faults']:
        table.setdefault((tid, i), []).append([kind, exc, k])
    disk = Disk(sim, table)
    for kind, arg in spec.get('amb', ()):
        ambient.perturb(kind, arg)
        sim.hit('ambient: ' + kind)
        sim.ilog.update(('amb %s %r;' % (kind, arg)).encode())
        boot.fresh = boot.fresh or kind == 'warnings'
    amb = ambient.snapshot()
    idx = core.plan_index(spec['plan'])
    log = {}
    pilot = {}

    def jump(s, t, act):
        years_now(allowed)
        seams.clock.jump(act[1])
        sim.hit('clock jump')
        sim.ilog.update(b'jump;')
        years_now(allowed)
    sim.handlers['jump'] = jump
    years_now(allowed)

    def add(th):
        tid = th['tid']

        def body(t):
            for i, stmt in enumerate(th['stmts']):
                sim.begin_op(t, i, idx.get((tid, i), {}))
                for f in table.get((tid, i), ()):
                    if f[0] == 'dep':
                        t.depfail = [f[2], f[1]]
                code = compile(stmt, '<importer %d>' % tid, 'exec')
                ns = {}
                exc = None
                try:
                    sim.trace_on(t)
                    try:
                        exec(code, ns)
                    finally:
                        sim.trace_off(t)
                except BaseException as e:
                    exc = (type(e).__name__, str(e)[:200])
                log[tid, i] = exc, list(t.fired), ns.get('nvector') is None or ns['nvector'] is sys.modules.get('nvector')
                if record:
                    tr = t.tracer
                    pilot.update(steps=tr.step, legal=tr.legals, depcalls=tr.depcalls)
        sim.add(tid, body)
    for th in spec['threads']:
        add(th)
    disk.install()
    try:
        sim.run()
    finally:
        disk.remove()
    years_now(allowed)
    fired_any = any(f for _, f, _ in log.values())
    single = len(spec['threads']) == 1
    for (tid, i), (exc, fired, same) in sorted(log.items()):
        who = 'import %d of thread %d' % (i + 1, tid)
        if exc and exc[0] in ('SimDeadlock', 'StepBound'):
            problems.append('%s did not end: %s' % (who, exc[1]))
        elif exc:
            raised += 1
            if not fired and (single or not fired_any):
                problems.append('%s met no fault but raised %s: %s' % (who, exc[0], exc[1]))
            for name, step, where in fired:
                if name in ('KeyboardInterrupt', 'SystemExit', 'TimeoutError') and exc[0] != name:
                    problems.append('%s: the %s delivered at %s reached the importer as %s: %s' % (who, name, where, exc[0], exc[1]))
        else:
            for name, step, where in fired:
                if name in ('KeyboardInterrupt', 'SystemExit', 'TimeoutError', 'MemoryError'):
                    problems.append('%s: the %s delivered at %s was swallowed' % (who, name, where))
            if not same and not fired_any:
                problems.append('%s got a module object that is not sys.modules["nvector"]' % who)
    years, found, answers = set(), None, []
    try:
        seams.sim = None
        import nvector as nv          # no fault can happen any more
        found = api(years)
        years_now(allowed)
        ops.nv = values.nv = nv
        for world, op in queries:
            answers.append(ops.perform(op, values.build(world)).pack())
    except BaseException as e:
        problems.append('the import after all faults raised %s: %s' % (type(e).__name__, e))
    for y in sorted(years - allowed):
        problems.append('the documentation says 2015-%d, the clock said %s' % (y, ' or '.join(map(str, sorted(allowed)))))
    ch = ambient.changed(amb, ambient.snapshot())
    if ch:
        problems.append('importing changed: %s' % ', '.join(ch))
    st = dict(steps=sim.steps, switches=sim.switches, fired=dict(sim.fired), il=sim.ilog.digest()[:8] if sim.fired else b'',
              simtime=seams.clock.advanced + sim.steps * 1e-6, lock_ops=sim.lock_ops, lock_waits=sim.lock_waits, ops=len(log) + 1, probes={'imports that failed': raised})
    if record:
        st['pilot'] = dict(pilot, imports=disk.total['imp'], reads=disk.total['read'])
    return problems, found, answers, st


def remote(mode, fn, *args):
    if mode == 'plain':
        return forks.in_child(globals()[fn], *args)
    return server.call(mode + '/bare', 'nvsim.props.c09:' + fn, *args)


_undisturbed = {}
_answers = {}


def undisturbed(mode):
    if mode not in _undisturbed:
        spec = dict(NEUTRAL, mode=mode, threads=[{'tid': 1, 'stmts': ['import nvector']}], record=1)
        problems, found, _, st = remote(mode, 'child', spec, [])
        _undisturbed[mode] = problems, found, st['pilot']
    return _undisturbed[mode]


def answer(mode, world, op):
    k = core.key(mode, world, op)
    if k not in _answers:
        _answers[k] = remote(mode, 'child', dict(NEUTRAL, mode=mode), [(world, op)])[2]
    return _answers[k]


def api_diff(found, want):
    for k in want:
        if k not in found:
            return '%s is missing' % k
        if found[k] != want[k]:
            return '%s is %s, after an undisturbed import it is %s' % (k, where(found[k], want[k]), where(want[k], found[k]))
    for k in found:
        if k not in want:
            return '%s is there, after an undisturbed import it is not' % k
    return None


def where(a, b):
    """the part of a that differs from b"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if x != y:
                return where(x, y)
    if isinstance(a, str) and isinstance(b, str):
        n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return '%r (at character %d)' % (a[max(0, n - 20):n + 60], n)
    return repr(a)[:200]


def strip(found):
    """names, signatures and bases only"""
    def f(x):
        if isinstance(x, tuple) and x and x[0] == 'callable':
            return x[:3]
        if isinstance(x, tuple) and x and x[0] == 'class':
            return x[:2] + (tuple((k, f(v)) for k, v in x[3]),)
        if isinstance(x, tuple) and x and x[0] == 'property':
            return x[:1]
        if isinstance(x, tuple) and x and x[0] in ('staticmethod', 'classmethod'):
            return (x[0], f(x[1]))
        return None
    return {k: f(v) for k, v in found.items() if not k.startswith(('module ', 'licence', 'nvector'))}


class C09(Base):
    id = 'C09'
    package = False
    jobs = {'quick': 96, 'thorough': 3000}
    runs_per_job = 90
    rule = ('A case is one simulated execution in a process that has not imported the package: 1-4 importing threads with 1-3 import statements each, faults (interrupts at bytecode positions '
            'of module code, failing import statements, failing source reads, failing dependency calls), clock values, time zones and clock jumps, switches between importers, then an import '
            'that meets no fault; non-trivial if a fault, jump or switch really happened; distinct by their sequence with code locations.')
    real = REAL + ['importlib']
    stub = STUB + ['import lock (simulated)', 'byte-code cache (sources are read at every import, compiled once)']
    assumptions = ['CPython 3.12 with the GIL', 'an undisturbed import in a fresh process of the same interpreter mode defines the complete interface',
                   'an importing thread that overlaps another thread\'s failing import may be handed the failed module by CPython itself; such an overlap is judged by the next import only']

    def prepare(self):
        pass

    def job(self, r, tier, job):
        g = gen.Gen(r)
        g.base_world()
        q = [(values.closure(g.world, op), op) for op in (g.op() for _ in range(6))]
        # one call for every name the modules take from elsewhere
        need = [(values.closure(g.world, op), op) for op in (
            g.op_inverse(), g.op_direct(), g.op_mean(), g.op_R2angles(), g.op_deg(), g.op_unit(), g.op_repr(), g.op_get_ellipsoid(),
            g.F('interp_nvectors', g.any('ti'), g.any('tt'), g.any('tn')), g.F('interp_nvectors', g.any('ti'), g.any('tt'), g.any('tn'), window_length=3, polyorder=1))]
        day = 86400.0
        for _ in range(self.runs_per_job):
            mode = r.choice(['plain'] * 8 + ['O', 'OO'])
            p = undisturbed('plain' if mode == 'plain' else mode)[2]
            y = r.randint(2001, 2090) if r.random() < 0.9 else r.choice([1971, 1985, 2000, 2099, 2100, 2150, 2999])
            newyear = time.mktime((y, 1, 1, 0, 0, 0, 0, 0, 0))
            clock = r.choice([newyear + r.uniform(0, 364) * day, newyear + r.choice([-0.5, 0.5, -1e-3, 1e-3, -3600 * 11, 3600 * 11])])
            nt = r.choice([1, 1, 1, 2, 2, 3, 4])
            threads, fl, plan = [], [], []
            for t in range(nt):
                tid = t + 1
                n = r.choice([1, 2, 2, 3]) if t == 0 else r.choice([1, 1, 2])
                stmts = [r.choice(STMTS if nt == 1 else STMTS[:3]) for _ in range(n)]
                threads.append({'tid': tid, 'stmts': stmts})
                for i in range(n):
                    if t and r.random() < 0.7:
                        continue
                    k = r.choice(['int', 'int', 'int', 'imp', 'read', 'dep', 'none'])
                    if k == 'int' and p['legal']:
                        plan.append([tid, i, r.choice(p['legal']), ['int', r.choice(['KeyboardInterrupt', 'TimeoutError', 'MemoryError', 'SystemExit'])]])
                    elif k == 'imp':
                        fl.append([tid, i, 'imp', r.choice(['ImportError', 'ImportError', 'OSError', 'MemoryError', 'KeyboardInterrupt']), r.randint(1, max(1, p['imports']))])
                    elif k == 'read':
                        fl.append([tid, i, 'read', r.choice(['OSError', 'OSError', 'MemoryError']), r.randint(1, max(1, p['reads']))])
                    elif k == 'dep' and p['depcalls']:
                        fl.append([tid, i, 'dep', r.choice(['MemoryError', 'RuntimeError', 'KeyboardInterrupt', 'TimeoutError']), r.randint(1, p['depcalls'])])
            if nt > 1:
                tids = [t['tid'] for t in threads]
                for _ in range(r.choice([1, 2, 4, 8])):
                    a, b = r.sample(tids, 2)
                    th = threads[a - 1]
                    plan.append([a, r.randrange(len(th['stmts'])), r.choice([0, r.randint(1, p['steps'])]), ['sw', b]])
            if r.random() < 0.3:
                plan.append([1, 0, r.randint(0, p['steps']), ['jump', r.choice([400 * day, -400 * day, 3600.0, -2.0, 40 * 365 * day])]])
            plan.sort(key=lambda e: (e[0], e[1], e[2]))
            order = [t['tid'] for t in threads]
            r.shuffle(order)
            spec = {'mode': mode, 'clock': clock, 'tz': r.choice(ZONES), 'threads': threads, 'order': order, 'plan': plan, 'faults': fl,
                    'q': [list(x) for x in (need if any(f[2] in ('imp', 'read', 'dep') for f in fl) and r.random() < 0.8 else r.sample(q, r.choice([0, 1, 1])))]}
            k = r.random()
            if k < 0.2:                       # a program with settings of its own
                spec['amb'] = [list(r.choice(SETTINGS)) for _ in range(r.choice([1, 1, 2, 3]))] if k > 0.03 else [['warnings', r.choice(['error', 'error', 'always'])]]
                spec['q'] = []
            yield spec

    def evaluate(self, spec):
        mode = spec['mode']
        problems, found, answers, st = remote(mode, 'child', spec, spec['q'])
        problems = list(problems)
        p0, want, _ = undisturbed(mode)
        problems += ['undisturbed import (%s): %s' % (mode, p) for p in p0]
        if found is not None and want is not None:
            d = api_diff(found, want)
            if d:
                problems.append(d)
            if mode != 'plain':
                base = undisturbed('plain')[1]
                d = api_diff(strip(found), strip(base)) if mode == 'OO' else api_diff(found, base)
                if d:
                    problems.append('under %s: %s' % (mode, d))
        for (world, op), a in zip(spec['q'], answers):
            want = answer('plain', world, op)
            d = ops.differs(ops.Outcome.unpack(a), ops.Outcome.unpack(want[0])) if want else None
            if d:
                problems.append('afterwards %s: %s' % (ops.describe(op), d))
        st['ops'] += len(answers)
        return problems, st

    def candidates(self, spec):
        from .. import faults
        yield from core.list_candidates(spec, 'q')
        if spec.get('amb'):
            yield from core.list_candidates(spec, 'amb')
        for j, th in enumerate(spec['threads']):
            if len(spec['threads']) > 1:
                s = core.drop_thread(spec, j)
                s['faults'] = [f for f in spec['faults'] if f[0] != th['tid']]
                yield s
        for j, th in enumerate(spec['threads']):
            if len(th['stmts']) > 1:
                for i in range(len(th['stmts'])):
                    s = dict(spec)
                    t2 = dict(th, stmts=th['stmts'][:i] + th['stmts'][i + 1:])
                    s['threads'] = spec['threads'][:j] + [t2] + spec['threads'][j + 1:]
                    s['plan'] = [([e[0], e[1] - 1] + e[2:] if e[0] == th['tid'] and e[1] > i else e) for e in spec['plan'] if not (e[0] == th['tid'] and e[1] == i)]
                    s['faults'] = faults.shift(spec['faults'], th['tid'], i)
                    yield s
        yield from core.list_candidates(spec, 'faults')
        yield from core.list_candidates(spec, 'plan')
        if spec['mode'] != 'plain':
            yield dict(spec, mode='plain')

    def text(self, spec):
        out = ['interpreter mode %s, clock %s, TZ=%s' % (spec['mode'], time.strftime('%Y-%m-%d %H:%M:%S UTC', seams.real_gmtime(spec['clock'])), spec['tz'])]
        for a in spec.get('amb', ()):
            out.append('the program has set: %s %r' % tuple(a))
        for th in spec['threads']:
            for i, s in enumerate(th['stmts']):
                out.append('thread %d import %d: %s' % (th['tid'], i + 1, s))
        for e in spec['plan']:
            out.append('  at thread %d import %d step %d: %s' % (e[0], e[1] + 1, e[2], e[3]))
        for f in spec['faults']:
            out.append('  thread %d import %d: %s number %d raises %s' % (f[0], f[1] + 1, {'imp': 'import statement', 'read': 'source read', 'dep': 'dependency call'}[f[2]], f[4], f[3]))
        out += ['then a plain import and: ' + '; '.join(ops.describe(q[1]) for q in spec['q'])]
        return '\n'.join(out)


PROP = C09()
