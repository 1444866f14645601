"""C10: the plotting helper works without the optional mapping library."""
import builtins
import importlib
import importlib.abc
import io
import sys

import numpy as np

from .. import boot, core, forks, sched, seams, values
from .base import Base, REAL, STUB

PARTS = ('cartopy', 'cartopy.crs', 'cartopy.feature', 'cartopy.trace', 'cartopy.io', 'cartopy.io.shapereader', 'cartopy.mpl', 'cartopy.mpl.geoaxes', 'cartopy._crs')
MISSING = ('ModuleNotFoundError', 'ImportError', 'OSError', 'FileNotFoundError')
OTHER = ('AttributeError', 'RuntimeError', 'MemoryError', 'KeyboardInterrupt', 'TimeoutError', 'SystemExit')
INTERRUPTS = ('KeyboardInterrupt', 'SystemExit')


def make(name):
    exc = getattr(builtins, name)('injected by nvsim')
    exc.nvsim = True
    return exc


class Library(importlib.abc.MetaPathFinder):
    """decides whether (parts of) the mapping library can be loaded"""

    def __init__(self, sim):
        self.sim = sim
        self.fault = None            # ['part', name, exception] or ['deep', k, exception]
        self.count = 0
        self.fired = []

    def find_spec(self, name, path=None, target=None):
        f = self.fault
        if f and f[0] == 'part' and name == f[1]:
            self.hit(f[2], name)
        return None

    def hit(self, exc, where):
        spec = getattr(sys.modules.get('nvector.plot'), '__spec__', None)
        self.fired.append((exc, where, 'at import' if getattr(spec, '_initializing', False) else 'in use'))
        self.sim.hit('mapping library fails:' + exc)
        self.sim.ilog.update(('lib %s %s;' % (exc, where)).encode())
        raise make(exc)

    def install(self):
        sys.meta_path.insert(0, self)
        real = builtins.__import__

        def __import__(name, globals=None, locals=None, fromlist=(), level=0):
            f = self.fault
            if f and f[0] == 'deep' and globals is not None and str(globals.get('__name__', '')).startswith('cartopy'):
                self.count += 1
                if self.count == f[1]:
                    self.hit(f[2], 'import %s in %s' % (name or '.', globals['__name__']))
            return real(name, globals, locals, fromlist, level)
        builtins.__import__ = __import__


class Out(io.StringIO):
    """the standard output; a write may fail"""

    def __init__(self, sim):
        super().__init__()
        self.sim = sim
        self.left = None

    def write(self, s):
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self.left = None
                self.sim.hit('standard output fails')
                self.sim.ilog.update(b'out;')
                exc = OSError(28, 'No space left on device')
                exc.nvsim = True
                raise exc
        return super().write(s)


def figures(plt):
    """what is in every figure"""
    out = {}
    for num in plt.get_fignums():
        fig = plt.figure(num) if False else plt._pylab_helpers.Gcf.figs[num].canvas.figure
        axes = []
        for ax in fig.axes:
            pts = []
            for c in ax.collections:
                if type(c).__name__ == 'PathCollection':
                    off = np.ma.getdata(c.get_offsets())
                    col = tuple(np.round(c.get_facecolors()[0], 6)) if len(c.get_facecolors()) else ()
                    pts.append((col, tuple(sorted(tuple(round(float(v), 9) for v in row) for row in off))))
            axes.append((type(ax).__name__, type(getattr(ax, 'projection', None)).__name__, tuple(pts), ax.get_title(), len(ax.lines), len(ax.patches), len(ax.texts)))
        out[num] = (tuple(axes), tuple(fig.get_size_inches()), fig.get_facecolor(), fig._suptitle.get_text() if fig._suptitle else None)
    return out


def settings(mpl, plt):
    return {k: repr(v) for k, v in mpl.rcParams.items()}, mpl.get_backend(), mpl.is_interactive()


def child(spec):
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    sim = sched.Sim(boot.ROOT)
    lib = Library(sim)
    lib.install()
    problems, log = [], []
    idx = core.plan_index(spec['plan'])
    plt.switch_backend(spec['backend'])
    for k, v in spec['rc'].items():
        mpl.rcParams[k] = v
    (plt.ion if spec['ion'] else plt.ioff)()
    for num, kind in spec['figures']:
        fig = plt.figure(num)
        if kind:
            ax = fig.add_subplot(1, 1, 1)
            if kind > 1:
                ax.plot([0, 1], [2, 3])
                ax.scatter([1.0], [2.0])
                ax.set_title('mine')
    if spec['figures'] and spec.get('current') is not None:
        plt.figure(spec['current'])
    real_out, real_err = sys.stdout, sys.stderr
    record = {}

    def body(t):
        for i, op in enumerate(spec['ops']):
            sim.begin_op(t, i, idx.get((1, i), {}))
            out = Out(sim)
            if 'lib' in op:
                lib.fault, lib.count = op['lib'], 0
                continue
            out.left = op.get('out')
            t.depfail = op.get('dep')
            del lib.fired[:]
            before, setb = figures(plt), settings(mpl, plt)
            exc = None
            sys.stdout = sys.stderr = out
            try:
                sim.trace_on(t)
                try:
                    if op['do'] == 'import':
                        exec(compile('import nvector.plot', '<client>', 'exec'), {})
                    elif op['do'] == 'reload':
                        importlib.reload(sys.modules['nvector.plot']) if 'nvector.plot' in sys.modules else importlib.import_module('nvector.plot')
                    else:
                        exec(compile('from nvector.plot import plot_mean_position\nplot_mean_position()', '<client>', 'exec'), {})
                finally:
                    sim.trace_off(t)
            except BaseException as e:
                inj, x = False, e
                while x is not None:
                    inj, x = inj or getattr(x, 'nvsim', False), x.__cause__ or x.__context__
                exc = type(e).__name__, str(e)[:200], inj
            finally:
                sys.stdout, sys.stderr = real_out, real_err
            if spec.get('record'):
                tr = t.tracer
                record[i] = dict(steps=tr.step, legal=tr.legals, depcalls=tr.depcalls, imports=lib.count)
            log.append((i, op['do'], exc, list(t.fired), list(lib.fired), bool(op.get('out')) and out.left is None, out.getvalue(), before, figures(plt),
                        [k for k, a, b in zip(('rcParams', 'backend', 'interactive'), setb, settings(mpl, plt)) if a != b]))
    if spec.get('record'):
        sim.record = True
    sim.add(1, body)
    sim.run()
    control = True
    lib.fault = None
    if spec.get('control'):
        try:
            import cartopy.crs, cartopy.feature        # noqa
        except BaseException:
            control = False
    st = dict(steps=sim.steps, switches=0, fired=dict(sim.fired), il=sim.ilog.digest()[:8] if sim.fired else b'', simtime=seams.clock.advanced + sim.steps * 1e-6, ops=len(log))
    return log, control, record, st


def control_child(spec):
    """the same session without the plotting module: the mapping library alone is loaded where the module would try to.
    Returns (can it be loaded at the end, the faults that hit it)"""
    import matplotlib.pyplot as plt                       # noqa
    sim = sched.Sim(boot.ROOT)
    lib = Library(sim)
    lib.install()
    fired, loaded = [], False

    def attempt():
        import cartopy.feature                            # noqa
        import cartopy.crs                                # noqa
    for op in spec['ops']:
        if 'lib' in op:
            lib.fault, lib.count = op['lib'], 0
            continue
        if loaded and op['do'] != 'reload':
            continue
        del lib.fired[:]
        try:
            attempt()
            loaded = True
        except Exception:
            loaded = True
        except BaseException:
            pass
        fired.extend(f[:2] for f in lib.fired)
    lib.fault = None
    try:
        attempt()
        return True, fired
    except BaseException:
        return False, fired


PLAIN = dict(backend='agg', rc={}, ion=False, figures=[], plan=[], ops=[])
_want = {}


def want(kind):
    """an undisturbed run, with or without the library"""
    if kind not in _want:
        ops_ = [{'do': 'import'}, {'do': 'plot'}]
        if kind == 'without':
            ops_ = [{'lib': ['part', 'cartopy', 'OSError']}] + ops_
        log, _, rec, _ = forks.in_child(child, dict(PLAIN, ops=ops_, record=1))
        _want[kind] = log, rec
    return _want[kind]


def points(fig):
    """drawn points with their colours, whatever the kind of axes"""
    return [a[2] for a in fig[0]]


class C10(Base):
    id = 'C10'
    jobs = {'quick': 48, 'thorough': 1200}
    runs_per_job = 20
    rule = ('A case is one simulated session: figures, settings and backend left by other code, then imports, reloads and calls of the plotting module while the mapping library is missing, '
            'fails to load at a chosen point of its own import, heals, or while interrupts, failing dependency calls and failing output hit the helper; distinct by the faults that really happened.')
    real = REAL + ['matplotlib', 'cartopy, shapely, pyproj (where they load)']
    stub = STUB + ['import system (the mapping library can be hidden or made to fail)', 'standard output']
    assumptions = ['the mapping library fails to load by ImportError or OSError while it is imported; other errors, and parts it loads later while it draws, may either fall back or reach the caller',
                   'an undisturbed run with the library defines the printed text, the points and the title']

    def prepare(self):
        import logging
        logging.getLogger('matplotlib').setLevel(logging.ERROR)
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot                              # noqa
        import matplotlib.backends.backend_svg                # noqa
        import matplotlib.backends.backend_pdf                # noqa
        for name in ('shapely', 'shapely.geometry', 'shapely.prepared', 'shapely.strtree', 'pyproj', 'pyproj.crs', 'pyproj.exceptions', 'shapefile', 'PIL.Image', 'urllib.request'):
            try:
                importlib.import_module(name)
            except ImportError:
                pass
        try:
            importlib.util.find_spec('cartopy')
        except Exception:
            pass

    def job(self, r, tier, job):
        for _ in range(self.runs_per_job):
            base = want('without')
            w = want('with')
            deep = max(1, max(x['imports'] for x in w[1].values()) or 60)
            ops_, plan, broken = [], [], False
            kind = r.choice(['missing', 'missing', 'missing', 'works', 'other'])
            if kind != 'works':
                broken = True
                exc = r.choice(MISSING if kind == 'missing' else OTHER)
                ops_.append({'lib': ['part', r.choice(PARTS), exc] if r.random() < 0.6 else ['deep', r.choice([1, 2, 3, r.randint(1, 60)]), exc]})
            n = r.choice([1, 2, 3])
            for j in range(n):
                if j and broken and r.random() < 0.5:
                    ops_.append({'lib': None})
                    broken = False
                    if r.random() < 0.5:
                        ops_.append({'do': 'reload'})
                op = {'do': r.choice(['import', 'plot', 'plot', 'plot'])}
                i = len(ops_)
                k = r.random()
                rec = base[1][2 if op['do'] == 'plot' else 1]
                if k < 0.25 and rec['legal']:
                    plan.append([1, i, r.choice(rec['legal']), ['int', r.choice(['KeyboardInterrupt', 'TimeoutError', 'MemoryError', 'SystemExit'])]])
                elif k < 0.4 and rec['depcalls']:
                    op['dep'] = [r.randint(1, rec['depcalls']), r.choice(['MemoryError', 'KeyboardInterrupt', 'RuntimeError'])]
                elif k < 0.5 and op['do'] == 'plot':
                    op['out'] = r.choice([1, 1, 2])
                ops_.append(op)
            ops_.append({'do': 'plot'})
            figs = [[num, r.choice([0, 1, 2])] for num in r.choice([[], [], [1], [2], [1, 2], [3, 7]])]
            yield {'backend': r.choice(['agg', 'agg', 'svg', 'pdf', 'template']), 'rc': r.choice([{}, {}, {'figure.figsize': [3.0, 2.0]}, {'lines.linewidth': 4.0, 'axes.grid': True}, {'figure.max_open_warning': 1}]),
                   'ion': r.random() < 0.3, 'figures': figs, 'current': r.choice([f[0] for f in figs]) if figs else None, 'ops': ops_, 'plan': plan, 'control': 1}

    def evaluate(self, spec):
        log, control, _, st = forks.in_child(child, spec)
        w = want('with')[0]
        ref_text = w[1][6]
        ref = [v for k, v in w[1][8].items() if k not in w[1][7]]
        problems = []
        if w[0][2] or w[1][2] or len(ref) != 1:
            return ['an undisturbed run failed: %s' % (w[0][2] or w[1][2],)], st
        ref = ref[0]
        failed, fallback, compared = 0, 0, 0
        ops_ = spec['ops']
        for i, do, exc, fired, lfired, outfail, text, before, after, changed in log:
            who = 'step %d (%s)' % (i, do)
            names = [f[0] for f in fired] + [f[0] for f in lfired]
            done = any(e[2] is None for e in log if e[0] < i)
            hard = [f for f in lfired if f[0] not in MISSING or f[2] != 'at import']
            if exc:
                failed += 1
                if not (fired or hard or outfail):
                    problems.append('%s raised %s: %s%s' % (who, exc[0], exc[1], ' (the mapping library could not be loaded: %s)' % lfired if lfired else ''))
                for n in INTERRUPTS:
                    if n in names and exc[0] != n:
                        problems.append('%s: the %s reached the caller as %s' % (who, n, exc[0]))
            else:
                # an ordinary exception raised while the module loads the mapping library may count as a failure to load it
                for n in INTERRUPTS + (('TimeoutError',) if done and do != 'reload' else ()) if fired else ():
                    if n in [f[0] for f in fired]:
                        problems.append('%s: the %s was swallowed' % (who, n))
            if changed:
                problems.append('%s changed plotting settings: %s' % (who, ', '.join(changed)))
            for num in before:
                if after.get(num) != before[num]:
                    problems.append('%s changed figure %d which is not its own: %s -> %s' % (who, num, before[num], after.get(num)))
            new = [k for k in after if k not in before]
            if do in ('import', 'reload'):
                if new:
                    problems.append('%s opened figures %s' % (who, new))
                if text:
                    problems.append('%s printed %r' % (who, text))
                continue
            if exc:
                if len(new) > 1:
                    problems.append('%s opened %d figures' % (who, len(new)))
                continue
            if text != ref_text:
                problems.append('%s printed %r, expected %r' % (who, text, ref_text))
            if len(new) != 1:
                problems.append('%s opened figures %s, expected one' % (who, new))
                continue
            fig = after[new[0]]
            if points(fig) != points(ref):
                problems.append('%s drew %s, expected %s' % (who, points(fig), points(ref)))
            if [a[3] for a in fig[0]] != [a[3] for a in ref[0]]:
                problems.append('%s: title %s' % (who, [a[3] for a in fig[0]]))
            kinds = [a[:2] for a in fig[0]]
            if kinds != [a[:2] for a in ref[0]]:
                fallback += 1
        # when the library loads it is used
        faults_before = any('lib' in o and o['lib'] for o in ops_)
        last = log[-1]
        if not last[2] and last[1] == 'plot':
            new = [k for k in last[8] if k not in last[7]]
            healthy = not faults_before and not any(f[2].startswith('dependency') or f[0] in ('TimeoutError', 'MemoryError') for ent in log for f in ent[3])
            calm = faults_before and not any(ent[2] and ent[2][2] and not ent[4] or ent[3] for ent in log) and all(f[2] == 'at import' for ent in log for f in ent[4])
            if calm:
                # did the module's own handling of the failure keep the library from loading again?
                can, fired_there = forks.in_child(control_child, spec)
                if can and fired_there == [f[:2] for ent in log for f in ent[4]]:
                    compared = 1
                    if not control:
                        problems.append('the mapping library cannot be loaded any more in this process, which it can when it fails without the plotting module')
                    control = True
            if faults_before and control:
                # a reload after the library has healed, with nothing else going wrong
                heal = max([k for k, o in enumerate(ops_) if 'lib' in o and o['lib'] is None], default=None)
                if heal is not None:
                    healthy = any(do == 'reload' and i > heal and not exc and not fired for i, do, exc, fired, *_ in log)
            if healthy and control and len(new) == 1 and [a[:2] for a in last[8][new[0]][0]] != [a[:2] for a in ref[0]]:
                problems.append('the mapping library loads but was not used: axes %s' % [a[:2] for a in last[8][new[0]][0]])
        st['probes'] = {'calls that failed': failed, 'drawn without the library': fallback, 'library loadable at the end': int(control), 'sessions compared with the library alone': compared}
        return problems, st

    def candidates(self, spec):
        for i in range(len(spec['ops'])):
            if len(spec['ops']) > 1:
                s = dict(spec)
                s['ops'] = spec['ops'][:i] + spec['ops'][i + 1:]
                if not any('do' in o for o in s['ops']):
                    continue
                s['plan'] = [[e[0], e[1] - (e[1] > i)] + e[2:] for e in spec['plan'] if e[1] != i]
                yield s
        yield from core.list_candidates(spec, 'plan')
        if spec['figures']:
            yield dict(spec, figures=[], current=None)
        if spec['rc']:
            yield dict(spec, rc={})
        if spec['ion']:
            yield dict(spec, ion=False)
        if spec['backend'] != 'agg':
            yield dict(spec, backend='agg')

    def text(self, spec):
        out = ['backend %s, settings %s, interactive %s, figures %s (current %s)' % (spec['backend'], spec['rc'], spec['ion'], spec['figures'], spec.get('current'))]
        for i, o in enumerate(spec['ops']):
            if 'lib' in o:
                out.append('  [%d] mapping library: %s' % (i, 'works' if not o['lib'] else '%s %s raises %s' % tuple(o['lib'])))
            else:
                out.append('  [%d] %s%s%s' % (i, {'import': 'import nvector.plot', 'reload': 'reload nvector.plot', 'plot': 'plot_mean_position()'}[o['do']],
                                              ', dependency call %d raises %s' % tuple(o['dep']) if o.get('dep') else '', ', output write %d fails' % o['out'] if o.get('out') else ''))
        for e in spec['plan']:
            out.append('  at [%d] step %d: %s' % (e[1], e[2], e[3]))
        return '\n'.join(out)


PROP = C10()
