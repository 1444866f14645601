"""Faults aimed at one call of one simulated thread (what a run specification lists under 'faults').

  [tid, i, 'int', exception, step]   raised where CPython would deliver a signal, at or after that step
  [tid, i, 'dep', exception, k]      the k-th Python-level call into numpy/scipy/geographiclib raises
  [tid, i, 'alloc', k]               the k-th numpy data allocation of the call fails
  [tid, i, 'fp']                     floating-point errors raise during the call (this thread only)
  [tid, i, 'warn']                   warnings are errors during the call (single-threaded runs)
  [tid, i, 'rec', k]                 only k stack frames are left for the call (single-threaded runs)
"""
import sys
import warnings

import numpy as np

from . import native_build, ops

INTERRUPTS = ('KeyboardInterrupt', 'TimeoutError', 'SystemExit')


def plan_of(spec):
    """fault entries that are part of the schedule"""
    return [[f[0], f[1], f[4], ['int', f[3]]] for f in spec.get('faults', ()) if f[2] == 'int']


def install(run, spec):
    sim = run.sim
    table = {}
    for f in spec.get('faults', ()):
        table.setdefault((f[0], f[1]), []).append(f)
    run.fault_log = {}
    hold = {}

    def enter(t, i, op):
        for f in table.get((t.tid, i), ()):
            kind = f[2]
            if kind == 'dep':
                t.depfail = [f[4], f[3]]
            elif kind == 'alloc':
                mod = native_build.load()
                if mod is not None:
                    hold[t.tid, 'alloc'] = mod.arm(f[3])
            elif kind == 'fp':
                hold[t.tid, 'fp'] = np.seterr(all='raise')
            elif kind == 'warn':
                hold[t.tid, 'warn'] = warnings.filters[:]
                warnings.simplefilter('error')
            elif kind == 'rec':
                depth = 0
                fr = sys._getframe()
                while fr is not None:
                    depth += 1
                    fr = fr.f_back
                hold[t.tid, 'rec'] = sys.getrecursionlimit()
                sys.setrecursionlimit(depth + f[3])

    def leave(t, i, op):
        for f in reversed(table.get((t.tid, i), ())):
            kind = f[2]
            old = hold.pop((t.tid, kind), None)
            if old is None:
                continue
            if kind == 'alloc':
                c = native_build.load().disarm(old)
                if c[1]:
                    sim.hit('allocation failure')
                    sim.ilog.update(b'alloc%d %d;' % (t.tid, f[3]))
            elif kind == 'fp':
                np.seterr(**old)
            elif kind == 'warn':
                warnings.filters[:] = old
                warnings._filters_mutated()
            elif kind == 'rec':
                sys.setrecursionlimit(old)

    def after_op(t, i, op, o):
        fs = table.get((t.tid, i))
        if fs:
            run.fault_log[t.tid, i] = list(t.fired)
            for f in fs:
                if f[2] in ('fp', 'warn', 'rec'):
                    name = {'fp': 'floating-point errors raise', 'warn': 'warnings raise', 'rec': 'stack exhausted'}[f[2]]
                    if o.kind == 'exc' and o.exc in ('FloatingPointError', 'RecursionError', 'RuntimeWarning', 'UserWarning', 'DeprecationWarning',
                                                     'FutureWarning', 'ComplexWarning'):
                        sim.hit(name)
                        sim.ilog.update(('%s %d.%d;' % (f[2], t.tid, i)).encode())
    run.hooks.update(enter=enter, leave=leave, after_op=after_op)


def describe(f):
    where = 'thread %d call %d' % (f[0], f[1])
    return {'int': lambda: '%s: %s delivered at or after step %d' % (where, f[3], f[4]),
            'dep': lambda: '%s: dependency call number %d raises %s' % (where, f[4], f[3]),
            'alloc': lambda: '%s: numpy allocation number %d fails' % (where, f[3]),
            'fp': lambda: '%s: floating-point errors raise' % where,
            'warn': lambda: '%s: warnings raise' % where,
            'rec': lambda: '%s: only %d stack frames left' % (where, f[3])}[f[2]]()


def shift(faults, tid, i):
    """fault list after call i of thread tid was dropped"""
    out = []
    for f in faults:
        if f[0] == tid:
            if f[1] == i:
                continue
            if f[1] > i:
                f = [f[0], f[1] - 1] + list(f[2:])
        out.append(f)
    return out


def candidates(spec):
    """thread, call, plan and fault removal for runs with faults"""
    from . import core
    for j, th in enumerate(spec['threads']):
        if len(spec['threads']) > 1:
            s = core.drop_thread(spec, j)
            s['faults'] = [f for f in spec.get('faults', ()) if f[0] != th['tid']]
            yield s
    for j, th in enumerate(spec['threads']):
        if len(th['ops']) > 1:
            for i in range(len(th['ops'])):
                s = core.drop_op(spec, j, i)
                s['faults'] = shift(spec.get('faults', ()), th['tid'], i)
                yield s
    yield from core.list_candidates(spec, 'faults')
    yield from core.list_candidates(spec, 'plan')


def text(spec):
    return '\n'.join('  ' + describe(f) for f in spec.get('faults', ()))
