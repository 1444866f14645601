from .. import core, forks, ops, values

REAL = ['nvector (all modules, from the working tree)', 'numpy', 'scipy', 'geographiclib', 'CPython interpreter, threads and fork']
STUB = ['thread scheduler (baton passing at bytecode boundaries)', 'locks, RLocks and thread start', 'clocks, sleep and dates',
        'warnings sink']


class Base:
    id = None
    level = 'exploration'
    package = True          # is the package under test loaded before the runs are forked?
    jobs = {'quick': 64, 'thorough': 1024}
    real = REAL
    stub = STUB
    rule = ''
    assumptions = ['CPython 3.12 with the GIL: switches happen between bytecodes of library code; numpy, scipy and geographiclib calls are atomic',
                   'a fresh process running the same call alone defines the right answer']

    def prepare(self):
        """anything needed before the first fork"""

    def same_class(self, old, new):
        return True

    def text(self, spec):
        out = ['world:'] + ['  %s = %s' % (n, ops.describe_value(s)) for n, s in spec.get('world', ())]
        for th in spec.get('threads', ()):
            out.append('thread %s:' % th['tid'])
            for i, op in enumerate(th['ops']):
                out.append('  [%d] %s' % (i, ops.describe(op)))
        for e in spec.get('plan', ()):
            out.append('  at thread %s call %s step %s: %s' % (e[0], e[1], e[2], e[3] if e[3][0] not in ('nest', 'fork') else
                                                              [e[3][0]] + [ops.describe(o) for o in e[3][1]]))
        s = '\n'.join(out)
        return s if len(s) < 4000 else s[:4000] + '...'
