"""C02: Nvector.unit() is atomic for readers, survives interrupts, leaves aliases alone."""
import numpy as np

from .. import core, forks, gen, native_build, ops, values
from .base import Base

HOLDERS = ('X', 'T', 'B')       # X itself and the objects that hold X
W = {'m': 'unit', 'on': {'r': 'X'}, 'p': []}


def _neworld(world):
    """the world after a completed unit(): X (and nothing else) carries the unit normal"""
    return world + [['_done', {'m': 'unit', 'on': {'r': 'X'}}]]


def _ref_new(world, op):
    env = values.build(world)
    env['X'].unit()
    return ops.perform(op, env).pack()


_cache = {}


def ref_new(world, op):
    sub = values.closure(world, [op, {'r': 'X'}])
    k = core.key('new', sub, op)
    if k not in _cache:
        if len(_cache) > 5000:
            _cache.clear()
        _cache[k] = ops.Outcome.unpack(forks.in_child(_ref_new, sub, op))
    return _cache[k]


RT = 1e-9


def _same(o, ref):
    return ops.differs(o, ref, warns=False, rtol=RT) is None


def _child(spec, old, new):
    run = core.Run(spec)
    env = run.env
    before = values.fingerprint_env({k: v for k, v in env.items() if k not in HOLDERS})
    base = {k: v.copy() for k, v in env.items() if isinstance(v, np.ndarray)}
    old_normal = np.array(env['X'].normal)
    fault = spec.get('alloc')
    if fault:
        mod = native_build.load()
        hold = {}

        def pre(t, i, op):
            if mod and t.tid == fault[0] and i == fault[1]:
                hold['h'] = mod.arm(fault[2])

        def post(t, i, op):
            if 'h' in hold:
                c = mod.disarm(hold.pop('h'))
                run.alloc_fired = c[1]
                if c[1]:
                    run.sim.hit('allocation failure')
                    run.sim.ilog.update(b'alloc;')
        run.hooks = {'enter': pre, 'leave': post}
    run.execute()
    problems = []
    hist = []
    for th in spec['threads']:
        for i, op in enumerate(th['ops']):
            o = run.out.get((th['tid'], i))
            if o is None:
                problems.append('thread %d call %d never ended' % (th['tid'], i))
                continue
            if op == W:
                if o.kind == 'exc' and not (o.injected or o.exc in ('MemoryError', '_ArrayMemoryError')):
                    problems.append('unit() raised %s' % o.short())
                elif o.kind == 'exc':
                    hist.append((o.inv, o.ret, 'w?', op, o))
                else:
                    hist.append((o.inv, o.ret, 'w', op, o))
                continue
            so, sn = _same(o, old[th['tid'], i]), _same(o, new[th['tid'], i])
            if not so and not sn:
                problems.append('thread %d: %s used a half-updated normal: got %s; with the old normal %s, with the new one %s' % (
                    th['tid'], ops.describe(op), o.short(), old[th['tid'], i].short(), new[th['tid'], i].short()))
            elif so != sn:
                hist.append((o.inv, o.ret, 'old' if so else 'new', op, o))
    # real-time order: once the new normal has been established or seen, the old one never comes back
    writes = [h for h in hist if h[2] in ('w', 'w?')]
    for h in hist:
        if h[2] == 'old':
            for g in hist:
                if g[1] < h[0] and (g[2] == 'new' or g[2] == 'w'):
                    problems.append('%s saw the old normal after %s had %s' % (ops.describe(h[3]), ops.describe(g[3]),
                                                                                'finished' if g[2] == 'w' else 'seen the new one'))
        if h[2] == 'new' and not any(w[0] < h[1] for w in writes):
            problems.append('%s saw the new normal before any unit() had started' % ops.describe(h[3]))
    # final state
    final = np.array(env['X'].normal)
    nn = new['final'].value
    done = any(h[2] == 'w' for h in hist)
    is_new = values.diff(values.canon(final), nn, RT) is None
    is_old = final.shape == old_normal.shape and np.array_equal(final, old_normal)
    if done and not is_new:
        problems.append('after unit() the normal is %s, expected %s' % (values._short(final), values.show(nn)))
    if done or (is_new and not is_old):
        size = np.sqrt((old_normal ** 2).sum(axis=0))
        want = np.where(size == 0, [[1.0], [0.0], [0.0]], old_normal / np.where(size == 0, 1, size))
        if final.shape != want.shape or not np.allclose(final, want, rtol=0, atol=1e-9, equal_nan=True):
            problems.append('after unit() the normal %s is not the unit normal of %s' % (values._short(final), values._short(old_normal)))
    if not is_new and not is_old:
        problems.append('the normal is neither the old nor the unit one: %s' % values._short(final))
    after = values.fingerprint_env({k: v for k, v in env.items() if k not in HOLDERS})
    d = values.env_diff(before, after)
    if d:
        problems.append('unit() changed something else: %s' % d)
    st = run.stats()
    st['probes'] = {'reader saw old': sum(h[2] == 'old' for h in hist), 'reader saw new': sum(h[2] == 'new' for h in hist),
                    'unit() cut short, old kept': int(bool([h for h in hist if h[2] == 'w?']) and is_old and not is_new),
                    'unit() cut short, new kept': int(bool([h for h in hist if h[2] == 'w?']) and is_new and not is_old)}
    return problems, st


class C02(Base):
    id = 'C02'
    jobs = {'quick': 96, 'thorough': 2000}
    runs_per_job = 80
    rule = ('A case is one simulated execution: 1-2 threads normalise one shared Nvector in place while 0-3 threads query it, with explicit preemptions, '
            'interrupts or allocation failures inside the calls; non-trivial if a switch or fault happened; distinct by the sequence of switches and faults with their code locations.')
    assumptions = Base.assumptions + ['readers are calls that use the normal of the object once']

    def prepare(self):
        native_build.load()

    def readers(self, r, n):
        X = {'r': 'X'}
        P = {'r': 'P'}
        out = [{'m': 'to_ecef_vector', 'on': X, 'p': []}, {'m': 'to_geo_point', 'on': X, 'p': []}, {'g': 'normal', 'on': X},
               {'b': '+', 'p': [X, {'r': 'Y'}]}, {'b': '-', 'p': [{'r': 'Y'}, X]}, {'neg': X}, {'b': '*', 'p': [X, 2.0]},
               {'b': '/', 'p': [X, 4.0]}, {'m': 'mean', 'on': X, 'p': []}, {'f': 'delta_E', 'p': [P, X]}, {'f': 'delta_E', 'p': [X, P]},
               {'b': '==', 'p': [X, {'r': 'Y'}]}, {'b': '==', 'p': [X, {'r': 'U'}]},
               {'m': 'nvector_normals', 'on': {'r': 'T'}, 'p': []}, {'m': 'interpolate', 'on': {'r': 'T'}, 'p': [0.5]},
               {'f': 'unit', 'p': [{'g': 'normal', 'on': X}]}, {'g': 'scalar', 'on': X}]
        if n == 1:
            out += [{'g': 'R_EN', 'on': {'r': 'B'}}, {'m': 'change_frame', 'on': {'m': 'to_ecef_vector', 'on': P, 'p': []}, 'p': [{'r': 'N'}]}]
        return out

    def job(self, r, tier, job):
        n = r.choice([1, 1, 1, 2, 2, 3, 4, 4]) if r.random() < 0.85 else r.choice([17, 33, 70, 140, 300])
        g = gen.Gen(r, n=n)
        fr = g.put('fr', g.frame())
        norm = gen.nvec(g.lats(), g.lons())
        scale = np.array([r.choice([2.0, 0.5, 1.05, 100.0, 3.0, 0.93]) for _ in range(n)])
        if r.random() < 0.15:
            norm[:, 0] = 0.0
        lay = r.choice(['C', 'C', 'F', 'S', 'R', 'N'])
        w = g.world
        w.append(['arr', gen.arr(norm * scale, lay=lay)])
        z = r.choice([0, -10.0, gen.arr([float(g.z()) for _ in range(n)])])
        w.append(['X', {'o': 'Nvector', 'p': [{'r': 'arr'}, z], 'k': {'frame': fr}}])
        w.append(['Y', {'o': 'Nvector', 'p': [{'r': 'arr'}, z], 'k': {'frame': fr}}])          # built from the same array
        w.append(['U', {'o': 'Nvector', 'p': [gen.arr(norm), z], 'k': {'frame': fr}}])
        w.append(['P', {'o': 'GeoPoint', 'p': [g.lat(), g.lon(), 0], 'k': {'frame': fr, 'degrees': True}}])
        w.append(['T', {'o': 'GeoPath', 'p': [{'r': 'P'}, {'r': 'X'}]}])
        if n == 1:
            w.append(['B', {'o': 'FrameB', 'p': [{'r': 'X'}, 10.0, 5.0, 3.0]}])
            w.append(['N', {'o': 'FrameN', 'p': [{'r': 'X'}]}])                              # made before: keeps its own normal
        readers = self.readers(r, n)
        mod = native_build.load()
        for _ in range(self.runs_per_job):
            nw = r.choice([1, 1, 1, 2])
            nr = r.choice([0, 1, 1, 2, 3])
            threads = []
            for k in range(nw):
                pre = [r.choice(readers)] if r.random() < 0.3 else []
                post = [r.choice(readers)] if r.random() < 0.5 else []
                threads.append({'tid': k + 1, 'ops': pre + [W] + post})
            for k in range(nr):
                threads.append({'tid': nw + k + 1, 'ops': [r.choice(readers) for _ in range(r.choice([1, 2, 3]))]})
            order = [t['tid'] for t in threads]
            r.shuffle(order)
            spec = {'world': w, 'threads': threads, 'order': order}
            if r.random() < 0.15:
                spec['names'] = 'worker'
            spec['plan'] = core.gen_schedule(r, w, threads)
            p = core.pilot(w, W)
            if r.random() < 0.3 or len(threads) == 1:
                widx = threads[0]['ops'].index(W)
                if mod and r.random() < 0.4:
                    spec['alloc'] = [1, widx, r.randint(1, 6 if n < 10 else 20)]
                else:
                    spec['plan'].append([1, widx, r.choice(p.legal) if p.legal and r.random() < 0.7 else r.randint(1, max(1, p.steps)),
                                         ['int', r.choice(['KeyboardInterrupt', 'TimeoutError', 'MemoryError'])]])
            yield spec

    def evaluate(self, spec):
        old, new = {}, {}
        for th in spec['threads']:
            for i, op in enumerate(th['ops']):
                if op != W:
                    old[th['tid'], i] = core.reference(spec['world'], op)
                    new[th['tid'], i] = ref_new(spec['world'], op)
        new['final'] = ref_new(spec['world'], {'g': 'normal', 'on': {'r': 'X'}})
        try:
            return forks.in_child(_child, spec, old, new)
        except forks.ChildCrash:       # numpy itself does not survive every failing allocation
            if 'alloc' not in spec:
                raise
        return forks.in_child(_child, {k: v for k, v in spec.items() if k != 'alloc'}, old, new)

    def candidates(self, spec):
        if 'alloc' in spec:
            s = dict(spec)
            del s['alloc']
            yield s
        for j in range(len(spec['threads'])):
            if len(spec['threads']) > 1 and not ('alloc' in spec and spec['threads'][j]['tid'] == spec['alloc'][0]):
                yield core.drop_thread(spec, j)
        if 'alloc' not in spec:
            for j, th in enumerate(spec['threads']):
                if len(th['ops']) > 1:
                    for i in range(len(th['ops'])):
                        yield core.drop_op(spec, j, i)
        yield from core.list_candidates(spec, 'plan')

    def text(self, spec):
        return Base.text(self, spec) + ('\nallocation %d of thread %d call %d fails' % (spec['alloc'][2], spec['alloc'][0], spec['alloc'][1]) if 'alloc' in spec else '')


PROP = C02()
