"""C05: an answer depends only on current values, never on the history of the process."""
import copy
import gc
import math
import pickle
import random

import numpy as np

from .. import core, forks, gen, ops, values
from .base import Base


SLY = ('exchange', 'columns', 'backwards', 'trade', 'negate', 'rows')


def slyly(arr, i, how):
    if arr.size < 2 or not arr.ndim:
        return
    n = arr.shape[-1]
    if how == 'columns' and n > 1:
        j, k = i % n, (i + 1 + i // n) % n
        a, b = arr[..., j].copy(), arr[..., k].copy()
        arr[..., j], arr[..., k] = b, a
    elif how == 'rows' and arr.ndim > 1:
        j, k = i % len(arr), (i + 1) % len(arr)
        a, b = arr[j].copy(), arr[k].copy()
        arr[j], arr[k] = b, a
    elif how == 'backwards':
        arr[...] = arr[..., ::-1].copy()
    elif how == 'negate':
        arr[...] = -arr
    else:
        j, k = np.unravel_index(i % arr.size, arr.shape), np.unravel_index((i + 1) % arr.size, arr.shape)
        a, b = arr[j].copy(), arr[k].copy()
        if how == 'exchange' or arr.dtype.kind != 'f':
            arr[j], arr[k] = b, a
        else:
            arr[j], arr[k] = a + 0.25, b - 0.25


def _edit(env, st):
    """assign an attribute, edit an array in place; returns a problem or None"""
    kind = st['do']
    if kind == 'set':
        obj = env[st['on']]
        for a in st.get('path', ()):
            obj = getattr(obj, a)
        val = values.mat(st['val'], env)
        if st['attr'] == 'nvector' and not isinstance(val, values.nv.Nvector):
            val = val.to_nvector()
        setattr(obj, st['attr'], val)
        got = getattr(obj, st['attr'])
        if got is not val and values.diff(values.canon(got), values.canon(val), 0):
            return 'assigned %s.%s = %s but it reads back as %s' % (st['on'], st['attr'], values.show(values.canon(val)), values.show(values.canon(got)))
        return None
    if kind == 'edit':
        arr = env[st['on']]
        for a in st['path']:
            arr = getattr(arr, a)
        arr = arr if isinstance(arr, np.ndarray) else None
        if arr is None or not arr.flags.writeable:
            return None
        if st['val'] == 'flip':          # zeros of the other sign
            if arr.dtype.kind == 'f':
                arr[arr == 0] *= -1.0
            return None
        if st['val'] == 'tiny':          # a change that a short printout does not show
            if arr.dtype.kind == 'f' and arr.size:
                k = np.unravel_index(st['i'] % arr.size, arr.shape)
                arr[k] += 3e-9 * max(1.0, abs(arr[k]))
            return None
        if st['val'] in SLY:             # the same numbers, sum, length or extremes, but another value
            slyly(arr, st['i'], st['val'])
            return None
        v = np.asarray(st['val'], dtype=float)
        if arr.ndim == 0:
            arr[()] = v.ravel()[0]
        elif arr.shape[:1] == (3,) and v.size == 3:
            arr[:, st['i'] % arr.shape[1]] = v
        elif v.shape == (3, 3):
            arr[...] = v
        else:
            arr.reshape(-1)[st['i'] % arr.size] = v.ravel()[0] if arr.flags.c_contiguous else arr.reshape(-1)[0]
            if not arr.flags.c_contiguous:
                arr[tuple(k - 1 for k in arr.shape)] = v.ravel()[0]
        return None
    if kind == 'new':
        env.pop(st['name'], None)
        env[st['name']] = values.mat(st['val'], env)
        return None
    if kind == 'copy':
        src = env[st['on']]
        env.pop(st['name'], None)
        how = st['how']
        env[st['name']] = copy.copy(src) if how == 'copy' else copy.deepcopy(src) if how == 'deepcopy' else pickle.loads(pickle.dumps(src, how))
        return None
    if kind == 'gc':
        gc.collect()
        return None
    if kind == 'unit':
        env[st['on']].unit()
        return None
    raise ValueError(st)


def _child(spec):
    env = values.build(spec['world'])
    problems, queries, seen = [], [], 0
    for i, st in enumerate(spec['history']):
        if 'many' in st:       # a long time of other, similar calls
            rr = random.Random(st['seed'])
            for _ in range(st['n']):
                ops.perform(gen.wander(rr, st['many']), env)
            continue
        if 'q' not in st:
            ops._warn_sink[ops._thread.get_ident()] = []
            try:
                p = _edit(env, st)
            except Exception as exc:        # an edit the objects refuse: not a query
                p = None
                if getattr(exc, 'nvsim', False):
                    raise
            finally:
                ops._warn_sink.pop(ops._thread.get_ident(), None)
            if p:
                problems.append('step %d: %s' % (i, p))
            continue
        op = st['q']
        need = sorted(values.refs(op, set()))
        world, binding = values.snapshot(env, need)
        world = world + [[n, binding[n]] for n in need]
        o = ops.perform(op, env)
        seen += 1
        queries.append((i, world, o.pack()))
    return problems, queries


class C05(Base):
    id = 'C05'
    jobs = {'quick': 128, 'thorough': 3000}
    runs_per_job = 32
    rule = ('A case is one simulated history: 10-40 steps of building, assigning, editing in place, copying, garbage-collecting, failing and querying over one '
            'population of look-alike objects; every query is compared with a fresh process; distinct by the history.')
    assumptions = ['the public value of an object is its documented attributes (nvsim/values.py STATE)', 'a fresh process running the same call alone on the same values defines the right answer']

    SCALARS = ['FrameE', 'GeoPoint', 'lat_lon2n_E', 'inverse', 'direct', 'displace', 'n2p', 'p2n', 'direct_n', 'gc_distance', 'prog', 'prog', 'angles2R', 'local_frame', 'get_ellipsoid']

    ON_ARRAYS = ['R2angles', 'R2angles', 'R2n', 'n_E2lat_lon', 'n_E2lat_lon', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'n2p', 'p2n', 'mdot', 'unit', 'angles2R', 'lat_lon2n_E', 'gc_distance',
                 'azimuth', 'nn2p', 'interp_nvectors', 'interpolate', 'mean_f', 'great_circle_normal', 'closest_f', 'cross_track_f', 'deg', 'rad']

    def job(self, r, tier, job):
        for _ in range(self.runs_per_job):
            yield self.history(r, True)

    def value(self, r, g, kind):
        if kind == 'angle':
            return r.choice([math.radians(g.lat()), 0.25, 0.0, 1, {'np': 0.5, 't': 'f8'}])
        if kind == 'z':
            return g.z()
        if kind == 'a':
            return r.choice([6378137.0, 6378137, 6371009.0, 6400000.0])
        if kind == 'f':
            return r.choice([0, 0.0, 1 / 298.257223563, 0.01])
        if kind == 'R':
            return r.choice([[0., 0, 1, 0, 1, 0, -1, 0, 0], [1., 0, 0, 0, 1, 0, 0, 0, 1], gen._rot(r).ravel().tolist(), gen.half_turn(r)])
        if kind == 'n':
            return gen.nvec(g.lat(), g.lon()).ravel().tolist()
        raise KeyError(kind)

    def batch(self, r, g, kind):
        specs = dict((n, s) for n, s in g.world)
        names = [n for n in g.kinds[kind] if 'a' in specs[n]]      # arrays: a list is no attribute of a point
        return {'r': r.choice(names)} if names else self.value(r, g, 'z')

    def edit(self, r, g):
        k = r.random()
        A = lambda kind, n: gen.arr(np.array(self.value(r, g, kind)).reshape(n))
        if k < 0.06:       # the frame of a position, which may be one the library made
            p = r.choice(g.kinds['gs'] + g.kinds['gv'] + g.kinds['ns'] + g.kinds['nv'] + g.kinds['es'])
            x = r.choice(['a', 'a', 'f', 'R_Ee', 'edit', 'name'])
            if x == 'edit':
                return {'do': 'edit', 'on': p, 'path': ['frame', 'R_Ee'], 'i': 0, 'val': np.array(self.value(r, g, 'R')).reshape(3, 3).tolist()}, p
            val = A('R', (3, 3)) if x == 'R_Ee' else r.choice(gen.NAMES[:4]) if x == 'name' else self.value(r, g, x)
            return {'do': 'set', 'on': p, 'path': ['frame'], 'attr': x, 'val': val}, p
        if k < 0.22:
            fr = r.choice(g.kinds['fr'])
            x = r.choice(['a', 'f', 'R_Ee', 'R_Ee', 'edit', 'name'])
            if x == 'edit':
                return {'do': 'edit', 'on': fr, 'path': ['R_Ee'], 'i': 0, 'val': np.array(self.value(r, g, 'R')).reshape(3, 3).tolist()}, fr
            val = A('R', (3, 3)) if x == 'R_Ee' else r.choice(gen.NAMES[:4]) if x == 'name' else self.value(r, g, x)
            return {'do': 'set', 'on': fr, 'attr': x, 'val': val}, fr
        if k < 0.40:
            p = r.choice(g.kinds['gs'] + g.kinds['gs'] + g.kinds['gv'])
            x = r.choice(['latitude', 'longitude', 'z', 'frame', 'edit'])
            if x == 'frame':
                return {'do': 'set', 'on': p, 'attr': 'frame', 'val': g.any('fr')}, p
            if p in g.kinds['gv'] and r.random() < 0.4:       # one value for the whole batch, or another batch
                x = r.choice(['latitude', 'longitude', 'z', 'z'])
                return {'do': 'set', 'on': p, 'attr': x, 'val': r.choice([self.value(r, g, 'z' if x == 'z' else 'angle'), self.batch(r, g, {'latitude': 'la', 'longitude': 'lo', 'z': 'za'}[x])])}, p
            if x == 'edit' or p in g.kinds['gv']:
                return {'do': 'edit', 'on': p, 'path': [r.choice(['latitude', 'longitude', 'z'])], 'i': r.randint(0, 6), 'val': [math.radians(g.lat())]}, p
            v = self.value(r, g, 'z' if x == 'z' else 'angle')
            return {'do': 'set', 'on': p, 'attr': x, 'val': gen.arr(v['np'] if isinstance(v, dict) else v) if r.random() < 0.6 else v}, p
        if k < 0.56:
            p = r.choice(g.kinds['ns'] + g.kinds['nv'])
            x = r.choice(['normal', 'edit', 'edit', 'z', 'frame', 'unit'])
            if x == 'unit':
                return {'do': 'unit', 'on': p}, p
            if x == 'frame':
                return {'do': 'set', 'on': p, 'attr': 'frame', 'val': g.any('fr')}, p
            if x == 'z':
                return {'do': 'set', 'on': p, 'attr': 'z', 'val': self.value(r, g, 'z')}, p
            if x == 'normal':
                return {'do': 'set', 'on': p, 'attr': 'normal', 'val': g.any('na' if p in g.kinds['nv'] else 'n1')}, p
            return {'do': 'edit', 'on': p, 'path': ['normal'], 'i': r.randint(0, 6), 'val': self.value(r, g, 'n')}, p
        if k < 0.66:
            p = r.choice(g.kinds['es'] + g.kinds['ev'] + g.kinds['pv'])
            if r.random() < 0.3:
                return {'do': 'set', 'on': p, 'attr': 'frame', 'val': g.any('lf') if p in g.kinds['pv'] else g.any('fr')}, p
            return {'do': 'edit', 'on': p, 'path': ['pvector'], 'i': r.randint(0, 6), 'val': [6371e3 * x for x in self.value(r, g, 'n')]}, p
        if k < 0.80:
            p = r.choice(g.kinds['lf'])
            spec = dict((n, s) for n, s in g.world)[p]
            if 'lv' in g.kinds and r.random() < 0.3:
                p = r.choice(g.kinds['lv'])
                return {'do': 'edit', 'on': p, 'path': ['nvector', 'normal'], 'i': r.randint(0, 6), 'val': self.value(r, g, 'n')}, p
            x = r.choice({'FrameN': ['nvector', 'inner'], 'FrameL': ['nvector', 'inner', 'wander_azimuth', 'wander_azimuth'],
                          'FrameB': ['nvector', 'inner', 'yaw', 'pitch', 'roll']}[spec['o']])
            if x == 'nvector':
                return {'do': 'set', 'on': p, 'attr': 'nvector', 'val': g.any('ns')}, p
            if x == 'inner':
                return {'do': 'edit', 'on': p, 'path': ['nvector', 'normal'], 'i': 0, 'val': self.value(r, g, 'n')}, p
            return {'do': 'set', 'on': p, 'attr': x, 'val': r.choice([0.3, -1.2, 0, 2.0])}, p
        if k < 0.90:
            p = r.choice(g.kinds['pt'])
            return {'do': 'set', 'on': p, 'attr': r.choice(['point_a', 'point_b']), 'val': g.any('gs')}, p
        if 'nb' in g.kinds and r.random() < 0.5:       # one entry of a long batch
            p, path = r.choice([(n, []) for q in ('nb', 'nb', 'zb') for n in g.kinds[q]] + [(n, ['normal']) for n in g.kinds['nB']])
            return {'do': 'edit', 'on': p, 'path': path, 'i': r.randint(0, 1029), 'val': self.value(r, g, 'n') if p not in g.kinds['zb'] else [r.uniform(-1, 1)]}, p
        if 'lm' in g.kinds and r.random() < 0.5:
            p, path = r.choice([(n, []) for q in ('lm', 'zm') for n in g.kinds[q]] + [(n, [a]) for n in g.kinds['gm'] for a in ('latitude', 'z')])
            return {'do': 'edit', 'on': p, 'path': path, 'i': r.randint(0, 39), 'val': [r.uniform(-1, 1)]}, p
        name = r.choice([n for q in ('na', 'n1', 'la', 'lo', 'za', 'tn', 'tz', 'tt', 'R1', 'an') for n in g.kinds[q]])
        kind = name.rstrip('0123456789')
        if kind in ('na', 'n', 'tn') or name in g.kinds['n1']:
            return {'do': 'edit', 'on': name, 'path': [], 'i': r.randint(0, 6), 'val': self.value(r, g, 'n')}, name
        if name in g.kinds['R1']:
            return {'do': 'edit', 'on': name, 'path': [], 'i': 0, 'val': gen._rot(r).tolist()}, name
        return {'do': 'edit', 'on': name, 'path': [], 'i': r.randint(0, 6), 'val': [r.uniform(-1, 1)]}, name

    def history(self, r, marathon=False):
        g = gen.Gen(r)
        g.base_world()
        bank = [g.op() for _ in range(r.choice([4, 8, 16]))]
        if 'nb' in g.kinds:
            bank.extend(g.op(['long']) for _ in range(4))
        if 'lm' in g.kinds:
            bank.extend(g.op(['middling']) for _ in range(3))
        for k in range(2):
            name = r.choice(g.names())
            bank.extend(g.op([name]) for _ in range(2))
        uses = [{n for n, _ in values.closure(g.world, op)} for op in bank]
        allnames = [n for n, _ in g.world]
        specs = dict((n, s) for n, s in g.world)
        hist, last = [], None
        for _ in range(r.choice([8, 14, 24])):
            if r.random() < 0.22 and r.random() < 0.8:
                k = r.random()
                if k < 0.3:
                    hist.append({'do': 'gc'})
                elif k < 0.7:
                    # rebuild an object under its name: the old one may be freed, the new one look the same
                    n = r.choice([x for q in ('fr', 'gs', 'gv', 'ns', 'nv', 'lf', 'pt') for x in g.kinds[q]])
                    sp = specs[n]
                    if n in g.kinds['fr'] and r.random() < 0.5:
                        sp = g.frame()
                    if n in g.kinds['gs'] and r.random() < 0.5:
                        sp = {'o': 'GeoPoint', 'p': [g.lat(), g.lon(), g.z()], 'k': {'frame': g.any('fr'), 'degrees': True}}
                    hist.append({'do': 'new', 'name': n, 'val': sp})
                    last = n
                else:
                    q = r.choice(['fr', 'gs', 'gv', 'ns', 'nv', 'es', 'lf', 'pt', 'pv'])
                    n = r.choice(g.kinds[q])
                    hist.append({'do': 'copy', 'on': n, 'name': r.choice(g.kinds[q]) if q not in ('lf',) else n, 'how': r.choice(['copy', 'deepcopy', 0, 2, 4])})
                    last = n
            elif r.random() < 0.45:
                e, last = self.edit(r, g)
                if e['do'] == 'edit' and r.random() < 0.3:
                    e = dict(e, val=r.choice(('tiny', 'flip') + SLY))
                sly = isinstance(e.get('val'), str) and e['do'] == 'edit'
                before = [h for h in hist if 'q' in h and last in {n for n, _ in values.closure(g.world, h['q'])}] if sly or r.random() < 0.3 else []
                if sly and not before and any(last in u for u in uses):
                    before = [{'q': bank[r.choice([i for i, u in enumerate(uses) if last in u])]}]
                    hist.append(before[0])
                hist.append(e)
                if before:               # the very call made before the edit
                    hist.append({'q': r.choice(before)['q']})
            rel = [i for i, u in enumerate(uses) if last in u] if last and r.random() < 0.75 else list(range(len(bank)))
            if rel:
                for _ in range(r.choice([1, 1, 2])):
                    hist.append({'q': bank[r.choice(rel)]})
        if r.random() < 0.3:       # a functional call before and after a change its array's printout, shape or hash would hardly show
            op = g.op(self.ON_ARRAYS)
            arrs = [n for n in sorted(values.refs(op, set())) if 'a' in specs.get(n, ())]
            if arrs:
                i = r.randint(0, len(hist))
                n = r.choice(arrs)
                how = 'flip' if any(x == 0 for x in specs[n]['a']) and r.random() < 0.6 else r.choice(('tiny', 'tiny') + SLY)
                hist[i:i] = [{'q': op}, {'do': 'edit', 'on': n, 'path': [], 'i': r.randint(0, 8), 'val': how}, {'q': op}]
        if r.random() < 0.25:       # many look-alike calls, asked and asked again
            k = r.random()
            if k < 0.3:
                many = [g.op(['get_ellipsoid', 'get_ellipsoid', 'FrameE']) for _ in range(r.choice([12, 30, 60]))]
            else:
                like = r.choice(bank) if k < 0.6 else g.op(self.SCALARS)
                many = [gen.vary(r, like) for _ in range(r.choice([6, 12, 30]))]
                if k > 0.8:
                    many += [g.op(self.SCALARS) for _ in range(12)]
            again = r.sample(many, min(len(many), 6))
            i = r.randint(0, len(hist))
            hist[i:i] = [{'q': q} for q in many + again]
        if r.random() < 0.4:        # a call, and another that looks just like it
            for _ in range(r.choice([1, 2, 4])):
                ab = gen.twins(r, r.choice(bank) if r.random() < 0.3 else g.op(self.SCALARS))
                if ab:
                    a, b = ab if r.random() < 0.5 else ab[::-1]
                    i = r.randint(0, len(hist))
                    hist[i:i] = [{'q': a}, {'q': b}] + ([{'q': a}] if r.random() < 0.5 else [])
        if marathon and r.random() < 0.06:       # hundreds of different calls, and then the first ones again
            for _ in range(r.choice([1, 1, 2])):
                op = r.choice(bank) if r.random() < 0.4 else g.op(self.SCALARS)
                seed, n = r.randint(0, 1 << 30), r.choice([40, 140, 300, 600, 1100])
                if 'middling' in str(op) or any(x in str(op) for x in ("'lm", "'gm", "'nb", "'nB", "'prog'", "'interp")):
                    n = min(n, 140)
                rr = random.Random(seed)
                seen = [gen.wander(rr, op) for _ in range(min(n, 40))]
                again = [op] + [seen[0], seen[1], r.choice(seen)]
                i = r.randint(0, len(hist))
                hist[i:i] = [{'q': op}, {'many': op, 'n': n, 'seed': seed}] + [{'q': q} for q in again]
        spec = {'world': g.world, 'history': hist}
        spec['world'] = values.closure(g.world, self.roots(hist))
        return spec

    @staticmethod
    def roots(hist):
        out = []
        for st in hist:
            if 'many' in st:
                out.append(st['many'])
            elif 'q' in st:
                out.append(st['q'])
            else:
                out.append([{'r': st[k]} for k in ('on', 'name') if k in st])
                out.append(st.get('val') if isinstance(st.get('val'), dict) else None)
        return out

    def evaluate(self, spec):
        problems, queries = forks.in_child(_child, spec)
        problems = list(problems)
        for i, world, packed in queries:
            op = spec['history'][i]['q']
            ref = core.reference(world, op)
            d = ops.differs(ops.Outcome.unpack(packed), ref)
            if d:
                problems.append('step %d: %s: %s' % (i, ops.describe(op), d))
        n = {}
        for st in spec['history']:
            k = 'marathon' if 'many' in st else st.get('do', 'query')
            n[k] = n.get(k, 0) + 1
        fired = {'history: ' + k: v for k, v in n.items() if k != 'query'}
        return problems, dict(ops=len(queries), fired=fired, ils=[core.key(spec['history'])[:8]], steps=0)

    def candidates(self, spec):
        for s in core.list_candidates(spec, 'history', least=1):
            s['world'] = values.closure(spec['world'], self.roots(s['history']))
            yield s
        for i, st in enumerate(spec['history']):
            if 'many' in st and st['n'] > 1:
                for n in (st['n'] // 2, st['n'] - 1):
                    yield dict(spec, history=spec['history'][:i] + [dict(st, n=n)] + spec['history'][i + 1:])

    def text(self, spec):
        out = ['world:'] + ['  %s = %s' % (n, ops.describe_value(s)) for n, s in spec['world']] + ['history:']
        for i, st in enumerate(spec['history']):
            out.append('  [%d] %s' % (i, ops.describe(st['q']) if 'q' in st else '%d calls like %s' % (st['n'], ops.describe(st['many'])) if 'many' in st else
                                      ' '.join(str(x) for x in [st['do'], st.get('on', ''), '.'.join(st.get('path', [])) or st.get('attr', ''), st.get('name', ''), st.get('how', ''),
                                                                '= ' + ops.describe_value(st['val']) if 'val' in st else ''])))
        s = '\n'.join(out)
        return s if len(s) < 5000 else s[:5000] + '...'


PROP = C05()
