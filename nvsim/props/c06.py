"""C06: calls leave their arguments alone and hand out results that are the caller's own."""
import types

import numpy as np

from .. import core, forks, gen, ops, values
from .base import Base


def arrays(x, out, depth=0):
    """every array in a result (or argument), with where it is"""
    if depth > 8:
        return out
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biuf' and x.size:
            out.append(x)
        elif x.dtype.kind == 'O':
            for v in x.ravel():
                arrays(v, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out, depth + 1)
    else:
        cn = values.cname(x)
        if cn:
            for a in values.STATE[cn]:
                arrays(getattr(x, a, None), out, depth + 1)
    return out


def library_arrays():
    """arrays the library itself keeps: module globals, defaults, closures, class attributes"""
    import sys
    out, seen = [], set()

    def walk(x, depth):
        if id(x) in seen or depth > 6:
            return
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            if x.size:
                out.append(x)
        elif isinstance(x, (list, tuple, set, frozenset)):
            for v in list(x)[:1000]:
                walk(v, depth + 1)
        elif isinstance(x, dict):
            for v in list(x.values())[:1000]:
                walk(v, depth + 1)
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or '').startswith('nvector'):
                walk(x.__defaults__, depth + 1)
                walk(x.__kwdefaults__, depth + 1)
                walk(x.__dict__, depth + 1)
                for c in x.__closure__ or ():
                    try:
                        walk(c.cell_contents, depth + 1)
                    except ValueError:
                        pass
        elif isinstance(x, type):
            if (x.__module__ or '').startswith('nvector'):
                for v in list(vars(x).values()):
                    walk(v, depth + 1)
        elif isinstance(x, property):
            walk(x.fget, depth + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            walk(x.__func__, depth + 1)
        elif type(x).__module__.startswith('nvector'):
            walk(getattr(x, '__dict__', None), depth + 1)
    for name, mod in list(sys.modules.items()):
        if (name == 'nvector' or name.startswith('nvector.')) and mod is not None:
            walk(vars(mod), 0)
    return out


def functional(op):
    f = op.get('f', '').split('.')[-1]
    nv = values.nv
    return bool(f) and any(f in m.__all__ for m in (nv.core, nv.rotation, nv.util))


def scribble(arrs, how):
    n = 0
    for a in arrs:
        if a.flags.writeable:
            try:
                if a.dtype.kind == 'f':
                    a[...] = {'nan': np.nan, 'big': 1e30, 'neg': -0.7, 'rev': a[::-1] if a.ndim else -a}[how]
                elif a.dtype.kind == 'b':
                    a[...] = ~a
                else:
                    a[...] = 7
                n += 1
            except ValueError:
                pass
    return n


def _child(spec, refs):
    mine = values.build(spec['world'])          # the hostile caller's objects
    theirs = values.build(spec['world'])        # everybody else's
    problems, scribbled, shares = [], 0, 0
    views, kept = [], [(n, v, list(v)) for w in (mine, theirs) for n, v in w.items() if isinstance(v, list)]
    hit = {}
    for i, st in enumerate(spec['history']):
        op = st['q']
        name = 'step %d: %s' % (i, ops.describe(op))
        env = mine if st.get('scribble') else theirs
        keep = values.fingerprint_env(env)
        o = ops.perform(op, env, keep_raw=True)
        d = values.env_diff(keep, values.fingerprint_env(env))
        if d:
            problems.append('%s changed its argument: %s' % (name, d))
        if not st.get('scribble'):
            d = ops.differs(o, refs[i])
            if d:
                problems.append('%s, after earlier results were overwritten by their owner: %s' % (name, d))
        for n, v, was in kept:
            if len(v) != len(was) or any(x is not y for x, y in zip(v, was)):
                problems.append('%s put other things into its argument %s' % (name, n))
        for n, v, was in views:
            if v.tobytes() != was:
                problems.append('%s changed a part the caller had kept of the result of %s' % (name, n))
        if o.kind != 'ret':
            continue
        res = arrays(o.raw, [])
        fun = functional(op)
        if fun:
            shares += len(res)
            lib = library_arrays()
            for a in res:
                for k, v in env.items():
                    if any(np.shares_memory(a, b) for b in arrays(v, [])):
                        problems.append('%s returned an array that shares memory with %s' % (name, k))
                if any(np.shares_memory(a, b) for b in lib):
                    problems.append("%s returned an array that shares memory with the library's own data" % name)
        if st.get('scribble'):
            if fun:
                # the caller writes into its result: no argument may notice
                scribbled += scribble(res, st['scribble'])
                d = values.env_diff(keep, values.fingerprint_env(env))
                if d:
                    problems.append('%s: writing into the result changed an argument: %s' % (name, d))
            else:
                mats = [f.R_Ee for f in mine.values() if values.cname(f) == 'FrameE'] if st.get('frames') else []
                scribbled += scribble(res + [m for m in mats if isinstance(m, np.ndarray)], st['scribble'])
                mine = values.build(spec['world'])
            hit['scribble'] = hit.get('scribble', 0) + 1
        else:
            # a caller keeps one part of a result and lets go of the rest
            for a in res[:4]:
                v = (a[0:1] if i % 2 else a[..., -1:]) if a.ndim else a[...]
                views.append((name, v, v.tobytes()))
        o = res = a = None
    return problems, dict(ops=len(spec['history']), fired=dict(hit, **{'arrays overwritten': scribbled}), probes={'returned arrays checked for sharing': shares},
                          ils=[core.key(spec['history'])[:8]])


class C06(Base):
    id = 'C06'
    jobs = {'quick': 96, 'thorough': 3000}
    runs_per_job = 26
    rule = ('A case is one simulated history of 4-16 calls by a caller that overwrites every array it is handed and every rotation matrix it owns, interleaved with calls '
            'by others on objects of their own; distinct by the history.')
    assumptions = ['memory sharing is decided by numpy (np.shares_memory) for arrays reachable from results, arguments and the library modules',
                   'a fresh process running the same call alone defines the right answer']

    def job(self, r, tier, job):
        for _ in range(self.runs_per_job):
            g = gen.Gen(r)
            g.base_world()
            names = g.names()
            bank = [g.op() for _ in range(10)]
            fun = ['deg', 'rad', 'mdot', 'nthroot', 'unit', 'E_rotation', 'n_E_and_wa2R_EL', 'n_E2R_EN', 'R2n', 'R2angles', 'angles2R', 'lat_lon2n_E', 'n_E2lat_lon', 'n2p',
                   'p2n', 'nn2p', 'np2n', 'interp_nvectors', 'interpolate', 'intersect_f', 'great_circle_normal', 'cross_track_f', 'on_gc_f', 'closest_f', 'gc_distance',
                   'azimuth', 'direct_n', 'mean_f', 'isclose']
            fun = [f for f in fun if f in names]
            bank += [g.op([r.choice(fun)]) for _ in range(12)]
            bank += [g.op(['FrameE']), g.op(['E_rotation'])]
            if r.random() < 0.3:       # dictionaries of arrays, alone and as something the program noted on an object
                inner = {'di': {'x': g.any('an'), 'y': g.any('za'), 'w': [1, g.any('la')]}}
                note = g.put('dt', {'di': {'first': g.any('na'), 'deep': inner, 'more': [g.any('an'), inner], 'one': 3.5, 'none': None}})
                bank += [{'f': 'util.array_to_list_dict', 'p': [r.choice([note, inner, [note], g.any('na')])]}] * 2
                kind = r.choice(['gs', 'ns', 'fr', 'es', 'lf', 'pv'])
                specs = dict((n, s) for n, s in g.world)
                sp = specs[r.choice(g.kinds[kind])]
                if 'o' in sp:
                    bank += [{'repr': g.put(kind, dict(sp, set=dict(sp.get('set', {}), note=note)))}] * 2
            bank += [{'repr': g.any(k)} for k in ('gm', 'nB', 'gv') if k in g.kinds for _ in range(2)]
            bank = [dict(op, direct=1) if ('f' in op or 'm' in op) and r.random() < 0.3 else op for op in bank]
            hist = []
            for _ in range(r.choice([2, 4, 6])):
                op = r.choice(bank)
                st = {'q': op, 'scribble': r.choice(['nan', 'big', 'neg', 'rev'])}
                if r.random() < 0.4:
                    st['frames'] = 1
                hist.append(st)
                for _ in range(r.choice([1, 1, 2])):
                    hist.append({'q': r.choice([op, r.choice(bank)])})
            yield {'world': values.closure(g.world, hist) if r.random() < 0.85 else g.world, 'history': hist}

    def evaluate(self, spec):
        refs = {i: core.reference(spec['world'], st['q']) for i, st in enumerate(spec['history']) if not st.get('scribble')}
        return forks.in_child(_child, spec, refs)

    def candidates(self, spec):
        for s in core.list_candidates(spec, 'history', least=1):
            s['world'] = values.closure(spec['world'], s['history'])
            yield s

    def text(self, spec):
        out = ['world:'] + ['  %s = %s' % (n, ops.describe_value(s)) for n, s in spec['world']] + ['history:']
        for i, st in enumerate(spec['history']):
            out.append('  [%d] %s%s' % (i, ops.describe(st['q']), '   (then overwrites the result%s)' % (' and all its frames\' R_Ee' if st.get('frames') else '') if st.get('scribble') else ''))
        s = '\n'.join(out)
        return s if len(s) < 5000 else s[:5000] + '...'


PROP = C06()
