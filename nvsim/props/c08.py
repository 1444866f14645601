"""C08: checkpointed objects survive a crash and restart, and copies are independent."""
import copy
import pickle

import numpy as np

from .. import core, forks, gen, ops, server, values
from . import c05, c06
from .base import Base

KINDS = ('fr', 'gs', 'gv', 'ns', 'nv', 'es', 'ev', 'lf', 'lv', 'pv', 'pt', 'pw', 'nB', 'gm')
MODES = ('seed1', 'seed1', 'seed2', 'OO', 'dev')


def checkpoint(x, how):
    """-> (what a restarted process gets, a restored object in this process)"""
    if how == 'copy':
        return None, copy.copy(x)
    if how == 'deepcopy':
        return None, copy.deepcopy(x)
    blob = pickle.dumps(x, how)
    return blob, pickle.loads(blob)


def finite(c):
    if c[0] in ('n', 'a'):
        return bool(np.isfinite(c[1]).all())
    if c[0] in ('t', 'l', 'ao', 'nt'):
        return all(finite(x) for x in c[-1])
    if c[0] in ('o', 'd'):
        return all(finite(x) for _, x in c[-1])
    return c[0] != '!'


def same(a, b):
    """do they compare equal, both ways (paths: their end points)"""
    if values.cname(a) == 'GeoPath' and values.cname(b) == 'GeoPath':
        return same(a.point_a, b.point_a) and same(a.point_b, b.point_b)
    return bool(a == b) and bool(b == a) and not (a != b)


def compare(name, got, want, orig, problems, where):
    """a restored object against the state at the checkpoint"""
    if type(got) is not type(orig):
        problems.append('%s: %s came back as %s, was %s' % (where, name, type(got).__name__, type(orig).__name__))
        return
    if getattr(got, 'label', None) != getattr(orig, 'label', None):
        problems.append("%s: %s, of the program's own class, came back without the attribute it had been given: %r, was %r" % (
            where, name, getattr(got, 'label', None), getattr(orig, 'label', None)))
        return
    c = values.canon(got)
    d = values.diff(c, want, 0)
    if d:
        problems.append('%s: %s came back different%s (got | was)' % (where, name, d))
    elif finite(want) and not same(got, orig):
        problems.append('%s: %s came back unequal to its original: %s' % (where, name, values.show(want)))


def ask(env, queries, out):
    for op in queries:
        world, binding = values.snapshot(env, sorted(values.refs(op, set())))
        world = world + [[n, b] for n, b in binding.items()]
        out.append((op, world, ops.perform(op, env).pack()))


def quiet(fn, *a):
    ops._warn_sink[ops._thread.get_ident()] = []
    try:
        return fn(*a)
    finally:
        ops._warn_sink.pop(ops._thread.get_ident(), None)


def restored(blob, world, wants, queries, edits, again):
    """runs in the restarted process"""
    problems, asked = [], []
    env = quiet(pickle.loads, blob)
    fresh = quiet(values.build, world)
    for name, want in sorted(wants.items()):
        quiet(compare, name, env[name], want, fresh[name], problems, 'after the restart')
    if problems:
        return problems, asked, None
    ask(env, queries, asked)
    blob2 = pickle.dumps(env, again) if again is not None else None
    for st in edits:
        try:
            p = quiet(c05._edit, env, st)
            if p:
                problems.append('after the restart: ' + p)
        except Exception:
            continue
        ask(env, queries, asked)
    return problems, asked, blob2


def _history_child(spec):
    env = values.build(spec['world'])
    problems, asked, sent, kept = [], [], [], []
    for i, st in enumerate(spec['history']):
        if 'q' in st and st.get('do') != 'ckpt':
            ops.perform(st['q'], env)
            continue
        if st.get('do') != 'ckpt':
            try:
                quiet(c05._edit, env, st)
            except Exception as exc:
                if getattr(exc, 'nvsim', False):
                    raise
            continue
        where = 'step %d, %s' % (i, 'protocol %s' % st['how'] if isinstance(st['how'], int) else st['how'])
        group = {n: env[n] for n in st['on']}
        if 'res' in st:                              # a position some call returned
            o = ops.perform(st['res'], env, keep_raw=True)
            for k, x in enumerate(o.raw if isinstance(o.raw, (tuple, list)) else [o.raw]):
                if values.cname(x):
                    group['result%d' % k] = x
        if not group:
            continue
        wants = {n: values.canon(x) for n, x in group.items()}
        before = values.fingerprint_env(env), values.fingerprint_env(group)
        try:
            blob, back = checkpoint(group, st['how']) if st['how'] != 'copy' else (None, {n: copy.copy(x) for n, x in group.items()})
        except Exception as exc:
            problems.append('%s: checkpoint of %s raised %s: %s' % (where, ', '.join(group), type(exc).__name__, exc))
            continue
        d = values.env_diff(before[0], values.fingerprint_env(env)) or values.env_diff(before[1], values.fingerprint_env(group))
        if d:
            problems.append('%s: the checkpoint changed the object: %s' % (where, d))
        for n in group:
            quiet(compare, n, back[n], wants[n], group[n], problems, where)
        if problems:
            break
        local = dict(env)
        local.update(back)
        ask(local, st['q'], asked)
        if st['how'] != 'copy':
            if st.get('spoil') == 'copy':            # edit the restored one, look at the original
                before = values.fingerprint_env(env)
                c06.scribble(c06.arrays(list(back.values()), []), st['mark'])
                for x in back.values():
                    rub(x)
                d = values.env_diff(before, values.fingerprint_env(env))
                if d:
                    problems.append('%s: editing the copy changed the original: %s' % (where, d))
            else:
                kept.append((where, back, wants))
        if blob is not None:
            names = sorted(n for n in group if n in env)
            world, binding = values.snapshot(group)
            sent.append((i, blob, world + [[n, b] for n, b in binding.items()], wants))
    for x in env.values():
        c06.scribble(c06.arrays(x, []), 'neg')
        rub(x)
    for where, back, wants in kept:
        for n, x in back.items():
            d = values.diff(values.canon(x), wants[n], 0)
            if d:
                problems.append('%s: editing the original changed the copy of %s%s' % (where, n, d))
    return problems, asked, sent


def rub(x, depth=0):
    """assign over every public attribute, inner objects first"""
    cn = values.cname(x)
    if cn is None or depth > 4:
        return
    for a in values.STATE[cn]:
        v = getattr(x, a, None)
        if values.cname(v):
            rub(v, depth + 1)
        try:
            if isinstance(v, np.ndarray):
                setattr(x, a, v * 0 + 0.123)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                setattr(x, a, 0.77)
        except Exception:
            pass


def _thread_child(spec, refs):
    run = core.Run(spec)
    wants = {n: values.canon(x) for n, x in run.env.items()}
    prints = values.fingerprint_env(run.env)
    problems, asked, sent = [], [], []
    made = []

    def ckpt(sim, t, act):
        sim.hit('checkpoint inside a call')
        sim.ilog.update(('ckpt %d.%d@%d %s %s;' % (t.tid, t.op, t.step, act[1], act[2])).encode())
        group = {n: run.env[n] for n in act[1]}
        try:
            made.append((t.tid, act, checkpoint(group, act[2])))
        except Exception as exc:
            problems.append('checkpoint of %s inside thread %d raised %s: %s' % (', '.join(group), t.tid, type(exc).__name__, exc))
    run.sim.handlers['ckpt'] = ckpt
    run.execute()
    for th in spec['threads']:
        for i, op in enumerate(th['ops']):
            o = run.out.get((th['tid'], i))
            if o is None:
                problems.append('thread %d call %d never ended' % (th['tid'], i))
                continue
            d = ops.differs(o, refs[th['tid'], i])
            if d:
                problems.append('thread %d: %s: %s' % (th['tid'], ops.describe(op), d))
    d = values.env_diff(prints, values.fingerprint_env(run.env))
    if d:
        problems.append('the shared objects changed: %s' % d)
    for k, (tid, act, (blob, back)) in enumerate(made):
        where = 'checkpoint (%s) inside a call of thread %d' % (act[2], tid)
        for n in act[1]:
            quiet(compare, n, back[n], wants[n], run.env[n], problems, where)
        local = dict(run.env)
        local.update(back)
        if not problems:
            ask(local, spec['q'], asked)
            if blob is not None:
                world, binding = values.snapshot(run.env, act[1])
                sent.append((k, blob, world + [[n, b] for n, b in binding.items()], {n: wants[n] for n in act[1]}))
    return problems, asked, sent, run.stats()


class C08(Base):
    id = 'C08'
    jobs = {'quick': 96, 'thorough': 3000}
    runs_per_job = 22
    rule = ('A case is one simulated execution: a history of edits and calls with checkpoints (pickle protocols 0-5, copy, deepcopy) at some of its points, or concurrent calls with checkpoints '
            'taken inside them; every pickle is restored in another process (other hash seed or interpreter mode) and queried there; distinct by the history or schedule.')
    assumptions = ['the public value of an object is its documented attributes (nvsim/values.py STATE)', 'a fresh process running the same query on freshly built objects defines the right answer',
                   'the restarted process is a second interpreter of the same build with another hash seed (or -OO, or -X dev)']

    def job(self, r, tier, job):
        hist = c05.C05()
        for _ in range(self.runs_per_job):
            if r.random() < 0.3:
                yield self.concurrent(r)
                continue
            spec = hist.history(r)
            g = gen.Gen(r)
            world, h = spec['world'], spec['history']
            g.world = world
            for n, sp in world:
                k = n.rstrip('0123456789')
                g.kinds.setdefault('R1' if n.startswith('R1') else 'n1' if n.startswith('n1') else k, []).append(n)
            names = [n for n, sp in world if self.kind(n)]
            qs = [st['q'] for st in h if 'q' in st]
            if not names:
                continue
            for _ in range(r.choice([1, 2, 3])):
                on = r.sample(names, min(len(names), r.choice([1, 1, 2, 4])))
                on += [n for n in names if n[:2] in ('nB', 'gm') and n not in on and r.random() < 0.5]
                about = [q for q in qs if values.refs(q, set()) & set(on)]
                ck = {'do': 'ckpt', 'on': on, 'how': r.choice([0, 1, 2, 3, 4, 5, 'deepcopy', 'deepcopy', 'copy']), 'mode': r.choice(MODES), 'mode2': r.choice(MODES),
                      'again': r.choice([None, 0, 2, 5]), 'spoil': r.choice(['copy', 'orig']), 'mark': r.choice(['nan', 'big', 'neg']),
                      'q': r.sample(about, min(len(about), 3))}
                # the restarted process has only what was checkpointed
                ck['rq'] = [q for q in about if values.refs(q, set()) <= set(on)][:3] or self.simple(r, on)
                if qs and r.random() < 0.4:
                    ck['res'] = r.choice(qs)
                ed = [st for st in h if st.get('do') in ('set', 'edit', 'unit') and st['on'] in on and values.refs([v for k, v in st.items() if k == 'val'], set()) <= set(on)]
                ck['edits'] = r.sample(ed, min(len(ed), 2))
                h.insert(r.randint(0, len(h)), ck)
            yield spec

    @staticmethod
    def kind(n):
        return n.rstrip('0123456789') in KINDS

    @staticmethod
    def simple(r, on):
        """queries an object can answer alone"""
        out = []
        for n in on:
            k = n.rstrip('0123456789')
            ref = {'r': n}
            if k in ('gs', 'gv', 'gm'):
                out += [{'m': 'to_ecef_vector', 'on': ref, 'p': []}, {'m': 'to_nvector', 'on': ref, 'p': []}, {'g': 'latlon_deg', 'on': ref}, {'m': 'delta_to', 'on': ref, 'p': [ref]}]
            elif k in ('ns', 'nv', 'nB'):
                out += [{'m': 'to_ecef_vector', 'on': ref, 'p': []}, {'m': 'to_geo_point', 'on': ref, 'p': []}, {'m': 'mean', 'on': ref, 'p': []}]
            elif k in ('es', 'ev'):
                out += [{'m': 'to_geo_point', 'on': ref, 'p': []}, {'m': 'to_nvector', 'on': ref, 'p': []}, {'g': 'length', 'on': ref}]
            elif k in ('lf', 'lv'):
                out += [{'g': 'R_EN', 'on': ref}, {'m': 'Pvector', 'on': ref, 'p': [{'a': [1.0, 2, 3], 't': 'f8', 's': [3, 1]}]}]
            elif k == 'pv':
                out += [{'m': 'to_ecef_vector', 'on': ref, 'p': []}, {'g': 'azimuth_deg', 'on': ref}]
            elif k in ('pt', 'pw'):
                out += [{'m': 'track_distance', 'on': ref, 'p': []}, {'m': 'ecef_vectors', 'on': ref, 'p': []}, {'m': 'interpolate', 'on': ref, 'p': [0.3]}]
            elif k == 'fr':
                out += [{'m': 'inverse', 'on': ref, 'p': [0.1, 0.2, 0.3, 0.4]}, {'m': 'direct', 'on': ref, 'p': [0.1, 0.2, 0.3, 1e5]}, {'repr': ref}]
        return r.sample(out, min(len(out), 3))

    def concurrent(self, r):
        g = gen.Gen(r)
        g.base_world()
        w = g.world
        names = [n for n, _ in w if self.kind(n)]
        bank = [g.op() for _ in range(12)]
        threads = [{'tid': t + 1, 'ops': [r.choice(bank) for _ in range(r.choice([1, 2]))]} for t in range(r.choice([1, 2, 3]))]
        plan = core.gen_schedule(r, w, threads, r.choice(['one', 'few'])) if r.random() < 0.6 else []
        for _ in range(r.choice([1, 2])):
            th = r.choice(threads)
            i = r.randrange(len(th['ops']))
            op = th['ops'][i]
            p = core.pilot(w, op)
            if not p.steps:
                continue
            used = [n for n, _ in values.closure(w, op) if self.kind(n)] or names
            on = r.sample(used, min(len(used), r.choice([1, 2])))
            plan.append([th['tid'], i, core.pick_step(r, p), ['ckpt', on, r.choice([0, 2, 3, 4, 5, 'deepcopy'])]])
        plan.sort(key=lambda e: (e[0], e[1], e[2]))
        on = sorted({n for e in plan if e[3][0] == 'ckpt' for n in e[3][1]})
        order = [t['tid'] for t in threads]
        r.shuffle(order)
        spec = {'world': w, 'threads': threads, 'order': order, 'plan': plan, 'q': self.simple(r, on), 'mode': r.choice(MODES)}
        spec['world'] = values.closure(w, [threads, spec['q'], [{'r': n} for n in on]])
        return spec

    def evaluate(self, spec):
        if 'threads' in spec:
            refs = {(th['tid'], i): core.reference(spec['world'], op) for th in spec['threads'] for i, op in enumerate(th['ops'])}
            problems, asked, sent, st = forks.in_child(_thread_child, spec, refs)
            st['probes'] = {}
        else:
            problems, asked, sent = forks.in_child(_history_child, spec)
            n = {}
            for s in spec['history']:
                k = 'checkpoint ' + str(s['how']) if s.get('do') == 'ckpt' else 'history: ' + s.get('do', 'query')
                n[k] = n.get(k, 0) + 1
            st = dict(ops=0, fired=n, ils=[core.key(spec['history'])[:8]], steps=0, probes={})
        problems = list(problems)
        restarts = 0
        for i, blob, world, wants in sent:
            step = spec['history'][i] if 'history' in spec else spec
            names = set(wants)
            qs = [q for q in step.get('rq', spec.get('q', ())) if values.refs(q, set()) <= names]
            if 'res' in step:
                qs = qs + self.result_queries(wants)
            if problems:
                break
            pr, more, blob2 = server.call(step['mode'], 'nvsim.props.c08:restored', blob, world, wants, qs, step.get('edits', []), step.get('again'))
            restarts += 1
            problems += pr
            asked = asked + more
            if blob2 is not None and not pr:
                pr, more, _ = server.call(step['mode2'], 'nvsim.props.c08:restored', blob2, world, wants, qs, [], None)
                restarts += 1
                problems += pr
                asked = asked + more
        for op, world, packed in asked:
            d = ops.differs(ops.Outcome.unpack(packed), core.reference(world, op))
            if d:
                problems.append('asked of the restored object: %s: %s' % (ops.describe(op), d))
        st['ops'] += len(asked)
        st['probes']['restarts in another interpreter'] = restarts
        return problems, st

    @staticmethod
    def result_queries(wants):
        out = []
        for n in sorted(wants):
            if n.startswith('result'):
                cn = wants[n][1]
                ref = {'r': n}
                if cn in ('GeoPoint', 'Nvector'):
                    out.append({'m': 'to_ecef_vector', 'on': ref, 'p': []})
                elif cn == 'ECEFvector':
                    out.append({'m': 'to_geo_point', 'on': ref, 'p': []})
                elif cn in ('FrameN', 'FrameL', 'FrameB'):
                    out.append({'g': 'R_EN', 'on': ref})
        return out

    def roots(self, hist):
        out = []
        for st in hist:
            if st.get('do') == 'ckpt':
                out.append([{'r': n} for n in st['on']] + [st['q'], st['rq'], st['edits'], [{'r': e['on']} for e in st['edits']], st.get('res')])
        return out + c05.C05.roots([st for st in hist if st.get('do') != 'ckpt'])

    def candidates(self, spec):
        if 'threads' in spec:
            on = [{'r': n} for e in spec['plan'] if e[3][0] == 'ckpt' for n in e[3][1]]
            yield core.prune_world(spec, [spec['threads'], spec['q'], on])
            yield from core.thread_candidates(spec)
            yield from core.list_candidates(spec, 'q')
            return
        for s in core.list_candidates(spec, 'history', least=1):
            s['world'] = values.closure(spec['world'], self.roots(s['history']))
            yield s
        for i, st in enumerate(spec['history']):
            if st.get('do') == 'ckpt':
                for f in ('on', 'q', 'rq', 'edits'):
                    for t in core.list_candidates(st, f, least=1 if f == 'on' else 0):
                        s = dict(spec)
                        s['history'] = spec['history'][:i] + [t] + spec['history'][i + 1:]
                        yield s
                if 'res' in st:
                    s = dict(spec)
                    s['history'] = spec['history'][:i] + [{k: v for k, v in st.items() if k != 'res'}] + spec['history'][i + 1:]
                    yield s

    def text(self, spec):
        if 'threads' in spec:
            return Base.text(self, spec) + '\nthen asked (here and in the %s process): %s' % (spec['mode'], '; '.join(ops.describe(q) for q in spec['q']))
        out = ['world:'] + ['  %s = %s' % (n, ops.describe_value(s)) for n, s in spec['world']] + ['history:']
        for i, st in enumerate(spec['history']):
            if st.get('do') == 'ckpt':
                out.append('  [%d] checkpoint %s with %s, restart in %s, ask %s' % (i, ', '.join(st['on']), st['how'], st['mode'], '; '.join(ops.describe(q) for q in st['q'] + st['rq'])))
            else:
                out.append('  [%d] %s' % (i, ops.describe(st['q']) if 'q' in st else ' '.join(str(st.get(k, '')) for k in ('do', 'on', 'path', 'attr', 'name', 'how'))))
        s = '\n'.join(out)
        return s if len(s) < 5000 else s[:5000] + '...'


PROP = C08()
