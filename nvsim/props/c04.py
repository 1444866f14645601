"""C04: calls neither disturb nor depend on ambient process state."""
import os
import sys

from .. import ambient, core, forks, gen, ops, seams, server, values
from .base import Base

CWD = os.getcwd()


class Recorder:
    """a standard stream that remembers whether anything was written"""
    encoding = 'utf-8'

    def __init__(self):
        self.text = ''

    def write(self, s):
        self.text += s
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no file')


def _child(spec, refs):
    for kind, arg in spec.get('before', ()):
        ambient.perturb(kind, arg)
    env = values.build(spec['world'])
    for kind, arg in spec.get('ambient', ()):
        ambient.perturb(kind, arg)
    run = core.Run(spec, env)
    sim = run.sim
    perturbed = {p[0] for p in list(spec.get('before', ())) + list(spec.get('ambient', ()))}
    streams = perturbed & {'stdout', 'stdout closed'}
    chatty = False
    for e in spec.get('plan', ()):
        if e[3][0] == 'ambient':
            chatty = chatty or e[3][1] in ('errstate', 'odd')
    chatty = chatty or perturbed & {'errstate', 'odd'} or 'scipy errors' in perturbed
    rec = None
    if not streams:
        rec = sys.stdout, sys.stderr = Recorder(), Recorder()
    problems = []
    watch = ambient.Watch()
    seen = set()
    looks = [0]

    def event(t, fr):
        looks[0] += 1
        what = watch.check(looks[0] % 64 == 0)
        if what and what not in seen:
            seen.add(what)
            problems.append('while thread %d call %d %s is in %s (line %d), another thread sees changed: %s' % (
                t.tid, t.op, ops.describe(spec['threads'][[x['tid'] for x in spec['threads']].index(t.tid)]['ops'][t.op]),
                fr.f_code.co_name, fr.f_lineno, what))
            watch.reset()
    if spec.get('observe'):
        sim.on_event = event

    def act(sim_, t, a):
        sim.hit('ambient: ' + a[1])
        sim.ilog.update(('amb %s %d.%d;' % (a[1], t.tid, t.step)).encode())
        audit, seams.audit = seams.audit, None
        ambient.perturb(a[1], a[2])
        seams.audit = audit
        before.pop(t.tid, None)
        mark[0] += 1
        watch.reset()
    sim.handlers['ambient'] = act
    before, mark = {}, [0]

    def enter(t, i, op):
        if len(spec['threads']) == 1:
            before[t.tid] = ambient.snapshot()
        else:
            before[t.tid] = dict(ambient.process_wide(), **ambient.thread_local())
        before[t.tid]['_m'] = mark[0]
        seams.audit = [] if seams.audit is None else seams.audit

    def leave(t, i, op):
        b = before.pop(t.tid, None)
        if b is not None and b.pop('_m') == mark[0]:
            now = ambient.snapshot() if len(spec['threads']) == 1 else dict(ambient.process_wide(), **ambient.thread_local())
            ch = ambient.changed(b, now)
            if ch:
                problems.append('thread %d: %s changed %s' % (t.tid, ops.describe(op), ', '.join(ch)))
                watch.reset()
    run.hooks.update(enter=enter, leave=leave)
    seams.audit = []
    for p in perturbed:
        sim.hit('ambient: ' + p)
        sim.ilog.update(('amb0 %s;' % p).encode())
    for p in list(spec.get('before', ())) + list(spec.get('ambient', ())):
        sim.ilog.update(repr(p).encode())
    run.execute()
    events = sorted(set(seams.audit))
    seams.audit = None
    if events:
        problems.append('a call touched the outside world: %s' % ', '.join(events))
    if rec and not chatty:
        for nm, s in zip(('standard output', 'standard error'), rec):
            if s.text:
                problems.append('a call wrote to %s: %r' % (nm, s.text[:100]))
    for th in spec['threads']:
        for i, op in enumerate(th['ops']):
            o = run.out.get((th['tid'], i))
            ref = refs[th['tid'], i]
            if o is None:
                problems.append('thread %d call %d never ended' % (th['tid'], i))
                continue
            d = ops.differs(o, ref, warns=False)
            if d:
                problems.append('thread %d: %s: %s%s' % (th['tid'], ops.describe(op), d,
                                                         '; with %s' % sorted(perturbed) if perturbed else ''))
    st = run.stats()
    st['probes'] = {'observations inside calls': looks[0]}
    st['ils'] = [core.key(spec['threads'], spec.get('before'), spec.get('ambient'), spec.get('plan'))[:8]]
    return problems, st


def remote(world, oplist):
    """(in another interpreter) every call alone on a fresh world"""
    out = []
    for op in oplist:
        out.append(ops.perform(op, values.build(values.closure(world, op))).pack())
    return out


class C04(Base):
    id = 'C04'
    jobs = {'quick': 160, 'thorough': 3000}
    runs_per_job = 60
    rule = ('A case is one simulated execution of 1-2 threads of calls in which ambient settings are watched at every step of the calls, or changed before or in the '
            'middle of them, or which runs in an interpreter of another mode; distinct by (calls, settings changed, places).')
    assumptions = Base.assumptions + ['the watched settings are those listed in nvsim/ambient.py', 'settings a dependency changes and restores within one of its own calls are not visible']

    def job(self, r, tier, job):
        mode = sorted(server.MODES)[job % len(server.MODES)]
        for k in range(self.runs_per_job):
            if k % 15 == 0:
                g = gen.Gen(r)
                g.base_world()
                w = g.world
                bank = [g.op() for _ in range(24)]
                focus = g.names()[(job * 4 + k // 15) % len(g.names())]
                bank += [g.op([focus]) for _ in range(4)]
            if k % 12 == 0:
                sample = r.sample(bank, len(bank))
                yield {'world': values.closure(w, sample), 'threads': [{'tid': 1, 'ops': sample}], 'mode': mode}
                continue
            nt = r.choice([1, 1, 1, 2])
            threads = [{'tid': t + 1, 'ops': [r.choice(bank) for _ in range(r.choice([1, 1, 2, 3]))]} for t in range(nt)]
            spec = {'world': w, 'threads': threads, 'order': [1, 2][:nt]}
            style = r.choice(['observe', 'observe', 'before', 'ambient', 'mid'])
            if style in ('before', 'ambient'):
                for th in threads:
                    th['ops'] += [r.choice(bank) for _ in range(r.choice([3, 6, 12]))]
            plan = []
            pool = [p for p in ambient.PERTURBATIONS if style != 'mid' or p[0] != 'signal']    # signals belong to the main thread
            pick = lambda: list(r.choice(pool))
            if style == 'observe':
                spec['observe'] = 1
                plan = core.gen_schedule(r, w, threads, mode=r.choice(['one', 'few'])) if nt > 1 else []
            elif style in ('before', 'ambient'):
                spec[style] = [pick() for _ in range(r.choice([1, 1, 2, 3, 12, 40, 40]))]
                if len(spec[style]) > 10:      # a process where much is unusual: many calls, half of the settings each
                    for th in threads:
                        th['ops'] += [r.choice(bank) for _ in range(12)]
                if len(spec[style]) < 4 and r.random() < 0.3:
                    spec[style] = [['odd', r.randint(0, 11)]] + spec[style][:r.choice([0, 0, 1])]
                if r.random() < 0.3:
                    spec['observe'] = 1
            else:
                for th in threads:
                    for i, op in enumerate(th['ops']):
                        p = core.pilot(w, op)
                        if p.steps and r.random() < 0.8:
                            plan.append([th['tid'], i, r.randint(1, p.steps), ['ambient'] + pick()])
            spec['plan'] = plan
            yield core.trim(r, spec)

    def evaluate(self, spec):
        refs = {(th['tid'], i): core.reference(spec['world'], op) for th in spec['threads'] for i, op in enumerate(th['ops'])}
        if 'mode' not in spec:
            return forks.in_child(_child, spec, refs)
        oplist = spec['threads'][0]['ops']
        outs = server.call(spec['mode'], 'nvsim.props.c04:remote', spec['world'], oplist)
        problems = []
        for i, (op, packed) in enumerate(zip(oplist, outs)):
            d = ops.differs(ops.Outcome.unpack(packed), refs[1, i], warns=False)
            if d:
                problems.append('%s in an interpreter of mode %r: %s' % (ops.describe(op), spec['mode'], d))
        return problems, dict(ops=len(oplist), fired={'interpreter mode ' + spec['mode']: 1}, ils=[core.key(spec)[:8]])

    def candidates(self, spec):
        yield core.prune_world(spec, [spec['threads'], spec.get('plan', [])])
        for f in ('before', 'ambient'):
            yield from core.list_candidates(spec, f)
        yield from core.thread_candidates(spec)

    def text(self, spec):
        s = Base.text(self, spec)
        for f, what in (('before', 'settings changed before the objects are built'), ('ambient', 'settings changed before the calls')):
            if spec.get(f):
                s += '\n%s: %s' % (what, spec[f])
        if spec.get('mode'):
            s += '\ninterpreter mode: %s' % spec['mode']
        return s


PROP = C04()
