"""C07: every call makes progress by itself, whatever happens to the calls around it."""
from .. import core, forks, gen, ops, server, values
from .base import Base

INTS = ('KeyboardInterrupt', 'TimeoutError', 'MemoryError', 'SystemExit')
STUCK = ('SimDeadlock', 'StepBound')


def _child(spec, refs, nrefs):
    run = core.Run(spec).execute()
    problems = []
    dead = {th['tid'] for th in spec['threads'] if th.get('die')}
    gone = set()
    for th in spec['threads']:
        for i, op in enumerate(th['ops']):
            k = (th['tid'], i)
            o = run.out.get(k)
            who = 'thread %d call %d %s' % (k[0], i, ops.describe(op))
            if o is None:
                if th['tid'] in gone:
                    continue
                problems.append('%s never ended' % who)
                continue
            if o.exc in STUCK:
                problems.append('%s made no progress: %s' % (who, o.short()))
                continue
            if o.injected:
                if th['tid'] in dead:
                    gone.add(th['tid'])
                continue
            d = ops.differs(o, refs[k])
            if d:
                problems.append('%s: %s' % (who, d))
    for what, got in (('re-entered inside', [(t, op, o) for t, op, o in run.nested]),):
        for tid, op, o in got:
            k = core.key(op)
            if o.exc in STUCK:
                problems.append('%s %s thread %d made no progress: %s' % (ops.describe(op), what, tid, o.short()))
            else:
                d = ops.differs(o, nrefs[k])
                if d:
                    problems.append('%s %s thread %d: %s' % (ops.describe(op), what, tid, d))
    nfork = 0
    for tid, oplist, outs in run.forked:
        if outs is None:
            problems.append('the process forked inside thread %d gave no answer (calls %s)' % (tid, ', '.join(ops.describe(o) for o in oplist)))
            continue
        for op, o in zip(oplist, outs):
            nfork += 1
            if o.exc in STUCK:
                problems.append('%s in a process forked inside thread %d made no progress: %s' % (ops.describe(op), tid, o.short()))
            else:
                d = ops.differs(o, nrefs[core.key(op)])
                if d:
                    problems.append('%s in a process forked inside thread %d: %s' % (ops.describe(op), tid, d))
    st = run.stats()
    st['ops'] += len(run.nested) + nfork
    st['probes'] = {'re-entered calls': len(run.nested), 'calls in forked processes': nfork, 'threads killed inside a call': len(gone)}
    return problems, st


def own(world, oplist):
    """(in an interpreter that was not forked after its imports) every call on objects of its own"""
    return [ops.perform(op, values.build(values.closure(world, op))).pack() for op in oplist]


class C07(Base):
    id = 'C07'
    jobs = {'quick': 96, 'thorough': 3000}
    runs_per_job = 80
    rule = ('A case is one simulated execution: 1-4 threads of calls on one shared world in which calls are stalled until nobody else has work left, killed (with or without their thread), '
            're-entered from a signal handler or forked at chosen bytecode positions; non-trivial if at least one of these really happened; '
            'distinct by the sequence of switches and faults with their code locations.')
    assumptions = Base.assumptions + ['a call makes no progress if it waits for a lock nobody left can release, needs more than %d bytecode steps, or gives no answer in 40 s' % 600000]

    def job(self, r, tier, job):
        g = gen.Gen(r)
        g.base_world()
        w = g.world
        bank = [g.op() for _ in range(10)]
        for k in range(6):
            name = r.choice(g.names()) if k else g.names()[job % len(g.names())]
            bank.extend(g.op([name]) for _ in range(3))
        fam = {}
        for op in bank:
            fam.setdefault(self.family(op), []).append(op)
        big = [op for op in bank if core.pilot(w, op).steps > 3] or bank
        if job % 2 == 0:
            sample = bank + [g.op([r.choice(g.names())]) for _ in range(30)]
            yield {'world': values.closure(w, sample), 'threads': [{'tid': 1, 'ops': sample}], 'plan': [], 'own': 1}
        for _ in range(self.runs_per_job):
            nt = r.choice([1, 1, 2, 2, 3, 4])
            lead = r.choice(big)
            src = fam[self.family(lead)] if r.random() < 0.5 else bank
            threads = []
            for t in range(nt):
                seq = [lead if t == 0 else r.choice(src)]
                seq += [r.choice(src + [r.choice(bank)]) for _ in range(r.choice([0, 0, 1, 2]))]
                threads.append({'tid': t + 1, 'ops': seq})
            plan = core.gen_schedule(r, w, threads, r.choice(['one', 'two', 'few'])) if r.random() < 0.5 else []
            for _ in range(r.choice([1, 1, 2, 3])):
                th = r.choice(threads) if r.random() < 0.5 else threads[0]
                i = r.randrange(len(th['ops']))
                op = th['ops'][i]
                p = core.pilot(w, op)
                if not p.steps:
                    continue
                kinds = ['nest', 'nest', 'fork'] + (['stall', 'stall', 'stall'] if nt > 1 else []) + (['kill', 'kill'] if p.legal else [])
                k = r.choice(kinds)
                kin = fam[self.family(op)]
                if k == 'stall':
                    plan.append([th['tid'], i, core.pick_step(r, p), ['stall']])
                elif k == 'kill':
                    plan.append([th['tid'], i, r.choice(p.legal), ['int', r.choice(INTS)]])
                    if nt > 1 and r.random() < 0.5:
                        th['die'] = True
                else:
                    calls = [r.choice(kin) if r.random() < 0.6 else r.choice(bank) for _ in range(r.choice([1, 1, 2]))]
                    legal = [s for s in p.legal] if k == 'nest' else None
                    step = r.choice(legal) if legal else core.pick_step(r, p)
                    plan.append([th['tid'], i, step, [k, calls]])
            plan.sort(key=lambda e: (e[0], e[1], e[2]))
            order = [t['tid'] for t in threads]
            r.shuffle(order)
            yield core.trim(r, {'world': w, 'threads': threads, 'order': order, 'plan': plan})

    @staticmethod
    def family(op):
        return op.get('f') or op.get('m') or op.get('g') or op.get('prog') or op.get('b') or 'x'

    def evaluate(self, spec):
        refs = {(th['tid'], i): core.reference(spec['world'], op) for th in spec['threads'] for i, op in enumerate(th['ops'])}
        nrefs = {core.key(op): core.reference(spec['world'], op) for e in spec['plan'] if e[3][0] in ('nest', 'fork') for op in e[3][1]}
        stuck = ['%s, alone and undisturbed in a fresh process, made no progress: %s' % (ops.describe(spec['threads'][[x['tid'] for x in spec['threads']].index(t)]['ops'][i]), o.short())
                 for (t, i), o in refs.items() if o.exc in STUCK]
        if stuck:
            return stuck, dict(ops=len(stuck), fired={}, ils=[], steps=0)
        if spec.get('own'):
            oplist = spec['threads'][0]['ops']
            outs = server.call_own('plain', 'nvsim.props.c07:own', spec['world'], oplist)
            problems = []
            for i, (op, packed) in enumerate(zip(oplist, outs)):
                d = ops.differs(ops.Outcome.unpack(packed), refs[1, i])
                if d:
                    problems.append('%s in the process that imported the package (got) and in one forked from such a process (expected): %s' % (ops.describe(op), d))
            return problems, dict(ops=len(oplist), fired={'fork before the call': len(oplist)}, ils=[core.key(spec)[:8]], steps=0)
        try:
            return forks.in_child(_child, spec, refs, nrefs, timeout=40.0)
        except forks.ChildTimeout:
            return ['no answer within 40 s of real time'], dict(ops=0, fired={}, ils=[], steps=0)

    def candidates(self, spec):
        yield core.prune_world(spec, [spec['threads'], spec['plan']])
        yield from core.thread_candidates(spec)
        for n, e in enumerate(spec['plan']):
            if e[3][0] in ('nest', 'fork') and len(e[3][1]) > 1:
                for j in range(len(e[3][1])):
                    s = dict(spec)
                    s['plan'] = spec['plan'][:n] + [[e[0], e[1], e[2], [e[3][0], e[3][1][:j] + e[3][1][j + 1:]]]] + spec['plan'][n + 1:]
                    yield s


PROP = C07()
