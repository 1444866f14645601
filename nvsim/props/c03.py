"""C03: a failed or interrupted call leaves nothing behind and is never silently wrong."""
from .. import ambient, core, faults, forks, gen, native_build, ops, values
from .base import Base

BAD = {'SimDeadlock', 'StepBound', 'SystemError', 'UnboundLocalError', 'NameError'}


def _child(spec, refs):
    run = core.Run(dict(spec, plan=spec.get('plan', []) + faults.plan_of(spec)))
    if any(f[2] == 'rec' for f in spec['faults']):
        run.untraced = True
    faults.install(run, spec)
    base = values.fingerprint_env(run.env)
    amb = ambient.snapshot()
    run.execute()
    amb2 = ambient.snapshot()
    problems = []
    hit = {(f[0], f[1]): f for f in spec['faults']}
    cut = survived = 0
    for th in spec['threads']:
        for i, op in enumerate(th['ops']):
            k = (th['tid'], i)
            o = run.out.get(k)
            ref = refs[k]
            who = 'thread %d call %d %s' % (k[0], i, ops.describe(op))
            if o is None:
                problems.append('%s never ended' % who)
                continue
            f = hit.get(k)
            if f is None:
                d = ops.differs(o, ref)
                if d:
                    problems.append('%s (no fault in this call): %s' % (who, d))
                continue
            what = faults.describe(f).split(': ', 1)[1]
            if o.kind == 'ret':
                survived += 1
                for name, step, where in run.fault_log.get(k, ()):
                    if name in faults.INTERRUPTS:
                        problems.append('%s: the %s delivered in %s was swallowed' % (who, name, where))
                d = ops.differs(o, ref, warns=False)
                if d:
                    problems.append('%s returned a wrong answer although %s: %s' % (who, what, d))
            else:
                cut += 1
                if o.exc in BAD and o.exc != ref.exc:
                    problems.append('%s: %s made it raise %s' % (who, what, o.short()))
                for name, step, where in run.fault_log.get(k, ()):
                    if name in faults.INTERRUPTS and o.exc != name:
                        problems.append('%s: the %s delivered in %s reached the caller as %s' % (who, name, where, o.short()))
    d = values.env_diff(base, values.fingerprint_env(run.env))
    if d:
        problems.append("the caller's object changed: %s" % d)
    ch = ambient.changed(amb, amb2)
    if ch:
        problems.append('left changed: %s' % ', '.join(ch))
    # recovery in the main thread too
    for i, op in enumerate(spec.get('after', ())):
        o = ops.perform(op, run.env)
        d = ops.differs(o, refs['after', i])
        if d:
            problems.append('afterwards %s: %s' % (ops.describe(op), d))
    st = run.stats()
    st['ops'] += len(spec.get('after', ()))
    st['probes'] = {'cut short': cut, 'finished in spite of the fault': survived}
    return problems, st


class C03(Base):
    id = 'C03'
    jobs = {'quick': 160, 'thorough': 3000}
    runs_per_job = 90
    rule = ('A case is one simulated execution: 1-3 threads of calls on a shared world, 1-3 of the calls hit by a fault (interrupt, failing dependency call, failing allocation, '
            'floating-point errors or warnings raising, exhausted stack), each followed by a retry and by other calls; non-trivial if a fault or a switch really happened; '
            'distinct by the sequence of faults and switches with their code locations.')

    def prepare(self):
        native_build.load()

    def fault(self, r, world, tid, i, op, single):
        p = core.pilot(world, op)
        kinds = ['int', 'int', 'int', 'int', 'dep', 'dep', 'alloc', 'alloc', 'fp']
        if single:
            kinds += ['warn', 'rec']
        k = r.choice(kinds)
        if k == 'dep' and not p.depcalls:
            k = 'int'
        if k == 'alloc' and native_build.load() is None:
            k = 'int'
        if k == 'int' and not p.legal:
            k = 'alloc' if native_build.load() is not None else 'fp'
        if k == 'int':
            x = r.random()
            near = [s for s in p.legal if any(0 <= s - q <= 6 for q in p.stores)]
            step = r.choice(near) if near and x < 0.3 else r.choice(p.legal)
            return [tid, i, 'int', r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'TimeoutError', 'MemoryError', 'SystemExit']), step]
        if k == 'dep':
            return [tid, i, 'dep', r.choice(['MemoryError', 'KeyboardInterrupt', 'TimeoutError', 'FloatingPointError', 'RuntimeError']), r.randint(1, p.depcalls)]
        if k == 'alloc':
            return [tid, i, 'alloc', r.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 25, 40, 60])]
        if k == 'rec':
            return [tid, i, 'rec', r.randint(2, 14)]
        return [tid, i, k]

    def job(self, r, tier, job):
        g = gen.Gen(r)
        g.base_world()
        bank = [g.op() for _ in range(12)]
        focus = [g.op([g.names()[job % len(g.names())]]) for _ in range(6)]
        bank.extend(focus)
        for _ in range(4):
            name = r.choice(g.names())
            bank.extend(g.op([name]) for _ in range(3))
        fam = {}
        for op in bank:
            fam.setdefault(op.get('f') or op.get('m') or op.get('g') or op.get('prog') or op.get('b') or 'x', []).append(op)
        w = g.world
        for _ in range(self.runs_per_job):
            nt = r.choice([1, 1, 1, 1, 2, 3])
            threads, fl = [], []
            for t in range(nt):
                tid = t + 1
                if t == 0 or r.random() < 0.3:
                    op = r.choice(bank if r.random() < 0.6 else focus)
                    kin = r.choice(fam[op.get('f') or op.get('m') or op.get('g') or op.get('prog') or op.get('b') or 'x'])
                    seq = [r.choice([op, kin])] if r.random() < 0.25 else []
                    for _ in range(r.choice([1, 1, 1, 2, 3])):
                        fl.append(self.fault(r, w, tid, len(seq), op, nt == 1))
                        seq.append(op)
                    seq.append(op)
                    seq += [r.choice([kin, r.choice(bank)]) for _ in range(r.choice([0, 1, 2]))]
                else:
                    seq = [r.choice(bank) for _ in range(r.choice([1, 2, 3]))]
                threads.append({'tid': tid, 'ops': seq})
            order = [t['tid'] for t in threads]
            r.shuffle(order)
            spec = {'world': w, 'threads': threads, 'order': order, 'faults': fl}
            spec['plan'] = core.gen_schedule(r, w, threads)
            victim = threads[0]['ops'][fl[0][1]]
            spec['after'] = [r.choice([victim, r.choice(bank)])] if r.random() < 0.4 else []
            if r.random() < 0.85:
                spec['world'] = values.closure(w, [threads, spec['after']])
            yield spec

    def evaluate(self, spec):
        refs = {(th['tid'], i): core.reference(spec['world'], op) for th in spec['threads'] for i, op in enumerate(th['ops'])}
        for i, op in enumerate(spec.get('after', ())):
            refs['after', i] = core.reference(spec['world'], op)
        try:
            return forks.in_child(_child, spec, refs)
        except forks.ChildCrash:
            # numpy itself (argsort of a strided array, for one) does not survive every failing allocation: the run goes on without it
            rest = [f for f in spec['faults'] if f[2] != 'alloc']
            if len(rest) == len(spec['faults']):
                raise
        problems, st = forks.in_child(_child, dict(spec, faults=rest), refs)
        st['probes']['numpy itself crashed on the failing allocation'] = 1
        return problems, st

    def candidates(self, spec):
        if spec.get('after'):
            yield dict(spec, after=[])
        yield core.prune_world(spec, [spec['threads'], spec.get('after', [])])
        yield from faults.candidates(spec)

    def text(self, spec):
        return Base.text(self, spec) + '\nfaults:\n' + faults.text(spec) + ''.join('\nafterwards: ' + ops.describe(o) for o in spec.get('after', ()))


PROP = C03()
