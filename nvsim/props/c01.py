"""C01: concurrent calls on shared objects do not interfere."""
from .. import core, forks, gen, ops
from .base import Base


def _child(spec, refs):
    r = core.Run(spec).execute()
    problems, near = [], 0
    for th in spec['threads']:
        for i, op in enumerate(th['ops']):
            o = r.out.get((th['tid'], i))
            ref = refs[th['tid'], i]
            if o is None:
                problems.append('thread %d call %d never ended' % (th['tid'], i))
                continue
            d = ops.differs(o, ref)
            if d:
                problems.append('thread %d: %s: %s' % (th['tid'], ops.describe(op), d))
            elif o.kind == 'ret' and not ops.values.same_bits(o.value, ref.value):
                near += 1
    st = r.stats()
    st['near'] = near
    return problems, st


class C01(Base):
    id = 'C01'
    jobs = {'quick': 160, 'thorough': 3000}
    runs_per_job = 110
    rule = ('A case is one simulated execution: 2-4 threads x 1-4 calls drawn from a bank of calls on one shared world, with an explicit list of '
            'preemptions at bytecode positions inside the calls; non-trivial if at least one switch happened inside a call; '
            'distinct by the sequence of (thread, call, code location, next thread) of its switches.')

    def job(self, rng, tier, job):
        g = gen.Gen(rng)
        g.base_world()
        bank = [g.op() for _ in range(rng.choice([8, 14, 20]))]
        # families: the same call with different operands meets in the same code
        for k in range(4):
            name = rng.choice(g.names()) if k else g.names()[job % len(g.names())]
            bank.extend(g.op([name]) for _ in range(3))
        fam = {}
        for op in bank:
            fam.setdefault(op.get('f') or op.get('m') or op.get('g') or op.get('prog') or op.get('b') or 'x', []).append(op)
        fams = [v for v in fam.values() if len(v) > 1]
        for _ in range(self.runs_per_job):
            nt = rng.choice([2, 2, 2, 3, 3, 4])
            src = rng.choice(fams) if fams and rng.random() < 0.4 else bank
            threads = [{'tid': t + 1, 'ops': [rng.choice(src) for _ in range(rng.choice([1, 1, 2, 3]))]} for t in range(nt)]
            order = [t['tid'] for t in threads]
            rng.shuffle(order)
            spec = {'world': g.world, 'threads': threads, 'order': order}
            if rng.random() < 0.3:
                spec['names'] = 'worker'
            spec['plan'] = core.gen_schedule(rng, g.world, threads)
            yield core.trim(rng, spec)

    def evaluate(self, spec):
        refs = {(th['tid'], i): core.reference(spec['world'], op) for th in spec['threads'] for i, op in enumerate(th['ops'])}
        return forks.in_child(_child, spec, refs)

    def candidates(self, spec):
        yield core.prune_world(spec, spec['threads'])
        yield from core.thread_candidates(spec)


PROP = C01()
