"""Building blocks shared by the properties: references, pilots, simulated runs."""
import hashlib
import json

from . import boot, forks, ops, sched, seams, values


def key(*xs):
    return hashlib.sha1(json.dumps(xs, sort_keys=True).encode()).digest()


# ------------------------------------------------------------------ references
_refs = {}


def _ref_child(world, op):
    env = values.build(world)
    return ops.perform(op, env).pack()


def _bounded_ref_child(world, op):
    """the same, under the tracer, which ends it at the step bound"""
    env = values.build(world)
    sim = sched.Sim(boot.ROOT)
    res = []

    def body(t):
        sim.begin_op(t, 0, {})
        res.append(ops.perform(op, env, before=lambda: sim.trace_on(t), after=lambda: sim.trace_off(t)).pack())
    sim.add(1, body)
    sim.run()
    return res[0]


def _alone(world, op):
    try:
        return forks.in_child(_ref_child, world, op, timeout=20.0)
    except forks.ChildTimeout:
        try:
            return forks.in_child(_bounded_ref_child, world, op)
        except forks.ChildTimeout:
            return ('exc', None, 'StepBound', (), False, 'no answer')


def reference(world, op):
    """What the call does alone in a fresh (pristine) process."""
    sub = values.closure(world, op)
    k = key(sub, op)
    if k not in _refs:
        if len(_refs) > 20000:
            _refs.clear()
        _refs[k] = ops.Outcome.unpack(_alone(sub, op))
    return _refs[k]


# ------------------------------------------------------------------ pilots
_pilots = {}


class Pilot:
    """step count and places of interest of one call, run alone under the tracer"""
    __slots__ = ('steps', 'stores', 'legal', 'depcalls')


def _pilot_child(world, op):
    env = values.build(world)
    sim = sched.Sim(boot.ROOT, record=True)
    res = []

    def body(t):
        sim.begin_op(t, 0, {})
        ops.perform(op, env, before=lambda: sim.trace_on(t), after=lambda: sim.trace_off(t))
        tr = t.tracer
        res.extend((tr.step, tr.stores, tr.legals, tr.depcalls))
    sim.add(1, body)
    sim.run()
    return res


def pilot(world, op):
    sub = values.closure(world, op)
    k = key(sub, op)
    if k not in _pilots:
        if len(_pilots) > 20000:
            _pilots.clear()
        p = Pilot()
        p.steps, p.stores, p.legal, p.depcalls = forks.in_child(_pilot_child, sub, op)
        _pilots[k] = p
    return _pilots[k]


def pick_step(rng, p):
    """a place inside a call: anywhere, or right around a store"""
    if p.steps == 0:
        return 0
    if p.stores and rng.random() < 0.3:
        return max(1, min(p.steps, rng.choice(p.stores) + rng.choice([0, 0, 1, 1, 2])))
    return rng.randint(1, p.steps)


# ------------------------------------------------------------------ simulated runs
def plan_index(plan):
    """[[tid, op, step, [action]], ...] -> {(tid, op): {step: [actions]}}"""
    idx = {}
    for tid, op, step, act in plan:
        idx.setdefault((tid, op), {}).setdefault(step, []).append(act)
    return idx


class Run:
    """One simulated execution of threads of operations over a shared world (inside a child)."""

    def __init__(self, spec, env=None):
        self.spec = spec
        self.env = values.build(spec['world']) if env is None else env
        self.sim = sched.Sim(boot.ROOT, order=spec.get('order'), names=spec.get('names'))
        self.out = {}                     # (tid, i) -> Outcome
        self.nested = []                  # (tid, op, outcome) of re-entered calls
        self.forked = []
        self.keep_raw = False
        self.hooks = {}                   # 'before_op', 'after_op'; 'enter', 'leave': right around the call
        self.untraced = False
        self.sim.handlers['nest'] = self._nest
        self.sim.handlers['fork'] = self._fork
        self.sim.handlers['gc'] = self._gc

    def execute(self):
        idx = plan_index(self.spec.get('plan', ()))
        for th in self.spec['threads']:
            self._add(th, idx)
        self.sim.run()
        return self

    def _add(self, th, idx):
        sim, env = self.sim, self.env
        tid = th['tid']

        def body(t):
            for i, op in enumerate(th['ops']):
                acts = idx.get((tid, i), {})
                sim.begin_op(t, i, acts)
                if 'before_op' in self.hooks:
                    self.hooks['before_op'](t, i, op)
                enter, leave = self.hooks.get('enter'), self.hooks.get('leave')

                def before():
                    if enter:
                        enter(t, i, op)
                    if not self.untraced:
                        sim.trace_on(t)

                def after():
                    sim.trace_off(t)
                    if leave:
                        leave(t, i, op)
                inv = sim.tick()
                o = ops.perform(op, env, before=before, after=after, keep_raw=self.keep_raw)
                o.inv, o.ret = inv, sim.tick()
                self.out[tid, i] = o
                if 'after_op' in self.hooks:
                    self.hooks['after_op'](t, i, op, o)
                if th.get('die') and o.injected:
                    break
        sim.add(tid, body)

    def _nest(self, sim, t, act):
        """a signal handler runs library calls on top of the interrupted one"""
        sim.hit('re-entry')
        sim.ilog.update(b'nest;')
        saved = t.op, t.acts, t.pending
        sink = ops._warn_sink.get(t.ident)
        for op in act[1]:
            self.nested.append((t.tid, op, ops.perform(op, self.env)))
        if sink is not None:
            ops._warn_sink[t.ident] = sink
        t.op, t.acts, t.pending = saved

    def _fork(self, sim, t, act):
        sim.hit('fork')
        sim.ilog.update(b'fork;')
        self.forked.append((t.tid, act[1], fork_ops(self, sim, act[1])))

    def _gc(self, sim, t, act):
        import gc
        sim.hit('gc')
        gc.collect()

    def stats(self):
        s = self.sim
        return dict(steps=s.steps, switches=s.switches, fired=dict(s.fired), il=s.ilog.digest()[:8] if s.fired else b'',
                    simtime=seams.clock.advanced + s.steps * 1e-6, lock_ops=s.lock_ops, lock_waits=s.lock_waits,
                    deadlocks=len(s.deadlocks), ops=len(self.out))


def fork_ops(run, sim, oplist):
    """the process forks right here; the child makes its own calls and reports"""
    import os
    import pickle
    import select
    import signal
    r, w = os.pipe()
    sink = ops._warn_sink.pop(seams.real_get_ident(), None)     # CPython warns about forking with threads
    pid = os.fork()
    if sink is not None:
        ops._warn_sink[seams.real_get_ident()] = sink
    if pid == 0:
        try:
            os.close(r)
            sim.in_fork = True
            res = []
            for op in oplist:
                res.append(ops.perform(op, run.env).pack())
            data = pickle.dumps(res, protocol=4)
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = seams.real_monotonic() + 30
    while True:
        ok, _, _ = select.select([r], [], [], max(0, end - seams.real_monotonic()))
        if not ok:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return None
    return [ops.Outcome.unpack(x) for x in pickle.loads(buf)]


# ------------------------------------------------------------------ schedules
def gen_schedule(rng, world, threads, mode=None):
    """Preemption lists: a few well placed switches, a chain back and forth, or a storm."""
    plan = []
    tids = [t['tid'] for t in threads]
    if len(tids) < 2:
        return plan
    pil = {(t['tid'], i): pilot(world, op) for t in threads for i, op in enumerate(t['ops'])}
    slots = [k for k, p in pil.items() if p.steps > 0]
    if not slots:
        return plan
    mode = mode or rng.choice(['one', 'two', 'few', 'few', 'pingpong', 'storm'])

    def other(tid):
        return rng.choice([x for x in tids if x != tid])
    if mode in ('one', 'two', 'few'):
        d = {'one': 1, 'two': 2, 'few': rng.randint(3, 6)}[mode]
        for _ in range(d):
            tid, i = rng.choice(slots)
            plan.append([tid, i, pick_step(rng, pil[tid, i]), ['sw', other(tid)]])
    elif mode == 'pingpong':
        # A stops inside a call, B runs part of its own call, A continues, B continues ...
        a, b = rng.sample(tids, 2)
        for tid, peer in ((a, b), (b, a)):
            mine = [s for s in slots if s[0] == tid]
            for s in mine[:2]:
                for _ in range(rng.randint(1, 3)):
                    plan.append([tid, s[1], pick_step(rng, pil[s]), ['sw', peer]])
    else:
        period = rng.choice([1, 2, 3, 5, 7, 11, 23, 53])
        for tid, i in slots:
            n = pil[tid, i].steps
            k = rng.randint(1, period)
            cap = 400
            while k <= n and cap:
                plan.append([tid, i, k, ['sw', other(tid)]])
                k += rng.randint(1, 2 * period)
                cap -= 1
    plan.sort(key=lambda e: (e[0], e[1], e[2]))
    return plan


# ------------------------------------------------------------------ shrinking of thread runs
def drop_thread(spec, j):
    s = dict(spec)
    tid = spec['threads'][j]['tid']
    s['threads'] = spec['threads'][:j] + spec['threads'][j + 1:]
    s['plan'] = [e for e in spec.get('plan', ()) if e[0] != tid and not (e[3][0] == 'sw' and e[3][1] == tid)]
    return s


def drop_op(spec, j, i):
    s = dict(spec)
    th = dict(spec['threads'][j])
    tid = th['tid']
    th['ops'] = th['ops'][:i] + th['ops'][i + 1:]
    s['threads'] = spec['threads'][:j] + [th] + spec['threads'][j + 1:]
    plan = []
    for e in spec.get('plan', ()):
        if e[0] == tid:
            if e[1] == i:
                continue
            if e[1] > i:
                e = [e[0], e[1] - 1] + list(e[2:])
        plan.append(e)
    s['plan'] = plan
    return s


def thread_candidates(spec):
    for j in range(len(spec['threads'])):
        if len(spec['threads']) > 1:
            yield drop_thread(spec, j)
    for j, th in enumerate(spec['threads']):
        if len(th['ops']) > 1:
            for i in range(len(th['ops'])):
                yield drop_op(spec, j, i)
    for s in list_candidates(spec, 'plan'):
        yield s


def list_candidates(spec, field, least=0):
    xs = spec.get(field, [])
    n = len(xs)
    size = max(1, n // 2)
    while size >= 1:
        for k in range(0, n, size):
            keep = xs[:k] + xs[k + size:]
            if len(keep) >= least and len(keep) < n:
                s = dict(spec)
                s[field] = keep
                yield s
        size //= 2


def prune_world(spec, used):
    s = dict(spec)
    s['world'] = values.closure(spec['world'], used)
    return s if len(s['world']) < len(spec['world']) else None


def trim(rng, spec):
    """most runs build only what they use; some also build the rest of the world first"""
    if rng.random() < 0.85:
        spec['world'] = values.closure(spec['world'], [spec['threads'], spec.get('plan', [])])
    return spec
