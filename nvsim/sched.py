"""The simulator proper: real threads, one baton, every switch and fault decided by the plan.

A Sim runs up to a few managed threads.  Exactly one of them holds the baton; the baton
moves only (a) at a bytecode boundary inside the library where the plan says so, (b) when a
thread blocks on a simulated lock, sleeps or finishes.  Plans are explicit lists, so that a
run is a pure function of (run specification, code).
"""
import hashlib
import opcode
import sys
import threading

from . import native_build, seams

OPMAP = opcode.opmap
LEGAL_AFTER = {OPMAP['CALL'], OPMAP['CALL_FUNCTION_EX'], OPMAP['JUMP_BACKWARD'], OPMAP['RESUME']}
STORES = {OPMAP[n] for n in ('STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'DELETE_ATTR', 'DELETE_SUBSCR',
                             'DELETE_GLOBAL', 'STORE_DEREF', 'STORE_SLICE')}
CALLS = {OPMAP['CALL'], OPMAP['CALL_FUNCTION_EX']}
STEP_BOUND = 600000


class StepBound(BaseException):
    """A call did not finish within the step bound."""


def make_exc(name):
    exc = {'KeyboardInterrupt': KeyboardInterrupt, 'TimeoutError': TimeoutError, 'MemoryError': MemoryError,
           'SystemExit': SystemExit, 'RuntimeError': RuntimeError, 'OSError': OSError,
           'ImportError': ImportError, 'RecursionError': RecursionError,
           'FloatingPointError': FloatingPointError}[name]('injected by nvsim')
    exc.nvsim = True
    return exc


_codes = {}           # code object -> byte code of library code, None for everything else
_native = None


def native():
    """the tracer module (built on first use), configured"""
    global _native
    if _native is None:
        m = native_build.tracer()
        m.config(bytes(LEGAL_AFTER), bytes(STORES))
        seams.Clock.ticks = staticmethod(m.steps)
        _native = m
    return _native


class Thread:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.gate = seams.real_allocate_lock()
        self.gate.acquire()
        self.state = 'ready'        # ready | blocked | sleeping | done
        self.lock = None
        self.deadline = None
        self.timed_out = False
        self.doomed = False
        self.stalled = False
        self.ident = None
        self.op = 0
        self.acts = {}
        self.pending = None
        self.tracing = False
        self.sentinel = None
        self.depfail = None          # [k, exception name]: the k-th dependency call (Python level) raises
        self.fired = []
        self.tracer = None
        self.plan = []

    @property
    def step(self):
        return self.tracer.step if self.tracer is not None else 0

    @property
    def depcalls(self):
        return self.tracer.depcalls if self.tracer is not None else 0


class UserThread(threading.Thread):
    """what threading.current_thread() is in a simulated thread"""

    def __init__(self, name, ident):
        super().__init__(name=name, daemon=True)
        self._ident = ident
        self._native_id = None
        self._started.set()

    def is_alive(self):
        return not self._is_stopped

    def join(self, timeout=None):
        raise RuntimeError('a thread of the program is not to be joined')


class Sim:
    def __init__(self, root, order=None, record=None, names=None):
        self.names = names           # how the program calls its threads
        self.root = root
        self.native = native()
        self.steps0 = self.native.steps()
        self.order = order or []
        self.threads = {}
        self.current = None
        self.main_gate = seams.real_allocate_lock()
        self.main_gate.acquire()
        self.idents = {}
        self.switches = 0
        self.lock_ops = 0
        self.lock_waits = 0
        self.deadlocks = []
        self.fired = {}              # fault kind -> times it really happened
        self.seq = 0
        self.ilog = hashlib.sha1()
        self.next_tid = 100
        self.handlers = {}           # action name -> callable(sim, thread, action)
        self.record = record         # note stores and interruption points of every call
        self.on_event = None         # called at every opcode event (observer), if set
        self.in_fork = False
        self.step_bound = STEP_BOUND

    # ---------------------------------------------------------------- helpers
    @property
    def steps(self):
        return self.native.steps() - self.steps0

    def managed(self):
        return seams.real_get_ident() in self.idents

    def me(self):
        return self.idents.get(seams.real_get_ident())

    def tick(self):
        self.seq += 1
        return self.seq

    def hit(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # ---------------------------------------------------------------- threads
    def add(self, tid, fn):
        t = Thread(tid, fn)
        self.threads[tid] = t
        return t

    def _body(self, t):
        t.ident = seams.real_get_ident()
        t.gate.acquire()
        try:
            t.fn(t)
        except BaseException as exc:   # a harness fault: keep it for the main thread
            self.crash = exc
        finally:
            self.native.off()
            self._finish(t)

    crash = None

    def spawn(self, function, args, kwargs):
        """the library started a thread of its own"""
        self.next_tid += 1
        tid = self.next_tid

        def fn(t):
            self.trace_on(t)
            try:
                function(*args, **kwargs)
            except SystemExit:
                pass
            except BaseException as exc:
                t.error = exc
            finally:
                self.trace_off(t)
                if t.sentinel is not None and t.sentinel.locked():
                    t.sentinel.release()
        t = self.add(tid, fn)
        self.hit('library thread')
        ident = seams.real_start_new_thread(self._body, (t,))
        self.idents[ident] = t
        return ident

    def run(self):
        seams.sim = self
        try:
            for tid in sorted(self.threads):
                t = self.threads[tid]
                ident = seams.real_start_new_thread(self._body, (t,))
                self.idents[ident] = t
                threading._active[ident] = UserThread(self.names or 'worker-%d' % tid, ident)
            first = self._next(None)
            if first is not None:
                self.current = first
                # one thread always traces, so that the interpreter never removes its
                # instrumentation under the frames of simulated threads that stand still
                self.native.hold()
                first.gate.release()
                self.main_gate.acquire()
        finally:
            self.native.off()
            seams.sim = None
            for ident in self.idents:
                if isinstance(threading._active.get(ident), UserThread):
                    del threading._active[ident]
        if self.crash is not None:
            raise self.crash

    def _runnable(self, t):
        if t.stalled or t.state == 'done':
            return False
        if t.state == 'ready':
            return True
        if t.state == 'blocked':
            return not t.lock.locked()
        return False

    def _rank(self):
        rest = [x for x in sorted(self.threads) if x not in self.order]
        return [x for x in self.order if x in self.threads] + rest

    def _next(self, me):
        if self.in_fork:
            return None
        for tid in self._rank():
            t = self.threads[tid]
            if t is not me and self._runnable(t):
                return t
        # nothing is runnable: let simulated time pass
        timed = [t for t in self.threads.values() if t.state != 'done' and t.deadline is not None and not t.stalled]
        if timed:
            t = min(timed, key=lambda x: (x.deadline, x.tid))
            if t.deadline > seams.clock.mono:
                seams.clock.advance(t.deadline - seams.clock.mono)
            t.timed_out = True
            t.state = 'ready'
            return t
        return None

    def _finish(self, t):
        t.state = 'done'
        nxt = self._next(t)
        if nxt is None:
            stalled = [self.threads[x] for x in self._rank() if self.threads[x].stalled
                       and self.threads[x].state != 'done']
            if stalled:
                nxt = stalled[0]
                nxt.stalled = False
            else:
                blocked = [self.threads[x] for x in self._rank() if self.threads[x].state == 'blocked']
                if blocked:
                    nxt = blocked[0]
                    nxt.doomed = True
                    nxt.state = 'ready'
        if nxt is None:
            self.main_gate.release()
            return
        self.current = nxt
        nxt.gate.release()

    def _switch(self, me, to):
        self.current = to
        self.switches += 1
        to.gate.release()
        me.gate.acquire()

    def block(self, lock, timeout):
        me = self.me()
        self.lock_waits += 1
        me.state = 'blocked'
        me.lock = lock
        me.timed_out = False
        me.deadline = None if timeout is None else seams.clock.mono + timeout
        try:
            while True:
                nxt = self._next(me)
                if nxt is None:
                    self.deadlocks.append((me.tid, me.op, lock._id))
                    raise seams.SimDeadlock('waits for ever for lock %d' % lock._id)
                if nxt is not me:
                    self._switch(me, nxt)
                if me.doomed:
                    me.doomed = False
                    self.deadlocks.append((me.tid, me.op, lock._id))
                    raise seams.SimDeadlock('waits for ever for lock %d' % lock._id)
                if not lock.locked():
                    return True
                if me.timed_out:
                    return False
        finally:
            me.state = 'ready'
            me.lock = None
            me.deadline = None

    def sleep(self, secs):
        me = self.me()
        me.state = 'sleeping'
        me.timed_out = False
        me.deadline = seams.clock.mono + secs
        nxt = self._next(me)
        if nxt is not None and nxt is not me:
            self._switch(me, nxt)
        me.state = 'ready'
        me.deadline = None

    # ---------------------------------------------------------------- actions
    def perform(self, t, actions, where):
        for act in actions:
            kind = act[0]
            if kind == 'sw':
                to = self.threads.get(act[1])
                if to is None or to is t or self.in_fork or not self._runnable(to):
                    continue
                self.ilog.update(('%d>%d %s;' % (t.tid, to.tid, where)).encode())
                self.hit('switch')
                self._switch(t, to)
            elif kind == 'int':
                t.pending = act[1]
            elif kind == 'stall':
                if self.in_fork:
                    continue
                nxt = self._next(t)
                if nxt is None or nxt is t:
                    continue
                self.ilog.update(('stall %d %s;' % (t.tid, where)).encode())
                self.hit('stall')
                t.stalled = True
                self._switch(t, nxt)
            elif kind == 'clock':
                seams.clock.jump(act[1])
                self.hit('clock jump')
            else:
                self.handlers[kind](self, t, act)

    # ---------------------------------------------------------------- tracing
    def begin_op(self, t, op, acts):
        t.op = op
        t.acts = acts
        t.pending = None
        t.depfail = None
        del t.fired[:]
        if t.tracer is None:
            t.tracer = self._make_tracer(t)
        t.tracer.step = 0
        t.tracer.depcalls = 0
        a = acts.get(0)
        if a:
            self.perform(t, a, 'op%d@0' % op)

    def trace_on(self, t):
        if t.tracer is None:
            t.tracer = self._make_tracer(t)
        tr = t.tracer
        t.plan = sorted(s for s in t.acts if s > 0)
        tr.step = 0
        tr.depcalls = 0
        tr.next = t.plan[0] if t.plan else -1
        tr.bound = self.step_bound
        tr.depfail = t.depfail[0] if t.depfail else -1
        tr.pending = 1 if t.pending else 0
        tr.every = 1 if self.on_event is not None else 0
        tr.record = 1 if self.record else 0
        tr.on()

    def trace_off(self, t):
        self.native.off()
        t.pending = None

    def _interrupt(self, t, fr):
        name, t.pending = t.pending, None
        t.tracer.pending = 0
        t.fired.append((name, t.step, fr.f_code.co_name))
        self.hit('interrupt:' + name)
        self.ilog.update(('int %d %s %s:%d;' % (t.tid, name, fr.f_code.co_name, fr.f_lasti)).encode())
        raise make_exc(name)

    def _make_tracer(self, t):
        sim = self

        def at(step, legal, fr):
            if t.pending and legal:
                sim._interrupt(t, fr)
            a = t.acts.get(step)
            if a:
                sim.perform(t, a, '%d.%s:%d' % (t.op, fr.f_code.co_name, fr.f_lasti))
                if t.pending and legal:
                    sim._interrupt(t, fr)
                t.tracer.pending = 1 if t.pending else 0
            if step > sim.step_bound:
                t.tracer.bound = step + 1000
                raise StepBound('no result after %d steps' % step)
            if sim.on_event is not None:
                sim.on_event(t, fr)
            while t.plan and t.plan[0] <= step:
                t.plan.pop(0)
            return t.plan[0] if t.plan else -1

        def dep(k, fr):
            name = t.depfail[1]
            t.tracer.depfail = -1
            where = fr.f_code.co_name
            t.fired.append((name, t.step, 'dependency ' + where))
            sim.hit('dependency fails:' + name)
            sim.ilog.update(('dep %d %s %s %d;' % (t.tid, name, where, k)).encode())
            raise make_exc(name)
        return self.native.Tracer(self.root, _codes, at, dep)


def warm_up(root):
    """the first traced call of a process yields no opcode events on CPython 3.12"""
    def dummy(n):
        s = 0
        for i in range(n):
            s += i
        return s
    tr = native().Tracer(dummy.__code__.co_filename, {}, lambda *a: -1, lambda *a: None)
    for _ in range(3):
        tr.on()
        dummy(3)
        native().off()
