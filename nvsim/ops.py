"""Operations (JSON) on a world, and how one operation is executed and its outcome recorded."""
import _thread
import operator
import warnings

import numpy as np

from . import programs, seams, values
from .sched import StepBound

nv = None

BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
       '==': operator.eq, '!=': operator.ne}

_warn_sink = {}       # thread ident -> list of categories


def _showwarning(message, category, filename, lineno, file=None, line=None):
    sink = _warn_sink.get(_thread.get_ident())
    if sink is not None:
        sink.append(category.__name__)


def install_warnings():
    """every warning is seen every time, and recorded per thread (once, before any run)"""
    warnings.resetwarnings()
    warnings.simplefilter('always')
    warnings.showwarning = _showwarning


def direct(fn, args, kw):
    """the call as a line of somebody's program: a view of each array, written in the argument list, held by nobody else"""
    ns = {'fn': fn}
    text = []
    for i, (k, x) in enumerate([(None, x) for x in args] + list(kw.items())):
        ns['x%d' % i] = x
        text.append((k + '=' if k else '') + 'x%d' % i + ('[...]' if isinstance(x, np.ndarray) else ''))
    return eval('fn(%s)' % ', '.join(text), ns)


def call(op, env):
    """the bare operation"""
    m = values.mat
    if 'f' in op:
        fn = nv
        for part in op['f'].split('.'):
            fn = getattr(fn, part)
        args = [m(x, env) for x in op.get('p', ())]
        kw = {k: m(v, env) for k, v in op.get('k', {}).items()}
        if op.get('direct'):
            return direct(fn, args, kw)
        return fn(*args, **kw)
    if 'm' in op:
        obj = m(op['on'], env)
        args = [m(x, env) for x in op.get('p', ())]
        kw = {k: m(v, env) for k, v in op.get('k', {}).items()}
        if op.get('direct'):
            return direct(getattr(obj, op['m']), args, kw)
        return getattr(obj, op['m'])(*args, **kw)
    if 'g' in op:
        return getattr(m(op['on'], env), op['g'])
    if 'b' in op:
        x, y = [m(x, env) for x in op['p']]
        return BIN[op['b']](x, y)
    if 'neg' in op:
        return -m(op['neg'], env)
    if 'repr' in op:
        return repr(m(op['repr'], env))
    if 'prog' in op:
        return getattr(programs, 'prog_' + op['prog'])(nv, *[m(x, env) for x in op.get('p', ())])
    raise ValueError(op)


def describe(op):
    def s(x):
        if isinstance(x, dict):
            if 'r' in x:
                return x['r']
            if 'a' in x:
                return 'array(%s)' % (x['a'],) if len(str(x['a'])) < 80 else 'array(<%s>)' % x.get('s', '..')
            if 'o' in x:
                return '%s(%s)' % (('My' if 'sub' in x else '') + x['o'], ', '.join([s(y) for y in x.get('p', ())] + ['%s=%s' % (k, s(v)) for k, v in x.get('k', {}).items()]))
            if 'tu' in x:
                return '(%s)' % ', '.join(s(y) for y in x['tu'])
            if 'di' in x:
                return '{%s}' % ', '.join('%s: %s' % (k, s(v)) for k, v in x['di'].items())
            if 'tile' in x:
                return 'batch(<%d entries>)' % x['n']
            if 'np' in x:
                return repr(x['np'])
            if 'm' in x:
                return '%s.%s(%s)' % (s(x['on']), x['m'], ', '.join(s(y) for y in x.get('p', ())))
            return str(x)
        if isinstance(x, list):
            return '[%s]' % ', '.join(s(y) for y in x)
        return repr(x)
    args = ', '.join([s(x) for x in op.get('p', ())] + ['%s=%s' % (k, s(v)) for k, v in op.get('k', {}).items()])
    if 'f' in op:
        return '%s(%s)' % (op['f'], args)
    if 'm' in op:
        return '%s.%s(%s)' % (s(op['on']), op['m'], args)
    if 'g' in op:
        return '%s.%s' % (s(op['on']), op['g'])
    if 'b' in op:
        return '%s %s %s' % (s(op['p'][0]), op['b'], s(op['p'][1]))
    if 'neg' in op:
        return '-%s' % s(op['neg'])
    if 'repr' in op:
        return 'repr(%s)' % s(op['repr'])
    if 'prog' in op:
        return 'program %s(%s)' % (op['prog'], args)
    return str(op)


class Outcome:
    """What one call did: value or exception, warning categories, interval of sequence numbers."""
    __slots__ = ('kind', 'value', 'exc', 'warns', 'inv', 'ret', 'raw', 'injected', 'msg')

    def __init__(self):
        self.kind = None
        self.value = None
        self.exc = None
        self.msg = ''
        self.warns = ()
        self.inv = self.ret = 0
        self.raw = None
        self.injected = False

    def short(self):
        if self.kind == 'ret':
            return values.show(self.value)
        return 'raised %s%s' % (self.exc, (' (%s)' % self.msg[:120]) if self.msg else '')

    def pack(self):
        return (self.kind, self.value, self.exc, self.warns, self.injected, self.msg)

    @classmethod
    def unpack(cls, t):
        o = cls()
        o.kind, o.value, o.exc, o.warns, o.injected, o.msg = t
        return o


def perform(op, env, before=None, after=None, keep_raw=False):
    """Run op, record its outcome.  before/after: switch tracing on and off around the call only."""
    out = Outcome()
    ident = _thread.get_ident()
    sink = _warn_sink[ident] = []
    try:
        try:
            if before is not None:
                before()
            res = call(op, env)
        finally:
            if after is not None:
                after()
        out.kind = 'ret'
        out.value = values.canon(res)
        if keep_raw:
            out.raw = res
    except (seams.SimDeadlock, StepBound) as exc:
        out.kind, out.exc, out.msg = 'exc', type(exc).__name__, str(exc)
    except BaseException as exc:
        out.kind, out.exc, out.msg = 'exc', type(exc).__name__, str(exc)
        e, seen = exc, 0
        while e is not None and seen < 10:
            if getattr(e, 'nvsim', False):
                out.injected = True
            e, seen = (e.__cause__ or e.__context__), seen + 1
    finally:
        _warn_sink.pop(ident, None)
    out.warns = tuple(sorted(set(sink)))
    return out


def differs(out, ref, warns=True, rtol=values.RTOL):
    """None, or how an outcome differs from its reference"""
    if out.kind != ref.kind:
        return 'got %s, expected %s' % (out.short(), ref.short())
    if out.kind == 'exc':
        if out.exc != ref.exc:
            return 'got %s, expected %s' % (out.short(), ref.short())
    else:
        d = values.diff(out.value, ref.value, rtol)
        if d:
            return 'result%s (got | expected)' % d
    if warns and out.warns != ref.warns:
        return 'warnings %s, expected %s' % (list(out.warns), list(ref.warns))
    return None


def describe_value(sp):
    s = describe({'f': '', 'p': [sp]})
    return s[1:-1]
