"""Value specifications (JSON) <-> live values, canonical results, comparison, fingerprints."""
import math

import numpy as np

nv = None           # the package under test (set by boot)

# documented state of every public class: (constructor arguments), (public attributes)
STATE = {
    'FrameE': ('a', 'f', 'name', 'R_Ee'),
    'GeoPoint': ('latitude', 'longitude', 'z', 'frame'),
    'Nvector': ('normal', 'z', 'frame'),
    'ECEFvector': ('pvector', 'frame', 'scalar'),
    'Pvector': ('pvector', 'frame', 'scalar'),
    'FrameN': ('nvector',),
    'FrameL': ('nvector', 'wander_azimuth'),
    'FrameB': ('nvector', 'yaw', 'pitch', 'roll'),
    'GeoPath': ('point_a', 'point_b'),
}
EXTRA = {'FrameN': ('R_EN',), 'FrameL': ('R_EN',), 'FrameB': ('R_EN',)}


def cname(x):
    """name of the public class x is an instance of, or None"""
    for c in type(x).__mro__:
        if c.__name__ in STATE and getattr(nv, c.__name__, None) is c:
            return c.__name__
    return None


def __getattr__(name):
    """the program's own subclass of a library class: MyGeoPoint and so on (made when first wanted, also by unpickling)"""
    if name.startswith('My') and name[2:] in STATE and nv is not None:
        cls = type(name, (getattr(nv, name[2:]),), {'__module__': __name__, 'label': None})
        globals()[name] = cls
        return cls
    raise AttributeError(name)


def own(cn):
    return globals().get('My' + cn) or __getattr__('My' + cn)


# ------------------------------------------------------------------ specs -> values
def layout(arr, how):
    if how in (None, 'C'):
        return arr
    if how == 'F':
        return np.asfortranarray(arr)
    if how == 'R':
        arr = arr.copy()
        arr.flags.writeable = False
        return arr
    if how == 'S':                                   # every second element of something bigger
        big = np.full(tuple(2 * n for n in arr.shape), 7.25, dtype=arr.dtype)
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    if how == 'N':                                   # negative strides
        sl = tuple(slice(None, None, -1) for _ in arr.shape)
        big = arr[sl].copy()
        return big[sl]
    if how == 'B':                                   # stride-0 view: only for constant data
        return np.broadcast_to(arr, arr.shape)
    raise ValueError(how)


def strided(spec):
    """an array with the given strides (in bytes), as a view of a buffer of its own"""
    dt = np.dtype(spec['t'])
    shape, st = spec['s'], spec['st']
    lo = sum(min(0, (n - 1) * k) for n, k in zip(shape, st) if n)
    hi = sum(max(0, (n - 1) * k) for n, k in zip(shape, st) if n)
    buf = np.zeros(hi - lo + dt.itemsize, dtype='u1')
    arr = np.ndarray(tuple(shape), dt, buf, -lo, tuple(st))
    arr[...] = np.array(spec['a'], dtype=dt).reshape(shape)
    if spec.get('l') == 'R':
        arr.flags.writeable = False
    return arr


def unit_columns(arr, n):
    arr = arr + 1e-4 * np.array([[1.0], [-1.0], [0.5]]) * np.arange(n)
    return arr / np.sqrt((arr ** 2).sum(axis=0))


def mat(spec, env):
    if isinstance(spec, dict):
        if 'r' in spec:
            return env[spec['r']]
        if 'st' in spec:
            return strided(spec)
        if 'a' in spec and 't' in spec:
            return layout(np.array(spec['a'], dtype=spec['t']).reshape(spec['s']) if 's' in spec
                          else np.array(spec['a'], dtype=spec['t']), spec.get('l'))
        if 'tile' in spec:                    # a long batch: repeated columns, each a little different
            base = np.array(spec['tile'], dtype=float)
            n = spec['n']
            arr = base[..., np.arange(n) % base.shape[-1]]
            return np.ascontiguousarray(arr * (1 + 1e-4 * np.arange(n)) if base.ndim == 1 else unit_columns(arr, n))
        if 'np' in spec:
            return np.dtype(spec['t']).type(spec['np'])
        if 'o' in spec:
            cls = own(spec['o']) if 'sub' in spec else getattr(nv, spec['o'])
            obj = cls(*[mat(x, env) for x in spec.get('p', ())], **{k: mat(v, env) for k, v in spec.get('k', {}).items()})
            for name, val in spec.get('set', {}).items():
                setattr(obj, name, mat(val, env))
            if 'sub' in spec:
                obj.label = spec['sub']
            return obj
        if 'm' in spec:
            return getattr(mat(spec['on'], env), spec['m'])(*[mat(x, env) for x in spec.get('p', ())],
                                                            **{k: mat(v, env) for k, v in spec.get('k', {}).items()})
        if 'di' in spec:
            return {k: mat(v, env) for k, v in spec['di'].items()}
        if 'tu' in spec:
            return tuple(mat(x, env) for x in spec['tu'])
        if 'g' in spec:
            return getattr(mat(spec['on'], env), spec['g'])
        raise ValueError(spec)
    if isinstance(spec, list):
        return [mat(x, env) for x in spec]
    return spec


def refs(spec, out):
    if isinstance(spec, dict):
        if 'r' in spec:
            out.add(spec['r'])
        else:
            for v in spec.values():
                refs(v, out)
    elif isinstance(spec, (list, tuple)):
        for v in spec:
            refs(v, out)
    return out


def closure(world, spec):
    """the part of the world (ordered list of [name, spec]) a spec needs"""
    need = refs(spec, set())
    keep = []
    for name, sp in reversed(world):
        if name in need:
            keep.append([name, sp])
            refs(sp, need)
    keep.reverse()
    return keep


def build(world):
    env = {}
    for name, spec in world:
        env[name] = mat(spec, env)
    return env


# ------------------------------------------------------------------ values -> canonical form
def canon(x, depth=0):
    """Nested tuples of primitives and arrays; what two results are compared by."""
    if depth > 12:
        return ('deep',)
    if x is None or isinstance(x, (bool, np.bool_)):
        return ('b', None if x is None else bool(x))
    if isinstance(x, (str, bytes)):
        return ('s', x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ('n', np.array(float(x)))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biuf':
            kind = 'a' if x.ndim else ('b' if x.dtype.kind == 'b' else 'n')
            if kind == 'b':
                return ('b', bool(x))
            if x.dtype.kind == 'b':
                return ('ab', np.array(x, dtype=bool))
            return (kind, np.array(x, dtype=float))
        if x.dtype.kind == 'O':
            return ('ao', x.shape, tuple(canon(v, depth + 1) for v in x.ravel()))
        return ('a?', str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, complex) or isinstance(x, np.complexfloating):
        return ('c', complex(x))
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return ('nt', type(x).__name__, tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, (tuple, list)):
        return ('t' if isinstance(x, tuple) else 'l', tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, dict):
        return ('d', tuple(sorted(((str(k), canon(v, depth + 1)) for k, v in x.items()), key=lambda q: q[0])))
    name = cname(x)
    if name:
        out = []
        for attr in STATE[name] + EXTRA.get(name, ()):
            try:
                out.append((attr, canon(getattr(x, attr), depth + 1)))
            except Exception as exc:
                out.append((attr, ('!', type(exc).__name__)))
        return ('o', name, tuple(out))
    if callable(x):
        return ('f', getattr(x, '__name__', '?'))
    return ('?', type(x).__name__)


RTOL = 1e-10


def _cmp_arr(a, b, rtol):
    if a.shape != b.shape:
        return 'shape %s != %s' % (a.shape, b.shape)
    if a.tobytes() == b.tobytes():
        return None
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return 'NaN pattern differs: %s != %s' % (_short(a), _short(b))
    ia, ib = np.isinf(a), np.isinf(b)
    if not np.array_equal(ia, ib) or not np.array_equal(a[ia], b[ib]):
        return 'infinities differ: %s != %s' % (_short(a), _short(b))
    ok = ~(na | ia)
    if not ok.any():
        return None
    scale = max(1e-3, float(np.max(np.abs(b[ok]))))
    if float(np.max(np.abs(a[ok] - b[ok]))) <= rtol * scale:
        return None
    return '%s != %s' % (_short(a), _short(b))


def _short(a):
    s = np.array2string(np.asarray(a), precision=12, threshold=12, max_line_width=10000).replace('\n', ' ')
    return s if len(s) < 300 else s[:300] + '...'


def diff(a, b, rtol=RTOL, path=''):
    """None if the canonical forms agree, else a description of the first difference"""
    if a[0] != b[0]:
        # a 0-d result and a Python number are the same answer
        if {a[0], b[0]} <= {'n', 'a'} and a[1].shape == b[1].shape:
            return _cmp_arr(a[1], b[1], rtol)
        return '%s: kind %s != %s (%s | %s)' % (path, a[0], b[0], show(a), show(b))
    k = a[0]
    if k in ('n', 'a'):
        d = _cmp_arr(a[1], b[1], rtol)
        return d and '%s: %s' % (path, d)
    if k == 'ab':
        if a[1].shape != b[1].shape or not np.array_equal(a[1], b[1]):
            return '%s: %s != %s' % (path, a[1], b[1])
        return None
    if k in ('t', 'l', 'ao', 'nt'):
        if len(a[-1]) != len(b[-1]) or a[1:-1] != b[1:-1]:
            return '%s: structure differs: %s != %s' % (path, show(a), show(b))
        for i, (x, y) in enumerate(zip(a[-1], b[-1])):
            d = diff(x, y, rtol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if k in ('o', 'd'):
        if k == 'o' and a[1] != b[1]:
            return '%s: class %s != %s' % (path, a[1], b[1])
        if [n for n, _ in a[-1]] != [n for n, _ in b[-1]]:
            return '%s: fields differ' % path
        for (n, x), (_n, y) in zip(a[-1], b[-1]):
            d = diff(x, y, rtol, '%s.%s' % (path, n))
            if d:
                return d
        return None
    if k == 'c':
        return None if abs(a[1] - b[1]) <= rtol * max(1, abs(b[1])) else '%s: %s != %s' % (path, a[1], b[1])
    return None if a == b else '%s: %r != %r' % (path, a[1:], b[1:])


def same_bits(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ('n', 'a', 'ab'):
        return a[1].shape == b[1].shape and a[1].tobytes() == b[1].tobytes()
    if a[0] in ('t', 'l', 'ao', 'nt'):
        return len(a[-1]) == len(b[-1]) and all(same_bits(x, y) for x, y in zip(a[-1], b[-1]))
    if a[0] in ('o', 'd'):
        return len(a[-1]) == len(b[-1]) and all(same_bits(x[1], y[1]) for x, y in zip(a[-1], b[-1]))
    return a == b


def show(c, n=400):
    def f(c):
        if c[0] in ('n', 'a', 'ab'):
            return _short(c[1])
        if c[0] in ('t', 'l', 'ao', 'nt'):
            return '(' + ', '.join(f(x) for x in c[-1]) + ')'
        if c[0] == 'o':
            return c[1] + '(' + ', '.join('%s=%s' % (k, f(v)) for k, v in c[2]) + ')'
        if c[0] == 'd':
            return '{' + ', '.join('%s: %s' % (k, f(v)) for k, v in c[1]) + '}'
        return repr(c[1]) if len(c) > 1 else c[0]
    s = f(c)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------ fingerprints of live state
def fingerprint(x, depth=0):
    """Exact public state of a value: bytes, shape, dtype, writability; class and attributes."""
    if depth > 12:
        return ('deep',)
    if isinstance(x, np.ndarray):
        return ('arr', x.dtype.str, x.shape, bool(x.flags.writeable), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fingerprint(v, depth + 1) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple((repr(k), fingerprint(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, float):
        return ('float', 'nan' if math.isnan(x) else x)
    if isinstance(x, np.generic):
        return ('np', x.dtype.str, x.tobytes())
    name = cname(x)
    if name:
        out = []
        for attr in STATE[name]:
            try:
                out.append((attr, fingerprint(getattr(x, attr), depth + 1)))
            except Exception as exc:
                out.append((attr, ('!', type(exc).__name__)))
        return ('obj', name, tuple(out))
    return ('val', type(x).__name__, repr(x) if isinstance(x, (str, int, bool, bytes, type(None))) else '')


def fp_diff(a, b, path=''):
    if a == b:
        return None
    if a[0] != b[0]:
        return '%s: %s became %s' % (path, a[0], b[0])
    if a[0] == 'arr':
        for i, what in ((1, 'dtype'), (2, 'shape'), (3, 'writability')):
            if a[i] != b[i]:
                return '%s: %s changed from %s to %s' % (path, what, a[i], b[i])
        x = np.frombuffer(a[4], dtype=a[1]).reshape(a[2])
        y = np.frombuffer(b[4], dtype=b[1]).reshape(b[2])
        return '%s: values changed from %s to %s' % (path, _short(x), _short(y))
    if a[0] in ('list', 'tuple', 'obj', 'dict'):
        xs, ys = a[-1], b[-1]
        if len(xs) != len(ys):
            return '%s: length changed' % path
        for i, (x, y) in enumerate(zip(xs, ys)):
            if a[0] in ('obj', 'dict'):
                d = fp_diff(x[1], y[1], '%s.%s' % (path, x[0]))
            else:
                d = fp_diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
    return '%s: %s became %s' % (path, str(a)[:150], str(b)[:150])


def fingerprint_env(env):
    return {k: fingerprint(v) for k, v in env.items()}


def env_diff(a, b):
    for k in a:
        d = fp_diff(a[k], b[k], k)
        if d:
            return d
    return None


# ------------------------------------------------------------------ live values -> specs
def snapshot(env, names=None):
    """A world spec that rebuilds the current public values of env in a fresh process.

    Sharing of Python objects is kept; sharing of memory between arrays is not (a fresh
    process has the same values, which is all an answer may depend on).
    """
    world, memo, keep = [], {}, []

    def spec(x):
        if x is None or isinstance(x, (bool, str)):
            return x
        if isinstance(x, (np.bool_,)):
            return bool(x)
        if isinstance(x, np.generic):
            return {'np': x.item(), 't': x.dtype.str}
        if isinstance(x, (int, float)):
            return x
        if isinstance(x, tuple):
            return {'tu': [spec(v) for v in x]}
        if isinstance(x, list):
            return [spec(v) for v in x]
        key = id(x)
        if key in memo:
            return {'r': memo[key]}
        keep.append(x)
        if isinstance(x, np.ndarray):
            name = 'A%d' % len(memo)
            sp = {'a': x.ravel().tolist(), 't': x.dtype.str, 's': list(x.shape)}
            if not x.flags.writeable:
                sp['l'] = 'R'
            if not x.flags.c_contiguous and x.size and x.dtype.kind in 'biuf':
                sp['st'] = list(x.strides)
        else:
            cn = cname(x)
            if cn is None:
                raise TypeError('cannot snapshot %s' % type(x).__name__)
            vals = {a: spec(getattr(x, a)) for a in STATE[cn]}
            name = 'O%d' % len(memo)
            sp = fresh_spec(cn, vals)
            if type(x) is globals().get('My' + cn):
                sp['sub'] = x.label
        memo[key] = name
        world.append([name, sp])
        return {'r': name}

    binding = {}
    for k in (names if names is not None else env):
        binding[k] = spec(env[k])
    return world, binding


def fresh_spec(cn, v):
    if cn == 'FrameE':
        return {'o': cn, 'p': [v['a'], v['f']], 'k': {'name': v['name']}, 'set': {'R_Ee': v['R_Ee']}}
    if cn == 'GeoPoint':
        return {'o': cn, 'p': [0.0, 0.0, 0.0], 'k': {'frame': v['frame']},
                'set': {k: v[k] for k in ('latitude', 'longitude', 'z')}}
    if cn == 'Nvector':
        return {'o': cn, 'p': [v['normal'], v['z'], v['frame']]}
    if cn in ('ECEFvector', 'Pvector'):
        return {'o': cn, 'p': [v['pvector'], v['frame'], v['scalar']]}
    if cn in ('FrameN', 'FrameL', 'FrameB'):
        sp = {'o': cn, 'p': [v['nvector']], 'set': dict(v)}
        return sp
    if cn == 'GeoPath':
        return {'o': cn, 'p': [v['point_a'], v['point_b']]}
    raise KeyError(cn)
