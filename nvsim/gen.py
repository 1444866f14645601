"""Seeded generation of worlds (shared objects and arrays) and operations on them.

Values come from small pools with deliberate look-alikes: positions and frames that differ a
little, the same frame name with other parameters, both axes orientations, equal values in
other types and memory layouts - what a cache, a memo or shared scratch space confuses.
"""
import copy
import json
import math

import numpy as np

LAT0 = [0.0, 10.0, 51.0, 60.1, -35.5, 89.9999, 45.0, -0.001]
LON0 = [0.0, 5.0, -120.25, 179.9, -179.9, 90.0, 3.3, 0.5]
DEPTH = [0, 0.0, -100.0, 3.0, 471.9, -10000.0, 1]
NAMES = ['WGS84', 'wgs72', 'Airy 1858', 'grs80', 'Bessel', 'Hayford', 'WGS66', 'nad27', 18, 5]
BAD_NAMES = ['nope', '', 99, 'wgs', 'everest', 'clarke', 'Fisher', 'airy', 'nad', 'WGS 8', 'ETRS89', 'international (hayford)', '18', 'bessel 1842', 'grs80/wgs84']
OWN_NAMES = ['WGS84', 'mine', 'mine', 'S\u00fcdland', '\u5730\u7403', 'a b', '', 'nan']
DT = ['f8', 'f8', 'f8', 'f8', 'f4']
LAY = ['C', 'C', 'C', 'F', 'S', 'R', 'N']


def arr(v, t='f8', lay=None):
    a = np.asarray(v, dtype=float)
    sp = {'a': a.ravel().tolist(), 't': t, 's': list(a.shape)}
    if lay and lay != 'C':
        sp['l'] = lay
    return sp


def spell(r, name):
    """another spelling of an ellipsoid's name (any case, any spacing)"""
    if not isinstance(name, str):
        return name
    out = []
    for c in name.replace(' ', ''):
        out.append(c.upper() if r.random() < 0.4 else c.lower())
        if r.random() < 0.15:
            out.append(' ' * r.choice([1, 1, 2, 3]))
    return ''.join(out)


def near(r, x):
    """a value that looks much like x: equal in another type, a hair off, negated, exchanged"""
    if isinstance(x, bool) or x is None:
        return x
    k = r.random()
    if k < 0.35:
        return x + r.choice([1e-6, -1e-6, 1e-3, 0.5]) * (1 if abs(x) < 1000 else 1000)
    if k < 0.5 and abs(x) < 1e15 and float(x) == int(x):
        return int(x) if isinstance(x, float) else float(x)
    if k < 0.6:
        return -x
    if k < 0.7:
        return {'np': float(x), 't': 'f8'}
    return x


def wander(r, op):
    """the same call with other scalars and small arrays, rarely twice the same"""
    if isinstance(op, dict):
        if 'r' in op:
            return op
        if 'a' in op and 't' in op:
            if len(op['a']) > 9 or op['t'] != 'f8' or op.get('s') == [3, 3]:
                return op
            c = 1 + r.uniform(-0.05, 0.05)
            return dict(op, a=[x * c for x in op['a']])
        if 'np' in op:
            return dict(op, np=op['np'] + r.uniform(-0.1, 0.1))
        out = dict(op)
        for k in ('p', 'tu', 'on'):
            if k in op:
                out[k] = wander(r, op[k])
        if 'k' in op:
            out['k'] = {n: v if n in FIXED or isinstance(v, bool) else wander(r, v) for n, v in op['k'].items()}
        if op.get('f') in LOOKUP:
            out['p'] = op['p']
        return out
    if isinstance(op, list):
        return [wander(r, x) for x in op]
    if isinstance(op, float) and math.isfinite(op) and abs(op) < 1e12:
        return op * (1 + r.uniform(-0.05, 0.05)) + (r.uniform(-1e-3, 1e-3) if abs(op) > 1e-2 or op == 0 else 0)
    if isinstance(op, int) and not isinstance(op, bool):
        return op + r.choice([0, 0, r.uniform(-0.5, 0.5)]) if abs(op) < 1e12 else op
    return op


def vary(r, op):
    """the same call with look-alike scalars, names and small arrays"""
    if isinstance(op, dict):
        if 'r' in op:
            return op
        if 'a' in op and 't' in op:
            if len(op['a']) > 9 or op['t'] != 'f8' or r.random() < 0.4:
                return op
            if op.get('s') == [3, 3] or r.random() < 0.2:      # zeros of the other sign
                return dict(op, a=[-x if x == 0 and r.random() < 0.6 else x for x in op['a']])
            c = 1 + r.choice([1e-6, -1e-6, 1e-4, 0.1])
            return dict(op, a=[x * c for x in op['a']])
        if 'np' in op:
            return dict(op, np=op['np'] + r.choice([0, 1e-6, 0.25]))
        out = {}
        for k, v in op.items():
            if k in ('p', 'tu'):
                out[k] = [vary(r, x) if isinstance(x, (dict, list)) else spell(r, x) if x in NAMES and isinstance(x, str) else
                          near(r, x) if isinstance(x, (int, float)) and not isinstance(x, bool) and op.get('f') not in LOOKUP else x for x in v]
            elif k == 'k':
                out[k] = {n: x if n in FIXED else vary(r, x) if isinstance(x, dict) else spell(r, x) if n == 'name' else
                          near(r, x) if isinstance(x, (int, float)) else x for n, x in v.items()}
            elif k == 'on' and isinstance(v, dict):
                out[k] = vary(r, v)
            else:
                out[k] = v
        return out
    if isinstance(op, list):
        return [near(r, x) if isinstance(x, (int, float)) else vary(r, x) for x in op]
    return op


def slots(op, out, inside=()):
    """places of the plain numbers in a call"""
    if isinstance(op, dict):
        if 'r' in op or 'a' in op or 'np' in op or op.get('f') in LOOKUP or 'prog' in op:
            return out
        for k in ('p', 'tu', 'on'):
            if k in op:
                slots(op[k], out, inside + (k,))
        for n, v in op.get('k', {}).items():
            if n not in FIXED:
                slots(v, out, inside + ('k', n))
    elif isinstance(op, list):
        for i, x in enumerate(op):
            slots(x, out, inside + (i,))
    elif isinstance(op, (int, float)) and not isinstance(op, bool):
        out.append(inside)
    return out


def put_at(op, place, x):
    op = copy.deepcopy(op)
    at = op
    for k in place[:-1]:
        at = at[k]
    at[place[-1]] = x
    return op


def value_at(op, place):
    for k in place:
        op = op[k]
    return op


UNROLLS = ('direct', 'inverse', 'displace', 'distance_and_azimuth')
CHOICES = {'method': ('ellipsoid', 'greatcircle', 'euclidean'), 'kind': ('linear', 'nearest', 'cubic'), 'mode': ('interp', 'nearest', 'mirror'), 'axes': ('e', 'E')}


def options(spec, out, path=()):
    """where a call says how it wants its answer"""
    if isinstance(spec, dict):
        for k, v in spec.get('k', {}).items() if isinstance(spec.get('k'), dict) else ():
            if isinstance(v, bool) or k in CHOICES or k in ('a', 'f', 'R_Ee', 'z', 'radius', 'wander_azimuth'):
                out.append((path + ('k',), k))
        if spec.get('m') in UNROLLS:
            out.append((path + ('k',), 'long_unroll'))
            out.append((path + ('k',), 'degrees'))
        for k, v in spec.items():
            options(v, out, path + (k,))
    elif isinstance(spec, list):
        for i, v in enumerate(spec):
            options(v, out, path + (i,))
    return out


def flip(r, op, path, name):
    """the call with that option said otherwise, or not said"""
    op = json.loads(json.dumps(op))
    at = op
    for k in path:
        at = at.setdefault(k, {}) if isinstance(at, dict) else at[k]
    v = at.get(name)
    if name in ('long_unroll', 'degrees') or isinstance(v, bool):
        at[name] = not v
    elif name in CHOICES:
        at[name] = r.choice([x for x in CHOICES[name] if x != v])
    else:
        del at[name]
    return op


def twins(r, op):
    """two calls that differ in one small way which a careless key does not see (or None)"""
    opts = options(op, [])
    if opts and r.random() < 0.3:
        return op, flip(r, op, *r.choice(opts))
    pl = slots(op, [])
    if not pl:
        return None
    p = r.choice(pl)
    x = value_at(op, p)
    how = r.choice(['hash', 'hash', 'swap', 'swap', 'trade', 'tiny', 'digits', 'turn', 'sign', 'type', 'zero', 'single'])
    if how in ('swap', 'trade'):
        q = [y for y in pl if y != p and y[:-1] == p[:-1]]
        if not q:
            how = 'hash'
    if how == 'hash':                  # the two numbers with the same hash
        return put_at(op, p, -1.0), put_at(op, p, -2.0)
    if how == 'swap':
        q = r.choice(q)
        y = value_at(op, q)
        if x == y:
            x += 0.25
        return put_at(put_at(op, p, x), q, y), put_at(put_at(op, p, y), q, x)
    if how == 'trade':
        q = r.choice(q)
        return op, put_at(put_at(op, p, x + 0.125), q, value_at(op, q) - 0.125)
    if how == 'tiny':
        return op, put_at(op, p, x + 3e-9 * max(1.0, abs(x)))
    if how == 'digits':                # the same to so many digits
        return put_at(op, p, x + 0.1234567), put_at(op, p, x + 0.1234567 + r.choice([3e-7, 2e-5, 4e-4, 4e-3]))
    if how == 'single':
        return put_at(op, p, 0.1), put_at(op, p, float(np.float32(0.1)))
    if how == 'turn':
        return op, put_at(op, p, x + r.choice([360.0, -360.0, 2 * math.pi]))
    if how == 'sign':
        return put_at(op, p, x or 0.3), put_at(op, p, -(x or 0.3))
    if how == 'zero':
        return put_at(op, p, 0.0), put_at(op, p, -0.0)
    return put_at(op, p, 1), put_at(op, p, 1.0)


LOOKUP = ('get_ellipsoid', 'select_ellipsoid', 'nthroot', 'E_rotation')
FIXED = ('axes', 'method', 'kind', 'window_length', 'polyorder', 'mode', 'degrees', 'long_unroll', 'norm_zero_vector', 'atol', 'rtol')


def rf(n):
    return {'r': n}


def nvec(lat, lon, axes='e'):
    lat, lon = np.radians(np.atleast_1d(lat)), np.radians(np.atleast_1d(lon))
    n_e = np.vstack((np.sin(lat), np.sin(lon) * np.cos(lat), -np.cos(lon) * np.cos(lat)))
    R = np.array([[0, 0, 1.0], [0, 1.0, 0], [-1.0, 0, 0]]) if axes == 'e' else np.eye(3)
    return R.T.dot(n_e)


NEAT = {'lat': (0.0, 90.0, -90.0, 45.0, -45.0, 0.0, 30.0), 'lon': (0.0, 90.0, -90.0, 180.0, -180.0, 45.0, 135.0, 0.0)}
AXES = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [-1.0, 0, 0], [0, -1.0, 0], [0, 0, -1.0], [0.6, 0.8, 0], [0, -0.6, 0.8]]


def axis_vectors(r, n):
    """n-vectors along the axes: positions at poles, quarter circles apart, opposite or equal to each other"""
    return np.array([r.choice(AXES) for _ in range(n)]).T


WILD = (math.nan, math.nan, math.inf, -math.inf, 1e300, -1e300, 1e17, 1e9, -1e7, 720.0, -1080.5, 1e-320, -0.0, 90.0000001, 180.0000001)


class Gen:
    def __init__(self, rng, n=None, sizes=(1, 2, 2, 3, 3, 4, 5, 7)):
        self.wild = 0.0          # how often a value is one no sensible caller would give
        self.neat = 0.0          # how often a value is special: poles, quarter circles, zero angles, no rotation
        self.odd = 0.0           # how often an array has a form callers use more rarely: whole numbers, single precision, foreign byte order, other shapes
        self.rng = rng
        self.n = n if n is not None else rng.choice(sizes)
        self.world = []
        self.kinds = {}
        self.count = 0

    # ------------------------------------------------------------ helpers
    def put(self, kind, spec, prefix=None):
        self.count += 1
        name = '%s%d' % (prefix or kind, self.count)
        self.world.append([name, spec])
        self.kinds.setdefault(kind, []).append(name)
        return rf(name)

    def any(self, *kinds):
        pool = [x for k in kinds for x in self.kinds.get(k, ())]
        return rf(self.rng.choice(pool))

    def lat(self):
        r = self.rng
        if self.wild and r.random() < self.wild:
            return r.choice(WILD)
        if self.neat and r.random() < self.neat:
            return r.choice(NEAT['lat'])
        x = r.choice(LAT0)
        return x if r.random() < 0.5 else x + r.choice([1e-6, -1e-6, 0.25, 1e-3]) if r.random() < 0.6 else \
            round(r.uniform(-89, 89), 6)

    def lon(self):
        r = self.rng
        if self.wild and r.random() < self.wild:
            return r.choice(WILD)
        if self.neat and r.random() < self.neat:
            return r.choice(NEAT['lon'])
        x = r.choice(LON0)
        return x if r.random() < 0.5 else x + r.choice([1e-6, -1e-6, 0.25, 1e-3]) if r.random() < 0.6 else \
            round(r.uniform(-179, 179), 6)

    def lats(self, n=None):
        return [self.lat() for _ in range(n or self.n)]

    def lons(self, n=None):
        return [self.lon() for _ in range(n or self.n)]

    def z(self):
        if self.wild and self.rng.random() < self.wild:
            return self.rng.choice(WILD)
        return self.rng.choice(DEPTH)

    def scal(self, x):
        """a scalar in one of the forms callers use"""
        r = self.rng.random()
        if r < 0.75 or isinstance(x, (str, bool)):
            return x
        if r < 0.9:
            return {'np': float(x), 't': 'f8'}
        return arr(x)

    def vec(self, xs):
        r = self.rng.random()
        if r < 0.15:
            return [float(x) for x in xs]
        return arr(xs, lay=self.rng.choice(LAY))

    # ------------------------------------------------------------ world
    def frame(self):
        r = self.rng
        k = r.random()
        if k < 0.2:
            sp = {'o': 'FrameE'}
        elif k < 0.4:
            sp = {'o': 'FrameE', 'k': {'name': r.choice(NAMES)}}
            if r.random() < 0.3:
                sp['k']['name'] = spell(r, sp['k']['name'])
        elif k < 0.55:
            sp = {'o': 'FrameE', 'k': {'a': 6371009.0 + r.choice([0, 0, 1e-3]), 'f': 0}}
        elif k < 0.7:
            sp = {'o': 'FrameE', 'k': {'a': 6378137.0, 'f': 1 / 298.257223563 * r.choice([1, 1, 1 + 1e-6, 1.5]),
                                       'name': r.choice(OWN_NAMES)}}
        elif k < 0.85:
            sp = {'o': 'FrameE', 'k': {'axes': 'E', 'name': r.choice(['WGS84', 'WGS84', 'wgs72'])}}
        else:
            sp = {'o': 'FrameE', 'k': {'a': r.choice([6378137, 6378137.0, 6378138.0, 6400000.0]), 'f': r.choice([0, 0.0, 0.003, 1 / 297.0]),
                                       'axes': r.choice(['e', 'E'])}}
        return sp

    def axes_of(self, fr):
        spec = dict((n, s) for n, s in self.world)[fr['r']]
        return spec.get('k', {}).get('axes', 'e')

    def base_world(self):
        r, n = self.rng, self.n
        if r.random() < 0.12:
            self.wild = r.choice([0.05, 0.2])
        elif r.random() < 0.16:
            self.odd = r.choice([0.3, 0.7])
            if r.random() < 0.5:
                self.neat = 0.4
        elif r.random() < 0.3:
            self.neat = r.choice([0.4, 0.9])
        for _ in range(r.choice([2, 2, 3])):
            self.put('fr', self.frame())
        if r.random() < 0.6:       # a second frame that looks exactly like the first one
            self.put('fr', dict(self.world[0][1]))
        for _ in range(r.choice([2, 3, 3])):
            sp = {'o': 'GeoPoint', 'p': [self.lat(), self.lon(), self.z()], 'k': {'frame': self.any('fr'), 'degrees': True}}
            if r.random() < 0.12:      # on the default ellipsoid
                del sp['k']['frame']
            if r.random() < 0.15:
                sp['p'] = [math.radians(sp['p'][0]), math.radians(sp['p'][1]), sp['p'][2]]
                del sp['k']['degrees']
            self.put('gs', sp)
        for _ in range(r.choice([1, 2])):
            z = r.choice([0, self.vec([float(self.z()) for _ in range(n)])])
            self.put('gv', {'o': 'GeoPoint', 'p': [self.vec(self.lats()), self.vec(self.lons()), z],
                            'k': {'frame': self.any('fr'), 'degrees': True}})
        # raw arrays, shared between functional calls and objects
        for _ in range(r.choice([2, 3])):
            self.put('na', arr(self.nvs(n), lay=r.choice(LAY)))
        for _ in range(3 if self.neat else 2):
            self.put('n1', arr(self.nvs(1), lay=r.choice(LAY)))
        self.put('nu', arr(nvec(self.lats(), self.lons()) * r.choice([2.0, 0.5, 1.05])))
        self.put('pa', arr(nvec(self.lats(), self.lons()) * 6371e3, lay=r.choice(LAY)))
        self.put('d3', arr(np.array([[r.uniform(-3e3, 3e3) for _ in range(n)] for _ in range(3)]), lay=r.choice(LAY)))
        self.put('la', self.vec([math.radians(x) for x in self.lats()]), 'la')
        self.put('lo', self.vec([math.radians(x) for x in self.lons()]), 'lo')
        self.put('za', arr([float(self.z()) for _ in range(n)], lay=r.choice(LAY)))
        self.put('an', arr([0.0] * n if r.random() < self.neat / 2 else [r.choice(WILD) if self.wild and r.random() < self.wild else r.uniform(-3, 3) for _ in range(n)], lay=r.choice(LAY)))
        self.put('an', arr([r.choice([0.0, math.pi / 2, -math.pi / 2, math.pi]) if r.random() < self.neat else r.uniform(-1.5, 1.5) for _ in range(n)]))
        self.put('R1', arr(self.rot(), lay=r.choice(['C', 'F', 'R', 'S'])))
        self.put('Rn', arr(np.dstack([self.rot() for _ in range(max(2, n))])))
        for _ in range(2):
            sp = {'o': 'Nvector', 'p': [self.any('n1'), self.z()], 'k': {'frame': self.any('fr')} if r.random() < 0.85 else {}}
            self.put('ns', sp)
        self.put('nv', {'o': 'Nvector', 'p': [self.any('na'), r.choice([0, self.any('za')])], 'k': {'frame': self.any('fr')}})
        self.put('es', {'m': 'to_ecef_vector', 'on': self.any('gs', 'ns')})
        self.put('ev', {'m': 'to_ecef_vector', 'on': self.any('gv', 'nv')})
        self.put('es', {'o': 'ECEFvector', 'p': [arr(nvec(self.lat(), self.lon()) * 6371e3)], 'k': {'frame': self.any('fr')} if r.random() < 0.85 else {}})
        pts = ('gs', 'gs', 'ns', 'es')
        self.put('lf', {'o': 'FrameN', 'p': [self.any(*pts)]})
        self.put('lf', {'o': 'FrameL', 'p': [self.any(*pts)], 'k': {'wander_azimuth': r.choice([0, 0.5, -1.2])}})
        self.put('lf', {'o': 'FrameB', 'p': [self.any(*pts), r.choice([0, 30.0]), 20, 10], 'k': {'degrees': True}})
        if n > 1:
            k = r.random()
            if k < 0.5:
                self.put('lv', {'o': r.choice(['FrameN', 'FrameL']), 'p': [self.any('gv', 'nv')]})
            elif k < 0.7:
                self.put('lv', {'o': 'FrameL', 'p': [self.any('gv', 'nv')], 'k': {'wander_azimuth': self.angles()}})
            else:
                self.put('lv', {'o': 'FrameB', 'p': [self.any('gv', 'nv'), self.angles(), self.angles(), r.choice([0, 0.1, self.angles()])]})
        self.put('pv', {'o': 'Pvector', 'p': [arr([[r.uniform(-3e3, 3e3)] for _ in range(3)])], 'k': {'frame': self.any('lf')}})
        self.put('pv', {'m': 'Pvector', 'on': self.any('lf'), 'p': [self.any('d3')]})
        for _ in range(2):
            # both ends in one frame most of the time
            fr = self.any('fr')
            mk = lambda: self.put('gs', {'o': 'GeoPoint', 'p': [self.lat(), self.lon(), 0], 'k': {'frame': fr, 'degrees': True}})
            a, b = (mk(), mk()) if r.random() < 0.8 else (self.any('gs'), self.any('gs'))
            self.put('pt', {'o': 'GeoPath', 'p': [a, b]})
        if r.random() < 0.5:
            self.put('pw', {'o': 'GeoPath', 'p': [self.any('gv', 'nv'), self.any('gs', 'gv')]})
        tt = sorted(r.sample(range(0, 60), max(4, n)))
        if r.random() < 0.25:      # fixes in the order of their arrival
            r.shuffle(tt)
        self.put('tt', arr(tt, lay=r.choice(['C', 'C', 'C', 'S', 'R'])))
        self.put('tn', arr(nvec(self.lats(max(4, n)), self.lons(max(4, n)))))
        self.put('tz', arr([float(self.z()) for _ in range(max(4, n))]))
        self.put('ti', arr([r.uniform(0, 60) for _ in range(5)]))
        if r.random() < 0.15:      # long batches
            m = r.choice([65, 130, 257, 1030])
            for _ in range(2):
                self.put('nb', {'tile': nvec(self.lats(3), self.lons(3)).tolist(), 'n': m})
            self.put('zb', {'tile': [float(self.z()) for _ in range(5)], 'n': m})
            self.put('nB', {'o': 'Nvector', 'p': [self.any('nb'), r.choice([0, self.any('zb')])], 'k': {'frame': self.any('fr')}})
        if 'nb' in self.kinds or r.random() < 0.15:      # middling batches, for what takes long
            m = r.choice([17, 24, 33, 40])
            self.put('lm', {'tile': [math.radians(x) for x in self.lats(3)], 'n': m})
            self.put('lm', {'tile': [math.radians(x) for x in self.lats(2)], 'n': m})
            self.put('zm', {'tile': [float(self.z()) for _ in range(3)], 'n': m})
            self.put('gm', {'o': 'GeoPoint', 'p': [self.any('lm'), self.any('lm'), r.choice([0, self.any('zm')])], 'k': {'frame': self.any('fr')}})
        if r.random() < 0.6:       # paths as lists, to be passed again and again
            self.put('pl', [self.any('n1'), self.any('n1')])
            self.put('pl', [self.any('na', 'nu', 'n1'), self.any('na', 'n1')])
        if r.random() < 0.15:      # nested lists in the place of arrays
            specs = dict((n_, s) for n_, s in self.world)
            for kind in r.sample(['na', 'n1', 'pa', 'd3', 'R1', 'an', 'la', 'lo'], 4):
                sp = specs[self.any(kind)['r']]
                if isinstance(sp, dict) and 'a' in sp and 't' in sp:
                    self.put(kind, np.array(sp['a'], dtype=sp['t']).reshape(sp.get('s', -1)).tolist())
        if self.odd:
            self.odd_forms()
        if r.random() < 0.1:       # the program's own subclasses
            for name, sp in self.world:
                if isinstance(sp, dict) and 'o' in sp and r.random() < 0.6:
                    sp['sub'] = r.choice(['leg 7', None, 'x'])
        return self.world

    def odd_forms(self):
        r = self.rng
        specs = dict((n, s) for n, s in self.world)
        for kind in ('na', 'n1', 'nu', 'pa', 'd3', 'la', 'lo', 'za', 'an', 'R1', 'Rn', 'tt', 'tn', 'tz', 'ti'):
            for name in self.kinds.get(kind, ()):
                sp = specs[name]
                if not isinstance(sp, dict) or 'a' not in sp or r.random() > self.odd:
                    continue
                k = r.choice(['i8', 'i4', 'f4', '>f8', '>f8', '-0', 'shape'])
                if kind == 'tt':
                    k = r.choice(['i8', 'i8', 'i4', 'f4', '>f8', 'list'])
                if k in ('i8', 'i4'):
                    if kind in ('na', 'n1', 'tn', 'nu'):
                        m = len(sp['a']) // 3
                        sp['a'] = np.array([r.choice(AXES[:6]) for _ in range(m)]).T.ravel().astype(int).tolist()
                    elif kind in ('R1', 'Rn') or not all(math.isfinite(x) and abs(x) < 1e9 for x in sp['a']):
                        continue
                    else:
                        sp['a'] = [int(x) for x in sp['a']]
                    sp['t'] = k
                elif k in ('f4', '>f8'):
                    sp['t'] = k
                elif k == '-0':
                    sp['a'] = [-0.0 if abs(x) < 0.5 and r.random() < 0.7 else x for x in sp['a']]
                elif k == 'list' and len(sp['a']) > 1:
                    for key in ('t', 's', 'l'):
                        sp.pop(key, None)
                    i = [n for n, _ in self.world].index(name)
                    self.world[i][1] = sp.pop('a')
                elif kind == 'ti':
                    sp['a'], sp['s'] = r.choice([(sp['a'][:4], [2, 2]), (sp['a'][:1], []), (sp['a'][:3], [1, 3]), (sp['a'][:3], [3, 1])])

    def angles(self):
        return self.rng.choice([self.any('an'), self.any('an'), arr([0.0] * self.n)])

    def nvs(self, n):
        if self.neat and self.rng.random() < self.neat:
            return axis_vectors(self.rng, n)
        return nvec(self.lats(n), self.lons(n))

    def rot(self):
        r = self.rng
        if self.neat and r.random() < self.neat:
            m = np.eye(3)
            for _ in range(r.choice([0, 0, 1, 2])):
                k = r.choice([0, 1, 2])
                q = np.zeros((3, 3))
                q[k, k] = 1
                q[(k + 1) % 3, (k + 2) % 3], q[(k + 2) % 3, (k + 1) % 3] = -1, 1
                m = m.dot(q)
            if r.random() < 0.3:
                m = np.array(half_turn(r)).reshape(3, 3)
            return m
        return _rot(r)

    # ------------------------------------------------------------ operations
    def point(self):
        return self.any('gs', 'gs', 'gv', 'ns', 'nv', 'es', 'ev')

    def spoint(self):
        return self.any('gs', 'gs', 'gs', 'ns', 'es')

    def ab(self):
        """two positions that usually have the same frame"""
        if self.rng.random() < 0.75:
            fr = {}
            for name, sp in self.world:
                f = sp.get('k', {}).get('frame') if isinstance(sp, dict) else None
                if isinstance(f, dict) and 'r' in f and 'o' in sp:
                    fr.setdefault(f['r'], []).append(name)
            pools = [v for v in fr.values() if len(v) >= 2]
            if pools:
                p = self.rng.choice(pools)
                return rf(self.rng.choice(p)), rf(self.rng.choice(p))
        return self.point(), self.point()

    def geo_ab(self):
        a, b = self.ab()
        if not a['r'].startswith('g'):
            a = {'m': 'to_geo_point', 'on': a}
        return a, b

    def af(self):
        r = self.rng
        k = {}
        if r.random() < 0.4:
            k['a'] = r.choice([6378137, 6371009.0, 6378137.5])
            k['f'] = r.choice([0, 1 / 298.257223563, 1 / 297.0])
        if r.random() < 0.3:
            k['R_Ee'] = r.choice([{'g': 'R_Ee', 'on': self.any('fr')}, {'a': [1., 0, 0, 0, 1, 0, 0, 0, 1], 't': 'f8', 's': [3, 3]}])
        return k

    def dep(self):
        return self.rng.choice([0, 0.0, -50.0, 3, self.any('za')])

    def op(self, only=None):
        name = self.rng.choice(only or self.names())
        return getattr(self, 'op_' + name)()

    @classmethod
    def names(cls):
        return [x[3:] for x in dir(cls) if x.startswith('op_')]

    def F(self, f, /, *p, **k):
        op = {'f': f, 'p': list(p)}
        if k:
            op['k'] = k
        return op

    def M(self, on, m, /, *p, **k):
        op = {'m': m, 'on': on, 'p': list(p)}
        if k:
            op['k'] = k
        return op

    # long batches
    def op_middling(self):
        r = self.rng
        if 'lm' not in self.kinds:
            return self.op_convert()
        k = r.randint(0, 5)
        if k < 2:
            return self.M(self.any('fr'), r.choice(['direct', 'inverse']), self.any('lm'), self.any('lm'), r.choice([0.1, self.any('lm')]), r.choice([0.5, self.any('lm')]),
                          z=r.choice([0, self.any('zm')]), degrees=r.choice([True, False]))
        if k == 2:
            return self.M(self.any('gm'), 'displace', 1000.0, r.choice([0.3, self.any('lm')]), method=r.choice(['ellipsoid', 'greatcircle']))
        if k == 3:
            return self.M(self.any('gm'), 'distance_and_azimuth', self.any('gm', 'gs'), method=r.choice(['ellipsoid', 'greatcircle']))
        if k == 4:
            return self.M(self.any('gm'), r.choice(['to_nvector', 'to_ecef_vector']))
        return {'repr': self.any('gm')}

    def op_long(self):
        r = self.rng
        if 'nb' not in self.kinds:
            return self.op_convert()
        k = r.randint(0, 11)
        if k == 0:
            return self.F(r.choice(['n_E2lat_lon', 'unit', 'n_E2R_EN', 'mean_horizontal_position']), self.any('nb'))
        if k == 1:
            return self.F('n_EB_E2p_EB_E', self.any('nb'), r.choice([0, self.any('zb')]), **self.af())
        if k == 2:
            return self.F('p_EB_E2n_EB_E', {'g': 'pvector', 'on': {'m': 'to_ecef_vector', 'on': self.any('nB')}}, **self.af())
        if k == 3:
            return self.F(r.choice(['great_circle_distance', 'euclidean_distance', 'n_EA_E_and_n_EB_E2azimuth', 'great_circle_normal']),
                          self.any('nb', 'n1'), self.any('nb'))
        if k == 4:
            return self.F(r.choice(['cross_track_distance', 'on_great_circle', 'on_great_circle_path', 'closest_point_on_great_circle']),
                          self.pathn() if r.random() < 0.4 else {'tu': [self.any('n1'), self.any('n1')]}, self.any('nb'))
        if k == 5:
            return self.M(self.any('nB'), r.choice(['to_geo_point', 'to_ecef_vector', 'mean']))
        if k == 6:
            return self.F(r.choice(['delta_E', 'delta_N']), self.any('nB', 'ns'), self.any('nB'))
        if k == 7:
            return self.F('interp_nvectors', self.any('zb'), self.any('tt'), self.any('tn'), kind=r.choice(['linear', 'nearest', 'cubic']))
        if k == 8:
            return self.F('n_EA_E_distance_and_azimuth2n_EB_E', self.any('nb'), 0.01, r.choice([0.3, self.any('zb')]))
        if k == 9:
            return self.F('FrameN', self.any('nB'))
        if k == 10:
            return {'b': r.choice(['==', '+', '-']), 'p': [self.any('nB'), self.any('nB', 'ns')]}
        return self.F(r.choice(['xyz2R', 'zyx2R']), self.any('zb'), 0.2, self.any('zb'))

    # util
    def op_deg(self):
        return self.F('deg', *[self.rng.choice([self.any('an', 'la'), 0.3]) for _ in range(self.rng.choice([1, 2]))])

    def op_rad(self):
        return self.F('rad', *[self.rng.choice([self.any('an', 'za'), 33.0]) for _ in range(self.rng.choice([1, 3]))])

    def op_mdot(self):
        a, b = self.rng.choice([('R1', 'R1'), ('Rn', 'Rn'), ('R1', 'd3'), ('R1', 'na')])
        return self.F('mdot', self.any(a), self.any(b))

    def op_nthroot(self):
        return self.F('nthroot', arr([self.rng.choice([0.0, 8.0, 27.0, 1e-9, 2.5]) for _ in range(4)]), self.rng.choice([2, 3]))

    def op_get_ellipsoid(self):
        n = self.rng.choice(NAMES) if self.rng.random() < 0.75 else self.rng.choice(BAD_NAMES)
        if self.rng.random() < 0.4:
            n = spell(self.rng, n)
        return self.F(self.rng.choice(['get_ellipsoid', 'get_ellipsoid', 'select_ellipsoid']), n)

    def op_unit(self):
        v = self.rng.choice([self.any('na', 'nu', 'pa', 'd3', 'n1'), arr([[1, 0, 0.], [1, 0, 2], [1, 0, 1]])])
        return self.F('unit', v) if self.rng.random() < 0.7 else self.F('unit', v, norm_zero_vector=float('nan'))

    def op_isclose(self):
        return self.F(self.rng.choice(['util.isclose', 'util.allclose']), self.any('an', 'za'), self.any('an', 'za'),
                      rtol=1e-3, atol=self.rng.choice([0, 1e-6, 2.0]))

    # rotation
    def op_E_rotation(self):
        return self.F('E_rotation', self.rng.choice(['e', 'E', 'e', 'q']))

    def op_n_E_and_wa2R_EL(self):
        return self.F('n_E_and_wa2R_EL', self.any('na', 'n1'), self.rng.choice([0.0, 0.4]), **{k: v for k, v in self.af().items() if k == 'R_Ee'})

    def op_n_E2R_EN(self):
        return self.F('n_E2R_EN', self.any('na', 'n1', 'nu', 'pa'), **{k: v for k, v in self.af().items() if k == 'R_Ee'})

    def op_R2n(self):
        return self.F(self.rng.choice(['R_EL2n_E', 'R_EN2n_E']), self.any('R1', 'Rn'))

    def op_R2angles(self):
        return self.F(self.rng.choice(['R2xyz', 'R2zyx']), self.any('R1', 'Rn'))

    def op_angles2R(self):
        x = lambda: self.rng.choice([self.any('an'), 0.2, -1.0, 0, 0.0])
        if self.rng.random() < 0.15:
            return self.F(self.rng.choice(['xyz2R', 'zyx2R']), 0, 0, self.rng.choice([0, 0.0, 0.5]))
        return self.F(self.rng.choice(['xyz2R', 'zyx2R']), x(), x(), x())

    # core
    def op_lat_lon2n_E(self):
        if self.rng.random() < 0.5:
            return self.F('lat_lon2n_E', self.any('la'), self.any('lo'), **{k: v for k, v in self.af().items() if k == 'R_Ee'})
        return self.F('lat_lon2n_E', self.scal(math.radians(self.lat())), self.scal(math.radians(self.lon())))

    def op_n_E2lat_lon(self):
        return self.F('n_E2lat_lon', self.any('na', 'n1', 'nu', 'pa'), **{k: v for k, v in self.af().items() if k == 'R_Ee'})

    def op_n2p(self):
        return self.F('n_EB_E2p_EB_E', self.any('na', 'n1', 'nu'), self.dep(), **self.af())

    def op_p2n(self):
        return self.F('p_EB_E2n_EB_E', self.any('pa'), **self.af())

    def op_nn2p(self):
        return self.F('n_EA_E_and_n_EB_E2p_AB_E', self.any('na', 'n1'), self.any('na', 'n1'), self.dep(), self.dep(), **self.af())

    def op_np2n(self):
        return self.F('n_EA_E_and_p_AB_E2n_EB_E', self.any('na', 'n1'), self.any('d3'), self.dep(), **self.af())

    def op_interp_nvectors(self):
        k = {'kind': self.rng.choice(['linear', 'nearest', 'cubic', 'quadratic', 'zero', 3])}
        if self.rng.random() < 0.4:
            k.update(window_length=3, polyorder=1)
            if self.rng.random() < 0.5:
                k['mode'] = self.rng.choice(['nearest', 'mirror', 'wrap', 'constant'])
                if k['mode'] == 'constant':
                    k['cval'] = self.rng.choice([0.0, 0.5])
        return self.F('interp_nvectors', self.any('ti'), self.any('tt'), self.any('tn'), **k)

    def op_interpolate(self):
        return self.F('interpolate', self.any('pl') if 'pl' in self.kinds and self.rng.random() < 0.4 else {'tu': [self.any('na', 'n1'), self.any('na', 'n1')]}, self.rng.choice([0.25, 0.5, 2.0, 0, 1, 0.0, 1.0]))

    def pathn(self):
        if 'pl' in self.kinds and self.rng.random() < 0.3:
            return self.any('pl')
        return {'tu': [self.any('n1'), self.any('n1')]} if self.rng.random() < 0.7 else {'tu': [self.any('na', 'n1'), self.any('na', 'n1')]}

    def op_intersect_f(self):
        return self.F('intersect', self.pathn(), self.pathn())

    def op_great_circle_normal(self):
        return self.F('great_circle_normal', self.any('na', 'n1'), self.any('na', 'n1'))

    def op_cross_track_f(self):
        return self.F('cross_track_distance', self.pathn(), self.any('na', 'n1'), method=self.rng.choice(['greatcircle', 'euclidean']),
                      radius=self.rng.choice([6371009.0, 1.0]))

    def op_on_gc_f(self):
        return self.F(self.rng.choice(['on_great_circle', 'on_great_circle_path']), self.pathn(), self.any('n1', 'na'), atol=self.rng.choice([1e-8, 1e5]))

    def op_closest_f(self):
        return self.F('closest_point_on_great_circle', self.pathn(), self.any('n1', 'na'))

    def op_gc_distance(self):
        return self.F(self.rng.choice(['great_circle_distance', 'euclidean_distance']), self.any('na', 'n1'), self.any('na', 'n1'),
                      radius=self.rng.choice([6371009.0, 6371e3, 1]))

    def op_azimuth(self):
        return self.F('n_EA_E_and_n_EB_E2azimuth', self.any('na', 'n1'), self.any('na', 'n1'), **self.af())

    def op_direct_n(self):
        return self.F('n_EA_E_distance_and_azimuth2n_EB_E', self.any('na', 'n1'), self.rng.choice([0.01, 1.0]),
                      self.rng.choice([0.3, self.any('an')]), **{k: v for k, v in self.af().items() if k == 'R_Ee'})

    def op_mean_f(self):
        return self.F('mean_horizontal_position', self.any('na', 'nu'))

    # objects: construction
    def op_FrameE(self):
        sp = self.frame()
        op = {'f': 'FrameE', 'p': list(sp.get('p', ())), 'k': dict(sp.get('k', {}))}
        if self.rng.random() < 0.1:
            op['k'] = {'name': self.rng.choice(BAD_NAMES)}
        return op

    def op_GeoPoint(self):
        if self.rng.random() < 0.5:
            return self.F('GeoPoint', self.any('la'), self.any('lo'), self.dep(), frame=self.any('fr'))
        k = {'degrees': True}
        if self.rng.random() < 0.7:
            k['frame'] = self.any('fr')
        return self.F('GeoPoint', self.scal(self.lat()), self.scal(self.lon()), self.dep(), **k)

    def op_frame_factory(self):
        fr = self.any('fr')
        k = self.rng.choice(['GeoPoint', 'Nvector', 'ECEFvector'])
        if k == 'GeoPoint':
            return self.M(fr, k, self.any('la'), self.any('lo'), degrees=self.rng.choice([True, False]))
        return self.M(fr, k, self.any('na', 'n1', 'pa') if k == 'ECEFvector' else self.any('na', 'n1'))

    def op_Nvector(self):
        return self.F('Nvector', self.any('na', 'n1', 'nu'), self.dep(), **({'frame': self.any('fr')} if self.rng.random() < .6 else {}))

    def op_local_frame(self):
        p = self.point()
        k = self.rng.choice(['FrameN', 'FrameL', 'FrameB'])
        if k == 'FrameN':
            return self.F(k, p)
        if k == 'FrameL':
            return self.F(k, p, wander_azimuth=self.rng.choice([0, 0.7]))
        return self.F(k, self.spoint(), self.rng.choice([0, 10.0]), 5, 3, degrees=self.rng.choice([True, False]))

    # objects: conversions and queries
    def op_convert(self):
        return self.M(self.point(), self.rng.choice(['to_geo_point', 'to_nvector', 'to_ecef_vector']))

    def op_convert_p(self):
        return self.M(self.any('pv'), self.rng.choice(['to_geo_point', 'to_nvector', 'to_ecef_vector']))

    def op_latlon(self):
        return {'g': self.rng.choice(['latlon', 'latlon_deg', 'latitude_deg', 'longitude_deg', 'scalar']), 'on': self.any('gs', 'gv')}

    def op_pquery(self):
        return {'g': self.rng.choice(['length', 'azimuth', 'azimuth_deg', 'elevation', 'elevation_deg', 'scalar']), 'on': self.any('pv', 'es', 'ev')}

    def op_R_EN(self):
        return {'g': 'R_EN', 'on': self.any('lf', 'lf', 'lv') if 'lv' in self.kinds else self.any('lf')}

    def op_delta(self):
        a, b = self.ab()
        return self.F(self.rng.choice(['delta_E', 'delta_N', 'delta_L', 'diff_positions']), a, b)

    def op_delta_to(self):
        a, b = self.ab()
        return self.M(a, 'delta_to', b)

    def op_change_frame(self):
        return self.M(self.any('es', 'ev'), 'change_frame', self.any('lf'))

    def op_distance(self):
        a, b = self.geo_ab()
        return self.M(a, 'distance_and_azimuth', b, degrees=self.rng.choice([True, False]),
                      method=self.rng.choice(['ellipsoid', 'ellipsoid', 'greatcircle']), long_unroll=self.rng.choice([False, False, True]))

    def length(self):
        """a distance with many digits, of any size"""
        return self.rng.uniform(1, 9.9) * 10.0 ** self.rng.randint(-3, 6)

    def op_displace(self):
        return self.M(self.any('gs', 'gs', 'gv'), 'displace', self.rng.choice([1000.0, 1e5, 0, self.length(), self.length()]), self.rng.choice([30.0, 0.5, self.any('an')]),
                      degrees=self.rng.choice([True, False]), method=self.rng.choice(['ellipsoid', 'greatcircle']), long_unroll=self.rng.choice([False, False, True]))

    def op_inverse(self):
        return self.M(self.any('fr'), 'inverse', self.any('la'), self.any('lo'), self.rng.choice([0.1, self.any('la')]), self.rng.choice([-0.3, self.any('lo')]),
                      z=self.dep(), degrees=self.rng.choice([True, False]))

    def op_direct(self):
        return self.M(self.any('fr'), 'direct', self.any('la'), self.any('lo'), self.rng.choice([0.3, self.any('an')]), self.rng.choice([1e4, 2e6, self.length()]),
                      z=self.dep(), degrees=self.rng.choice([True, False]))

    def op_mean(self):
        return self.M(self.any('nv', 'ns'), self.rng.choice(['mean', 'mean', 'mean_horizontal_position']))

    def op_arith(self):
        b = self.rng.choice(['+', '-', '*', '/'])
        if b in '+-':
            k = self.rng.choice([('ns', 'nv'), ('es', 'ev')])
            return {'b': b, 'p': [self.any(*k), self.any(*k)]}
        return {'b': b, 'p': [self.any('ns', 'nv'), self.rng.choice([2.0, 0.5, 3, self.any('ns')])]}

    def op_neg(self):
        return {'neg': self.any('ns', 'nv', 'es', 'ev')}

    def op_eq(self):
        k = self.rng.choice([('gs', 'gv'), ('fr',), ('ns', 'nv'), ('es', 'ev'), ('lf',), ('gs', 'ns', 'fr')])
        return {'b': self.rng.choice(['==', '==', '!=']), 'p': [self.any(*k), self.any(*k)]}

    def op_repr(self):
        return {'repr': self.any('gs', 'gv', 'ns', 'fr', 'es', 'lf', 'pv', *[k for k in ('gm', 'nB') if k in self.kinds])}

    def op_track_interp(self):
        return self.M({'o': 'Nvector', 'p': [self.any('tn'), self.any('tz')], 'k': {'frame': self.any('fr')}}, 'interpolate', self.any('ti'), self.any('tt'),
                      kind=self.rng.choice(['linear', 'cubic', 'nearest', 'slinear', 2]), window_length=self.rng.choice([0, 3, 2]), polyorder=1)

    def path(self):
        return self.any('pt', 'pt', 'pt', 'pw') if 'pw' in self.kinds else self.any('pt')

    def op_path_query(self):
        return self.ask_path(self.rng.choice(['cross_track_distance', 'closest_point_on_great_circle', 'closest_point_on_path']))

    def op_path_on(self):
        return self.ask_path(self.rng.choice(['on_great_circle', 'on_path', 'on_path']))

    def ask_path(self, m):
        k = {}
        if m == 'cross_track_distance':
            k = self.rng.choice([{}, {'method': 'euclidean'}, {'radius': 6371e3}])
        if m == 'on_path':
            k = self.rng.choice([{}, {'method': 'ellipsoid'}, {'atol': 1e5, 'rtol': 1e-3}])
        if m == 'on_great_circle':
            k = self.rng.choice([{}, {'atol': 1e5}])
        pa = self.path()
        pt = self.rng.choice([self.spoint(), self.any('gs')])
        if self.rng.random() < 0.5:            # a place that really lies on the path
            pt = self.rng.choice([{'g': 'positionA', 'on': pa}, {'g': 'positionB', 'on': pa}, {'m': 'interpolate', 'on': pa, 'p': [self.rng.choice([0.5, 0.25, 1.0])]},
                                  {'m': 'to_geo_point', 'on': {'m': 'interpolate', 'on': pa, 'p': [self.rng.choice([0.5, 0.75, 0.0])]}}])
        return self.M(pa, m, pt, **k)

    def op_path_plain(self):
        m = self.rng.choice(['nvectors', 'geo_points', 'ecef_vectors', 'nvector_normals', 'track_distance'])
        k = self.rng.choice([{}, {'method': 'euclidean'}, {'method': 'ellipsoid'}, {'radius': 6371e3}]) if m == 'track_distance' else {}
        return self.M(self.path(), m, **k)

    def op_path_intersect(self):
        return self.M(self.any('pt'), self.rng.choice(['intersect', 'intersect', 'intersection']), self.any('pt'))

    def op_path_interpolate(self):
        return self.M(self.path(), 'interpolate', self.rng.choice([0, 0.5, 1.0, 0.25]))

    def op_path_pos(self):
        return {'g': self.rng.choice(['positionA', 'positionB']), 'on': self.any('pt')}

    # programs
    def op_prog(self):
        r = self.rng
        fr = self.any('fr')
        ll = lambda: [self.lat(), self.lon()]
        k = r.choice(['ex1_delta', 'ex1_fun', 'ex2_body', 'ex2_fun', 'ex3', 'ex4', 'ex5', 'ex6', 'ex7', 'ex8', 'ex9', 'ex10',
                      'chain', 'local', 'two_frames', 'track', 'mutate_own'])
        P = {
            'ex1_delta': lambda: [fr] + ll() + [self.z()] + ll() + [self.z()],
            'ex1_fun': lambda: ll() + [self.z()] + ll() + [self.z(), 6378137.0, r.choice([0, 1 / 298.257223563])],
            'ex2_body': lambda: [fr] + ll() + [self.z(), 10.0, 20.0, 30.0, 3000.0, 2000.0, 100.0],
            'ex2_fun': lambda: ll() + [self.z(), 10.0, 20.0, 30.0, 3000.0, 2000.0, 100.0, 6378135.0, 1 / 298.26],
            'ex3': lambda: [fr, 6371e3 * 0.9, 6371e3 * -1, 6371e3 * 1.1],
            'ex4': lambda: [fr] + ll() + [self.z()],
            'ex5': lambda: [fr] + ll() + ll(),
            'ex6': lambda: [fr] + ll() + ll() + [0.6],
            'ex7': lambda: [fr, self.lats(), self.lons()],
            'ex8': lambda: [fr] + ll() + [1000.0, 200.0],
            'ex9': lambda: [fr, ll(), ll(), ll(), ll()],
            'ex10': lambda: [fr, ll(), ll(), ll()],
            'chain': lambda: [self.point()],
            'local': lambda: [self.any('lf')] + list(self.ab()),
            'two_frames': lambda: [self.any('fr'), self.any('fr')] + ll() + [self.z()],
            'track': lambda: [self.any('ti'), self.any('tt'), self.any('tn'), self.any('tz'), r.choice(['linear', 'cubic']), r.choice([0, 3])],
            'mutate_own': lambda: [fr] + ll(),
        }
        return {'prog': k, 'p': P[k]()}


def _rot(r):
    x, y, z = (r.uniform(-3, 3) for _ in range(3))
    cx, sx, cy, sy, cz, sz = math.cos(x), math.sin(x), math.cos(y), math.sin(y), math.cos(z), math.sin(z)
    Rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    Ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    Rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return Rx.dot(Ry).dot(Rz)


def half_turn(r):
    """a turn by 180 degrees about an axis, whose zeros have either sign"""
    k = r.randrange(3)
    m = -np.eye(3)
    m[k, k] = 1.0
    return [x if x else r.choice([0.0, 0.0, -0.0]) for x in m.ravel().tolist()]
