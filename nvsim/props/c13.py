"""C13: a reconstructed track depends on the fixes received, not on how they arrived."""
import math

import numpy as np
from scipy.interpolate import make_interp_spline

from .. import core, forks, values
from .base import Base

TOL = 1e-9
FORMS = (None, None, 'list', 'strided', 'readonly', 'f4', '>f8')
KINDS = ('linear', 'linear', 'linear', 'linear', 'nearest', 'zero', 'slinear', 'quadratic', 'cubic', 1, 2, 3)


# ------------------------------------------------------------------ the reference model (plain Python, one fix at a time)
def n_of(lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    return [math.cos(lo) * math.cos(la), math.sin(lo) * math.cos(la), math.sin(la)]


def model(fixes, t):
    """the linear track at time t: [n-vector and depth], or None where there is none; fixes: {t: (lat, lon, z) or None if corrupted}"""
    ts = sorted(fixes)
    if t < ts[0] or t > ts[-1]:
        return None
    for x in ts:
        if x == t:
            return None if fixes[x] is None else n_of(*fixes[x][:2]) + [fixes[x][2]]
    hi = min(x for x in ts if x > t)
    lo = max(x for x in ts if x < t)
    if fixes[lo] is None or fixes[hi] is None:
        return None
    w = (t - lo) / (hi - lo)
    a, b = n_of(*fixes[lo][:2]), n_of(*fixes[hi][:2])
    v = [x + w * (y - x) for x, y in zip(a, b)]
    r = math.sqrt(math.fsum(x * x for x in v))
    if r < 1e-6:
        return 'antipodal'
    return [x / r for x in v] + [fixes[lo][2] + w * (fixes[hi][2] - fixes[lo][2])]


def next_to_bad(fixes, t):
    """is t a good fix right beside a corrupted one?"""
    ts = sorted(fixes)
    k = ts.index(t) if t in ts else -1
    return k >= 0 and fixes[t] is not None and any(fixes[ts[j]] is None for j in (k - 1, k + 1) if 0 <= j < len(ts))


def polyfit_at(x, y, order, at):
    """the least-squares polynomial through (x, y), evaluated"""
    A = np.vander(np.asarray(x, float), order + 1)
    c = np.linalg.lstsq(A, np.asarray(y, float), rcond=None)[0]
    return np.vander(np.atleast_1d(np.asarray(at, float)), order + 1).dot(c)


def smoothed(y, window, order, mode):
    """Savitzky-Golay filter by its definition: a polynomial fitted around each sample in turn (one component)"""
    window += 1 - window % 2
    h, n = window // 2, len(y)
    if mode == 'interp':
        out = [polyfit_at(range(-h, h + 1), y[k - h:k + h + 1], order, 0)[0] for k in range(h, n - h)]
        head = polyfit_at(np.arange(window) - h, y[:window], order, np.arange(h) - h)
        tail = polyfit_at(np.arange(window) - h, y[n - window:], order, np.arange(1, h + 1))
        return np.r_[head, out, tail]
    pad = np.pad(np.asarray(y, float), h, mode={'mirror': 'reflect', 'nearest': 'edge', 'wrap': 'wrap', 'constant': 'constant'}[mode])
    return np.array([polyfit_at(range(-h, h + 1), pad[k:k + window], order, 0)[0] for k in range(n)])


def model_other(rows, ask, t):
    """the smoothed track, or one of another kind: [(n-vector and depth) ...] before normalisation at time t; more than one where a tie is open"""
    rows = sorted(rows)
    ts = np.array([r[0] for r in rows])
    ys = np.array([n_of(r[1], r[2]) + [r[3]] for r in rows]).T
    if ask.get('smooth'):
        if len(ts) < ask['smooth'][0] + 1:
            return None
        ys = np.array([smoothed(y, *ask['smooth']) for y in ys])
    kind = ask.get('kind') or 'linear'
    k = {'linear': 1, 'slinear': 1, 'quadratic': 2, 'cubic': 3}.get(kind, kind)
    if kind in ('zero', 'nearest'):
        i = int(np.searchsorted(ts, t, side='right')) - 1
        if kind == 'zero' or i == len(ts) - 1:
            return [ys[:, i]]
        a, b = t - ts[i], ts[i + 1] - t
        tie = abs(a - b) <= 1e-6 * (a + b) + 1e-15 * abs(t)
        return [ys[:, j] for j, ok in ((i, a < b or tie), (i + 1, b < a or tie)) if ok]
    if k == 1:
        return [np.array([np.interp(t, ts, y) for y in ys])]
    if len(ts) <= k:
        return None
    return [np.array([make_interp_spline(ts, y, k=k)(t) for y in ys])]


def off_model(wants, y, ztol, depth):
    """how far the answer is from the nearest of the models: None if it agrees"""
    for w in wants:
        r = np.linalg.norm(w[:3])
        if r < 1e-3:
            return None                 # the direction of next to nothing
        if np.allclose(y[:3], w[:3] / r, rtol=0, atol=1e-6 / min(r, 1)) and (not depth or abs(y[3] - w[3]) <= 1e3 * ztol + 1e-6 * abs(w[3])):
            return None
    return 'the documented interpolation gives %s' % (np.r_[wants[0][:3] / np.linalg.norm(wants[0][:3]), wants[0][3]],)


# ------------------------------------------------------------------ the receiver (the real code under test)
def heard(spec, ask):
    """deliveries so far, in order of arrival"""
    got = sorted((a for a in spec['arrivals'] if a[0] <= ask['at']), key=lambda a: (a[0], a[1]))
    out = []
    for a in got:
        t, lat, lon, z = spec['fixes'][a[1]]
        bad = a[2]
        out.append((t, math.nan if bad else lat, math.nan if bad else lon, math.nan if bad else z, bad))
    return out


def ask_library(nv, rows, ask):
    """4 x m array of normals and depths, or the exception's name"""
    t = [r[0] for r in rows]
    lat, lon, z = (np.array([r[k] for r in rows]) for k in (1, 2, 3))
    n = np.array([n_of(r[1], r[2]) if not r[4] else [math.nan] * 3 for r in rows]).T.reshape(3, -1)
    frame = nv.FrameE(name=ask.get('frame', 'WGS84'))
    if ask.get('form') != 'list':
        t = np.array(t)
        if ask.get('form') == 'strided':
            big = np.zeros((2 * len(rows),))
            big[::2] = t
            t = big[::2]
            wide = np.zeros((3, 2 * len(rows)))
            wide[:, ::2] = n
            n = wide[:, ::2]
        elif ask.get('form') == 'readonly':
            for x in (t, n, z):
                x.flags.writeable = False
    t_i = ask['t_i'] if ask.get('form') == 'list' else np.array(ask['t_i'])
    if ask.get('form') in ('i8', 'i4', 'f4', '>f8') and np.array_equal(t, np.asarray(t).astype(ask['form'])):
        t = np.asarray(t).astype(ask['form'])       # whole seconds, single precision, another machine's byte order: the same stamps
    if ask.get('scalar'):
        t_i = ask['t_i'][0]
    opt = {}
    if ask.get('kind') not in (None, 'linear'):
        opt['kind'] = ask['kind']
    if ask.get('smooth'):
        opt.update(window_length=ask['smooth'][0], polyorder=ask['smooth'][1], mode=ask['smooth'][2])
    try:
        if ask['api'] == 'path':
            p, q = (frame.Nvector(n[:, [k]], z=float(z[k])) for k in (-2, -1))
            res = [nv.GeoPath(p, q).interpolate(w) for w in ask['t_i']]
            return np.array([np.r_[np.ravel(r.normal), np.ravel(r.z)] for r in res]).T
        if ask['api'] == 'core':
            res = nv.interp_nvectors(t_i, t, n, **opt)
            return np.vstack([res, np.full((1, res.shape[1]), math.nan)])
        if ask['api'] == 'geo':
            obj = frame.GeoPoint(lat, lon, z=z, degrees=True).to_nvector()
        else:
            obj = frame.Nvector(n, z=z)
        res = obj.interpolate(t_i, t, **opt)
        if res.frame is not frame and res.frame != frame:
            return 'another frame'
        return np.vstack([res.normal, np.reshape(res.z, (1, -1))])
    except Exception as e:
        return type(e).__name__


def child(spec, which):
    """answers to the asks, as the receiver makes them one after another while fixes come in"""
    nv = values.nv
    out = []
    for k in which:
        ask = spec['asks'][k]
        rows = heard(spec, ask)
        out.append(ask_library(nv, rows, ask) if len(rows) >= 2 else None)
    return out


def tidy_child(spec, k):
    """the same fixes once each and in order of time, asked alone in a fresh process"""
    ask = spec['asks'][k]
    rows = sorted({r[0]: r for r in heard(spec, ask)}.values())
    return ask_library(values.nv, rows, ask) if len(rows) >= 2 else None


def column(y, j):
    return 'nan' if np.isnan(y[:3, j]).all() else 'mixed' if np.isnan(y[:3, j]).any() else 'number'


def judge(spec, ask, y, tidy):
    rows = heard(spec, ask)
    api = ask['api']
    times = [r[0] for r in rows]
    dup = len(set(times)) < len(times)
    bad = any(r[4] for r in rows)
    linear = ask.get('kind') in (None, 'linear', 'slinear', 1) and not ask.get('smooth')
    fixes = {r[0]: None if r[4] else r[1:4] for r in rows}
    if isinstance(y, str):
        if y == 'another frame':
            yield 'the result is in another frame'
        elif not dup and not bad and (tidy is None or not isinstance(tidy, str)):
            yield 'raised %s, but not for the same fixes in order' % y
        return
    if api == 'path':
        a, b = rows[-2], rows[-1]
        if a[4] or b[4]:
            want = [None] * len(ask['t_i'])
        else:
            want = [model({0.0: a[1:4], 1.0: b[1:4]}, w) for w in ask['t_i']]
        for j, w in enumerate(want):
            if w == 'antipodal':
                continue
            if w is None and column(y, j) == 'number':
                yield 'path at %r: a number from a corrupted fix' % ask['t_i'][j]
            if w is not None and not np.allclose(y[:, j], w, rtol=TOL, atol=TOL):
                yield 'path at %r: %s, not on the straight line: %s' % (ask['t_i'][j], y[:, j], w)
        return
    m = 1 if ask.get('scalar') else len(ask['t_i'])
    if y.shape != (4, m):
        yield 'shape %s for %d times' % (y.shape, m)
        return
    ztol = TOL * max([1.0] + [abs(r[3]) for r in rows if not r[4]])
    for j in range(m):
        t = ask['t_i'][j]
        kind = column(y, j)
        if kind == 'mixed':
            yield 'at %r: a partly undefined n-vector %s' % (t, y[:3, j])
            continue
        if t < min(times) or t > max(times):
            if kind != 'nan':
                yield 'at %r, outside the received time span: %s' % (t, y[:, j])
            elif api != 'core' and not np.isnan(y[3, j]):
                yield 'at %r, outside the received time span: depth %r' % (t, y[3, j])
            continue
        if kind == 'number' and abs(np.linalg.norm(y[:3, j]) - 1) > TOL:
            yield 'at %r: length %r' % (t, np.linalg.norm(y[:3, j]))
        if linear:
            want = model(fixes, t)
            if want == 'antipodal':
                continue
            if want is None:
                if kind == 'number':
                    yield 'at %r: %s from a corrupted fix' % (t, y[:, j])
                continue
            ok = np.allclose(y[:3, j], want[:3], rtol=0, atol=TOL) and (api == 'core' or abs(y[3, j] - want[3]) <= ztol)
            excused = kind == 'nan' and (times.count(t) > 1 or next_to_bad(fixes, t))
            if not ok and not excused:
                yield 'at %r: %s, but between the received fixes: %s' % (t, y[:, j], want)
        elif not bad:
            if dup:
                if not ask.get('smooth') and kind == 'number' and isinstance(tidy, np.ndarray) and not same(y[:, j], tidy[:, j], ztol):
                    yield 'at %r: %s, but without the duplicated fix: %s' % (t, y[:, j], tidy[:, j])
                continue
            if t in fixes and not ask.get('smooth'):
                want = n_of(*fixes[t][:2]) + [fixes[t][2]]
                if not np.allclose(y[:3, j], want[:3], rtol=0, atol=1e-6) or (api != 'core' and abs(y[3, j] - want[3]) > 1000 * ztol):
                    yield 'at the received time %r: %s, but the fix is %s' % (t, y[:, j], want)
            if isinstance(tidy, str):
                yield 'no error, but %s for the same fixes in order' % tidy
                return
            wants = model_other(rows, ask, t) if kind == 'number' else None
            off = off_model(wants, y[:, j], ztol, api != 'core') if wants else None
            if off:
                yield 'at %r: %s, but %s' % (t, y[:, j], off)
            if not same(y[:, j], tidy[:, j], ztol):
                yield 'at %r: %s, but from the same fixes in order: %s' % (t, y[:, j], tidy[:, j])


def same(a, b, ztol):
    return (np.allclose(a[:3], b[:3], rtol=0, atol=TOL, equal_nan=True)
            and (abs(a[3] - b[3]) <= ztol or np.isnan(a[3]) == np.isnan(b[3]) == True))


class C13(Base):
    id = 'C13'
    jobs = {'quick': 64, 'thorough': 2400}
    runs_per_job = 130
    rule = ('A case is one simulated feed: fixes sent by a vehicle over a link that loses, duplicates, delays, reorders and corrupts them, cuts out and releases a backlog, with a sender clock that jumps; '
            'while they arrive a receiver asks for the track; distinct by the arrival pattern (which fix, in which order) and the kinds of question.')
    stub = ['the vehicle, its clock and the radio link', 'clocks', 'warnings sink']
    assumptions = ['time stamps of different fixes are distinct', 'the linear reference model is an independent scalar implementation',
                   'for the other kinds and with smoothing the same call on the ordered fixes in a fresh process, and least-squares fits and scipy splines applied directly, are the references']

    def job(self, r, tier, job):
        for _ in range(self.runs_per_job):
            yield make(r)

    def evaluate(self, spec):
        ys = forks.in_child(child, spec, list(range(len(spec['asks']))))
        problems, probes = [], {'answers': 0, 'times asked for': 0}
        for k, (ask, y) in enumerate(zip(spec['asks'], ys)):
            if y is None:
                continue
            linear = ask.get('kind') in (None, 'linear', 'slinear', 1) and not ask.get('smooth')
            tidy = None if ask['api'] == 'path' or (linear and not isinstance(y, str)) else forks.in_child(tidy_child, spec, k)
            if isinstance(tidy, str) and isinstance(y, str):
                continue
            probes['answers'] += 1
            probes['times asked for'] += len(ask['t_i'])
            problems.extend('question %d: %s' % (k, p) for p in judge(spec, ask, y, tidy))
        order = [a[1] for a in sorted(spec['arrivals'], key=lambda a: (a[0], a[1]))]
        sent = [f[0] for f in spec['fixes']]
        arr = {}
        for a in spec['arrivals']:
            arr.setdefault(a[1], []).append(a[0])
        fired = {'lost': len(spec['fixes']) - len(arr), 'duplicated': sum(len(v) - 1 for v in arr.values()),
                 'reordered': sum(1 for x, y in zip(order, order[1:]) if y < x), 'corrupted': sum(1 for a in spec['arrivals'] if a[2]),
                 'delayed': sum(1 for k, v in arr.items() if min(v) - spec['sent'][k] > 2.0), 'sender clock jump': sum(1 for x, y in zip(sent, sent[1:]) if y < x)}
        il = core.key(order, [[a['api'], a.get('kind'), a.get('smooth'), len(a['t_i'])] for a in spec['asks']])[:8]
        span = max([a[0] for a in spec['arrivals']] + [0.0]) - min([a[0] for a in spec['arrivals']] + [0.0])
        return problems[:6], dict(ops=len(spec['asks']), fired={k: v for k, v in fired.items() if v}, ils=[il], steps=len(order), simtime=span, probes=probes)

    def candidates(self, spec):
        yield from core.list_candidates(spec, 'asks', 1)
        yield from core.list_candidates(spec, 'arrivals')
        for k, ask in enumerate(spec['asks']):
            if len(ask['t_i']) > 1:
                for n in (len(ask['t_i']) // 2, 1):
                    for i in range(0, len(ask['t_i']), n):
                        s = dict(spec)
                        s['asks'] = [dict(a, t_i=a['t_i'][:i] + a['t_i'][i + n:]) if j == k else a for j, a in enumerate(spec['asks'])]
                        if s['asks'][k]['t_i']:
                            yield s
        used = sorted({a[1] for a in spec['arrivals']})
        if len(used) < len(spec['fixes']):
            m = {k: i for i, k in enumerate(used)}
            yield dict(spec, fixes=[spec['fixes'][k] for k in used], sent=[spec['sent'][k] for k in used], arrivals=[[a[0], m[a[1]], a[2]] for a in spec['arrivals']])

    def text(self, spec):
        out = ['fixes sent:'] + ['  %d: t=%r lat=%r lon=%r z=%r' % tuple([k] + f) for k, f in enumerate(spec['fixes'])]
        out += ['arrivals:'] + ['  at %.3f fix %d%s' % (a[0], a[1], ' corrupted' if a[2] else '') for a in sorted(spec['arrivals'], key=lambda a: (a[0], a[1]))]
        out += ['questions:'] + ['  at %.3f %s' % (a['at'], {k: v for k, v in a.items() if k != 'at'}) for a in spec['asks']]
        s = '\n'.join(out)
        return s if len(s) < 4000 else s[:4000] + '...'


def make(r):
    """one feed: the vehicle, the link's faults and the questions"""
    n = r.choice([2, 3, 4, 5, 7, 9, 12, 18, 25]) if r.random() < 0.97 else r.choice([60, 130, 260, 300, 550, 1100])
    t = r.choice([0.0, 0.0, 100.0, -50.0, 86399.0, 1.6e9])
    regular = r.random() < 0.4
    step = r.choice([0.5, 1.0, 1.0, 10.0]) if r.random() < 0.85 else r.choice([1e-3, 2.5e-4, 2e-5, 0.02, 900.0, 86400.0])
    if step < 0.01:
        t = min(t, 86399.0)
    lat, lon, z = r.uniform(-88, 88), r.uniform(-180, 180), r.choice([0.0, 10.0, -5000.0, 30.5])
    size = r.choice([1e-4, 0.1, 3.0, 30.0])
    jumps = set(r.sample(range(n), r.choice([0, 0, 0, 1, 2]))) if n > 3 else set()
    fixes, sent, now, used = [], [], 0.0, set()
    whole = r.random() < 0.25 and step >= 0.5
    for k in range(n):
        gap = step if regular else step * r.choice([0.2, 0.5, 1.0, 1.3, 3.0])
        now += gap
        t += gap
        if k in jumps:
            t += r.choice([-1, 1]) * step * r.randint(2, 6)
        tt = float(round(t)) if whole else t
        while any(abs(tt - u) < 0.1 * step for u in used):      # stamps a rounding error apart are not claimed
            tt += step * 0.25 if not whole else 1.0
        used.add(tt)
        lat = max(-90.0, min(90.0, lat + size * r.uniform(-1, 1)))
        lon = (lon + size * r.uniform(-1, 1) + 180) % 360 - 180
        z = z + r.uniform(-1, 1) * r.choice([0, 1, 50])
        if r.random() < 0.02:
            lat, lon = -lat, (lon + 360) % 360 - 180
        fixes.append([tt, lat, lon, z])
        sent.append(now)
    arrivals = []
    loss, dup, late, corrupt = (r.choice([0, 0, 0.1, 0.4]), r.choice([0, 0, 0.15, 0.5]), r.choice([0, 0.2, 0.6]), r.choice([0, 0, 0, 0.1]))
    cut = r.choice([None, None, 'drop', 'hold'])
    a = r.uniform(0, now)
    b = a + r.uniform(0, now / 2)
    for k in range(n):
        if r.random() < loss:
            continue
        at = sent[k] + r.uniform(0.01, 0.3)
        if r.random() < late:
            at += r.uniform(1, now)
        if cut and a <= sent[k] <= b:
            if cut == 'drop':
                continue
            at = b + r.uniform(0, 0.5)
        if r.random() < corrupt:
            arrivals.append([at, k, 1])
            continue
        arrivals.append([at, k, 0])
        while r.random() < dup and len(arrivals) < n + 60:
            arrivals.append([at + r.choice([0.001, 0.2, 5.0]), k, 0])
    asks = []
    end = max([x[0] for x in arrivals] + [now])
    for q in range(r.choice([1, 2, 3, 4])):
        at = end + 1 if q == 0 or r.random() < 0.3 else r.uniform(0, end)
        api = r.choice(['obj', 'obj', 'core', 'core', 'geo', 'path'])
        ts = sorted(f[0] for f in fixes)
        if api == 'path':
            t_i = [r.choice([0.0, 0.25, 0.5, 1.0, r.random()]) for _ in range(r.choice([1, 3]))]
            asks.append({'at': at, 'api': api, 't_i': t_i})
            continue
        t_i = []
        for _ in range(r.choice([1, 2, 5, 12, 30, 30, 70, 130]) if r.random() < 0.5 else r.choice([1, 2, 5, 12])):
            c = r.random()
            if c < 0.3:
                t_i.append(r.choice(ts))
            elif c < 0.8:
                i = r.randrange(len(ts) - 1)
                t_i.append(ts[i] + r.choice([0.5, r.random(), 1e-3, 0.999]) * (ts[i + 1] - ts[i]))
            elif c < 0.9:
                t_i.append(r.choice([ts[0] - r.choice([1e-3, 1.0, 1e4]), ts[-1] + r.choice([1e-3, 1.0, 1e4])]))
            else:
                t_i.append(r.uniform(ts[0], ts[-1]))
        ask = {'at': at, 'api': api, 't_i': t_i, 'kind': r.choice(KINDS), 'form': r.choice(FORMS + (('i8', 'i8', 'i4') if whole else ()))}
        if r.random() < 0.2:
            ask['scalar'] = 1
            ask['t_i'] = t_i[:1]
        if r.random() < 0.35:
            w = r.choice([3, 5, 5, 7, 9, 4, 6])
            ask['smooth'] = [w, r.choice([1, 2, 2, 3, min(4, w - 1)]) if w > 3 else r.choice([1, 2]), r.choice(['interp', 'interp', 'mirror', 'nearest', 'wrap', 'constant'])]
        if r.random() < 0.3:
            ask['frame'] = 'GRS80'
        asks.append(ask)
    return {'fixes': fixes, 'sent': sent, 'arrivals': arrivals, 'asks': asks}


PROP = C13()
