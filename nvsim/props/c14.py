"""C14: a corrupted sample spoils only its own result."""
import math

import numpy as np

from .. import core, forks, values
from .base import Base

RTOL = 1e-9
BAD = {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf, 'zero': 0.0, 'huge': 1e300, '-huge': -1e300, 'out of range': None}
RANGE = {'lat': 2.0, 'lon': 7.0, 'z': 7e6, 'n': 3.0, 'p': 1e9, 'ang': 10.0, 'dist': 5e7, 'rad': 4.0, 'R': 2.0, 'w': 5.0}


# ------------------------------------------------------------------ the calls a batch goes through
def geo(nv, d, k='', deg=False):
    f = nv.FrameE(name='WGS84')
    lat, lon = d['lat' + k], d['lon' + k]
    return f.GeoPoint(np.degrees(lat), np.degrees(lon), d['z' + k], degrees=True) if deg else f.GeoPoint(lat, lon, d['z' + k])


def other(nv):
    """a frame with another ellipsoid and the other orientation of its axes"""
    return nv.FrameE(a=6377563.396, f=1 / 299.3249646, axes='E')


def af(nv):
    f = other(nv)
    return {'a': f.a, 'f': f.f, 'R_Ee': f.R_Ee}


def ogeo(nv, d, k):
    return other(nv).GeoPoint(d['lat' + k], d['lon' + k], d['z' + k])


def degs(v):
    return [v.azimuth_deg, v.elevation_deg, v.length]


def pair(nv, d):
    return geo(nv, d, '1').to_nvector(), geo(nv, d, '2').to_nvector()


def path(nv, d):
    return nv.GeoPath(geo(nv, d, '1'), geo(nv, d, '2'))


def latlonz(p):
    return [p.latitude, p.longitude, p.z]


def nz(p):
    return [p.normal, p.z]


G1, G2, G3, G4 = ['lat1', 'lon1', 'z1'], ['lat2', 'lon2', 'z2'], ['lat3', 'lon3', 'z3'], ['lat4', 'lon4', 'z4']

# name: (groups of inputs - each group is a batch or a single entry -, function, options)
#   loose: inputs whose corruption need not show up as NaN in the results (they have no influence, by documentation)
OPS = {
    'lat_lon2n_E': ([['lat1', 'lon1']], lambda nv, d: [nv.lat_lon2n_E(d['lat1'], d['lon1'])]),
    'n_EB_E2p_EB_E': ([['n1'], ['z1']], lambda nv, d: [nv.n_EB_E2p_EB_E(d['n1'], d['z1'])]),
    'p_EB_E2n_EB_E': ([['p1']], lambda nv, d: list(nv.p_EB_E2n_EB_E(d['p1']))),
    'n_EA_E_and_n_EB_E2p_AB_E': ([['n1', 'z1'], ['n2', 'z2']], lambda nv, d: [nv.n_EA_E_and_n_EB_E2p_AB_E(d['n1'], d['n2'], d['z1'], d['z2'])]),
    'n_EA_E_and_p_AB_E2n_EB_E': ([['n1', 'z1'], ['q1']], lambda nv, d: list(nv.n_EA_E_and_p_AB_E2n_EB_E(d['n1'], d['q1'], d['z1']))),
    'interpolate': ([['n1'], ['n2']], lambda nv, d: [nv.interpolate((d['n1'], d['n2']), 0.3)]),
    'intersect': ([['n1', 'n2'], ['n3', 'n4']], lambda nv, d: [nv.intersect((d['n1'], d['n2']), (d['n3'], d['n4']))]),
    'great_circle_normal': ([['n1'], ['n2']], lambda nv, d: [nv.great_circle_normal(d['n1'], d['n2'])]),
    'cross_track_distance': ([['n1', 'n2'], ['n3']], lambda nv, d: [nv.cross_track_distance((d['n1'], d['n2']), d['n3']), nv.cross_track_distance((d['n1'], d['n2']), d['n3'], method='euclidean')]),
    'on_great_circle': ([['n1', 'n2'], ['n3']], lambda nv, d: [nv.on_great_circle((d['n1'], d['n2']), d['n3'], atol=1e6)]),
    'on_great_circle_path': ([['n1', 'n2'], ['n3']], lambda nv, d: [nv.on_great_circle_path((d['n1'], d['n2']), d['n3'], atol=5e6)]),
    'closest_point_on_great_circle': ([['n1', 'n2'], ['n3']], lambda nv, d: [nv.closest_point_on_great_circle((d['n1'], d['n2']), d['n3'])]),
    'great_circle_distance': ([['n1'], ['n2']], lambda nv, d: [nv.great_circle_distance(d['n1'], d['n2'])]),
    'euclidean_distance': ([['n1'], ['n2']], lambda nv, d: [nv.euclidean_distance(d['n1'], d['n2'])]),
    'n_EA_E_and_n_EB_E2azimuth': ([['n1'], ['n2']], lambda nv, d: [nv.n_EA_E_and_n_EB_E2azimuth(d['n1'], d['n2'])]),
    'n_EA_E_distance_and_azimuth2n_EB_E': ([['n1'], ['rad1'], ['ang1']], lambda nv, d: [nv.n_EA_E_distance_and_azimuth2n_EB_E(d['n1'], d['rad1'], d['ang1'])]),
    'n_E2lat_lon': ([['n1']], lambda nv, d: list(nv.n_E2lat_lon(d['n1']))),
    'n_E2R_EN': ([['n1']], lambda nv, d: [nv.n_E2R_EN(d['n1'])]),
    'n_E_and_wa2R_EL': ([['n1', 'ang1']], lambda nv, d: [nv.n_E_and_wa2R_EL(d['n1'], d['ang1'])]),
    'xyz2R': ([['ang1', 'ang2', 'ang3']], lambda nv, d: [nv.xyz2R(d['ang1'], d['ang2'], d['ang3'])]),
    'zyx2R': ([['ang1', 'ang2', 'ang3']], lambda nv, d: [nv.zyx2R(d['ang1'], d['ang2'], d['ang3'])]),
    'R2xyz': ([['R1']], lambda nv, d: list(nv.R2xyz(d['R1'])), ('R1',)),      # the matrix is redundant
    'R2zyx': ([['R1']], lambda nv, d: list(nv.R2zyx(d['R1'])), ('R1',)),      # the matrix is redundant
    'R_EL2n_E': ([['R1']], lambda nv, d: [nv.R_EL2n_E(d['R1'])]),
    'R_EN2n_E': ([['R1']], lambda nv, d: [nv.R_EN2n_E(d['R1'])]),
    'deg': ([['ang1']], lambda nv, d: [nv.deg(d['ang1'])]),
    'rad': ([['ang1', 'ang2']], lambda nv, d: list(nv.rad(d['ang1'], d['ang2']))),
    'unit': ([['p1']], lambda nv, d: [nv.unit(d['p1'])]),
    'nthroot': ([['dist1']], lambda nv, d: [nv.util.nthroot(d['dist1'], 3)]),
    'isclose': ([['ang1'], ['ang2']], lambda nv, d: [nv.util.isclose(d['ang1'], d['ang2'], atol=0.5)]),
    'mdot': ([['R1'], ['R2']], lambda nv, d: [nv.util.mdot(d['R1'], d['R2'])]),
    'GeoPoint.to_nvector': ([G1], lambda nv, d: nz(geo(nv, d, '1').to_nvector())),
    'GeoPoint.to_ecef_vector': ([G1], lambda nv, d: [geo(nv, d, '1', True).to_ecef_vector().pvector]),
    'GeoPoint.latlon_deg': ([G1], lambda nv, d: list(geo(nv, d, '1').latlon_deg)),
    'Nvector.to_geo_point': ([['n1', 'z1']], lambda nv, d: latlonz(nv.Nvector(d['n1'], d['z1']).to_geo_point())),
    'Nvector.to_ecef_vector': ([['n1', 'z1']], lambda nv, d: [nv.Nvector(d['n1'], d['z1']).to_ecef_vector().pvector]),
    'Nvector.unit': ([['n1', 'z1']], lambda nv, d: unit_in_place(nv.Nvector(d['n1'], d['z1']))),
    'Nvector arithmetic': ([['n1', 'z1'], ['n2', 'z2']], lambda nv, d: nz((nv.Nvector(d['n1'], d['z1']) + nv.Nvector(d['n2'], d['z2'])) * 0.5) + nz(-(nv.Nvector(d['n1'], d['z1']) - nv.Nvector(d['n2'], d['z2'])) / 2)),
    'ECEFvector.to_geo_point': ([['p1']], lambda nv, d: latlonz(nv.ECEFvector(d['p1']).to_geo_point())),
    'ECEFvector.to_nvector': ([['p1']], lambda nv, d: nz(nv.ECEFvector(d['p1']).to_nvector())),
    'ECEFvector arithmetic': ([['p1'], ['q1']], lambda nv, d: [(nv.ECEFvector(d['p1']) + nv.ECEFvector(d['q1'])).pvector, (nv.ECEFvector(d['p1']) - nv.ECEFvector(d['q1'])).pvector]),
    'ECEFvector.length azimuth elevation': ([['p1']], lambda nv, d: lae(nv.ECEFvector(d['p1']))),
    'ECEFvector.change_frame': ([['p1']], lambda nv, d: [nv.ECEFvector(d['p1']).change_frame(nv.FrameB(nv.GeoPoint(0.3, 0.2), 0.1, 0.2, 0.3)).pvector]),
    'Pvector.to_ecef_vector': ([['q1']], lambda nv, d: [nv.Pvector(d['q1'], nv.FrameN(nv.GeoPoint(0.3, 0.2))).to_ecef_vector().pvector]),
    'Pvector.to_geo_point': ([['q1']], lambda nv, d: latlonz(nv.ECEFvector(nv.Pvector(d['q1'], nv.FrameL(nv.GeoPoint(0.3, 0.2), 0.4)).to_ecef_vector().pvector + np.array([[6e6], [2e6], [1e6]])).to_geo_point())),
    'displace': ([G1, ['dist1'], ['ang1']], lambda nv, d: disp(geo(nv, d, '1').displace(d['dist1'], d['ang1']))),
    'displace degrees': ([G1, ['dist1'], ['ang1']], lambda nv, d: disp(geo(nv, d, '1').displace(d['dist1'], np.degrees(d['ang1']), degrees=True, long_unroll=True))),
    'displace greatcircle': ([G1 + ['dist1', 'ang1']], lambda nv, d: disp(geo(nv, d, '1').displace(d['dist1'], d['ang1'], method='greatcircle'))),
    'distance_and_azimuth': ([G1, G2], lambda nv, d: list(geo(nv, d, '1').distance_and_azimuth(geo(nv, d, '2')))),
    'distance_and_azimuth degrees': ([G1, G2], lambda nv, d: list(geo(nv, d, '1').distance_and_azimuth(geo(nv, d, '2'), degrees=True, long_unroll=True))),
    'distance_and_azimuth greatcircle': ([G1, G2], lambda nv, d: list(geo(nv, d, '1').distance_and_azimuth(geo(nv, d, '2'), method='greatcircle'))),
    'FrameE.inverse': ([G1, ['lat2', 'lon2']], lambda nv, d: list(nv.FrameE().inverse(d['lat1'], d['lon1'], d['lat2'], d['lon2'], d['z1']))),
    'FrameE.direct': ([G1, ['ang1', 'dist1']], lambda nv, d: list(nv.FrameE().direct(d['lat1'], d['lon1'], d['ang1'], d['dist1'], d['z1']))),
    'delta_E': ([G1, G2], lambda nv, d: lae(nv.delta_E(geo(nv, d, '1'), geo(nv, d, '2')))),
    'delta_N': ([G1, G2], lambda nv, d: lae(nv.delta_N(geo(nv, d, '1'), geo(nv, d, '2')))),
    'delta_L': ([G1, G2], lambda nv, d: lae(nv.delta_L(geo(nv, d, '1'), geo(nv, d, '2'), wander_azimuth=0.2))),
    'GeoPath.track_distance': ([G1, G2], lambda nv, d: [path(nv, d).track_distance(m) for m in ('greatcircle', 'euclidean', 'ellipsoidal')]),
    'GeoPath.cross_track_distance': ([G1 + G2, G3], lambda nv, d: [path(nv, d).cross_track_distance(geo(nv, d, '3'), method=m, radius=r) for m, r in (('greatcircle', None), ('euclidean', 6e6))], ('z3',)),
    'GeoPath.intersect': ([G1 + G2, G3 + G4], lambda nv, d: nz(path(nv, d).intersect(nv.GeoPath(geo(nv, d, '3'), geo(nv, d, '4'))))),
    'GeoPath.on_great_circle': ([G1 + G2, G3], lambda nv, d: [path(nv, d).on_great_circle(geo(nv, d, '3'), atol=1e6)], ('z1', 'z2', 'z3')),
    'GeoPath.on_path': ([G1 + G2, G3], lambda nv, d: [path(nv, d).on_path(geo(nv, d, '3'), atol=5e6)]),
    'GeoPath.on_path ellipsoid': ([G1 + G2, G3], lambda nv, d: [path(nv, d).on_path(geo(nv, d, '3'), method='ellipsoid', rtol=0.5, atol=1e4)]),
    'GeoPath.closest_point_on_great_circle': ([G1 + G2, G3], lambda nv, d: latlonz(path(nv, d).closest_point_on_great_circle(geo(nv, d, '3'))), ('z3',)),
    'GeoPath.interpolate': ([G1, G2], lambda nv, d: nz(path(nv, d).interpolate(0.7))),
    # other ellipsoids and the other orientation of the axes, angles in degrees, derived and less used calls
    'lat_lon2n_E E': ([['lat1', 'lon1']], lambda nv, d: [nv.lat_lon2n_E(d['lat1'], d['lon1'], other(nv).R_Ee)]),
    'n_E2lat_lon E': ([['n1']], lambda nv, d: list(nv.n_E2lat_lon(d['n1'], other(nv).R_Ee))),
    'n_EB_E2p_EB_E E': ([['n1'], ['z1']], lambda nv, d: [nv.n_EB_E2p_EB_E(d['n1'], d['z1'], **af(nv))]),
    'p_EB_E2n_EB_E E': ([['p1']], lambda nv, d: list(nv.p_EB_E2n_EB_E(d['p1'], **af(nv)))),
    'n_EA_E_and_n_EB_E2p_AB_E E': ([['n1', 'z1'], ['n2', 'z2']], lambda nv, d: [nv.n_EA_E_and_n_EB_E2p_AB_E(d['n1'], d['n2'], d['z1'], d['z2'], **af(nv))]),
    'n_EA_E_and_p_AB_E2n_EB_E E': ([['n1', 'z1'], ['q1']], lambda nv, d: list(nv.n_EA_E_and_p_AB_E2n_EB_E(d['n1'], d['q1'], d['z1'], **af(nv)))),
    'n_EA_E_and_n_EB_E2azimuth E': ([['n1'], ['n2']], lambda nv, d: [nv.n_EA_E_and_n_EB_E2azimuth(d['n1'], d['n2'], **af(nv))]),
    'n_EA_E_distance_and_azimuth2n_EB_E E': ([['n1'], ['rad1'], ['ang1']], lambda nv, d: [nv.n_EA_E_distance_and_azimuth2n_EB_E(d['n1'], d['rad1'], d['ang1'], other(nv).R_Ee)]),
    'n_E2R_EN E': ([['n1']], lambda nv, d: [nv.n_E2R_EN(d['n1'], other(nv).R_Ee)]),
    'n_E_and_wa2R_EL E': ([['n1', 'ang1']], lambda nv, d: [nv.n_E_and_wa2R_EL(d['n1'], d['ang1'], other(nv).R_Ee)]),
    'n_E_and_wa2R_EL zero': ([['n1']], lambda nv, d: [nv.n_E_and_wa2R_EL(d['n1'], 0)]),
    'great_circle_distance radius': ([['n1'], ['n2'], ['dist1']], lambda nv, d: [nv.great_circle_distance(d['n1'], d['n2'], d['dist1'])]),
    'euclidean_distance radius': ([['n1'], ['n2'], ['dist1']], lambda nv, d: [nv.euclidean_distance(d['n1'], d['n2'], d['dist1'])]),
    'cross_track_distance radius': ([['n1', 'n2'], ['n3', 'dist1']], lambda nv, d: [nv.cross_track_distance((d['n1'], d['n2']), d['n3'], radius=d['dist1'])]),
    'interpolate outside': ([['n1', 'n2']], lambda nv, d: [nv.interpolate((d['n1'], d['n2']), t) for t in (-0.5, 1.5)]),
    'nthroot 2': ([['dist1']], lambda nv, d: [nv.util.nthroot(d['dist1'], 2)]),
    'rad deg many': ([['ang1', 'ang2', 'ang3']], lambda nv, d: list(nv.rad(d['ang1'], d['ang2'], d['ang3'])) + list(nv.deg(d['ang1'], d['ang2'], d['ang3']))),
    'unit nan': ([['p1']], lambda nv, d: [nv.unit(d['p1'], norm_zero_vector=np.nan)]),
    'mdot vector': ([['R1'], ['p1']], lambda nv, d: [nv.util.mdot(d['R1'], np.asarray(d['p1'])[:, None, :])]),
    'E GeoPoint.to_ecef_vector': ([G1], lambda nv, d: [ogeo(nv, d, '1').to_ecef_vector().pvector]),
    'E GeoPoint.to_nvector': ([G1], lambda nv, d: nz(ogeo(nv, d, '1').to_nvector())),
    'E Nvector.to_geo_point': ([['n1', 'z1']], lambda nv, d: latlonz(other(nv).Nvector(d['n1'], d['z1']).to_geo_point())),
    'E ECEFvector.to_geo_point': ([['p1']], lambda nv, d: latlonz(other(nv).ECEFvector(d['p1']).to_geo_point())),
    'E delta_to': ([G1, G2], lambda nv, d: lae(ogeo(nv, d, '1').delta_to(ogeo(nv, d, '2')))),
    'E displace': ([G1, ['dist1'], ['ang1']], lambda nv, d: disp(ogeo(nv, d, '1').displace(d['dist1'], d['ang1']))),
    'E distance_and_azimuth': ([G1, G2], lambda nv, d: list(ogeo(nv, d, '1').distance_and_azimuth(ogeo(nv, d, '2')))),
    'E GeoPath': ([G1, G2], lambda nv, d: [nv.GeoPath(ogeo(nv, d, '1'), ogeo(nv, d, '2')).track_distance(m) for m in ('exact', 'euclidean')]),
    'delta_to angles': ([G1, G2], lambda nv, d: degs(geo(nv, d, '1').to_nvector().delta_to(geo(nv, d, '2')))),
    'ECEF delta_to': ([['p1'], ['p2']], lambda nv, d: lae(nv.ECEFvector(d['p1']).delta_to(nv.ECEFvector(d['p2'])))),
    'delta_L wander': ([G1 + ['ang1'], G2], lambda nv, d: lae(nv.delta_L(geo(nv, d, '1'), geo(nv, d, '2'), wander_azimuth=d['ang1']))),
    'displace greatcircle degrees': ([G1 + ['dist1', 'ang1']], lambda nv, d: disp(geo(nv, d, '1', True).displace(d['dist1'], np.degrees(d['ang1']), degrees=True, method='greatcircle'))),
    'distance_and_azimuth greatcircle degrees': ([G1, G2], lambda nv, d: list(geo(nv, d, '1').distance_and_azimuth(geo(nv, d, '2', True), degrees=True, method='greatcircle'))),
    'FrameE.inverse degrees': ([['lat1', 'lon1'], ['lat2', 'lon2']], lambda nv, d: list(nv.FrameE().inverse(*[np.degrees(d[k]) for k in ('lat1', 'lon1', 'lat2', 'lon2')], long_unroll=True, degrees=True))),
    'FrameE.direct degrees': ([G1, ['ang1', 'dist1']], lambda nv, d: list(nv.FrameE().direct(*[np.degrees(d[k]) for k in ('lat1', 'lon1', 'ang1')], d['dist1'], d['z1'], long_unroll=True, degrees=True))),
    'GeoPath parts': ([G1 + G2], lambda nv, d: list(path(nv, d).nvector_normals()) + [x.pvector for x in path(nv, d).ecef_vectors()] + latlonz(path(nv, d).geo_points()[0])),
    'GeoPath of n-vectors': ([G1, G2], lambda nv, d: [nv.GeoPath(*pair(nv, d)).track_distance(m) for m in ('greatcircle', 'euclidean', 'exact')]),
    'GeoPath.track_distance radius': ([G1, G2], lambda nv, d: [path(nv, d).track_distance(m, radius=6371e3) + 0 * path(nv, d).track_distance() for m in ('greatcircle', 'euclidean')], ('z1', 'z2')),
    'Nvector minus': ([['n1', 'z1'], ['n2', 'z2']], lambda nv, d: nz(2 * nv.Nvector(d['n1'], d['z1']) - nv.Nvector(d['n2'], d['z2']) / 4)),
}


def unit_in_place(v):
    v.unit()
    return nz(v)


def lae(v):
    return [v.pvector, v.length, v.azimuth, v.elevation]


def disp(res):
    return latlonz(res[0]) + [res[1]]


# ------------------------------------------------------------------ the feed
def stream(r, kinds, size):
    """clean values for every input name; entry axis last"""
    out = {}
    for name in kinds:
        k = name.rstrip('1234')
        if k == 'lat':
            v = [r.uniform(-1.5, 1.5) for _ in range(size)]
        elif k == 'lon':
            v = [r.uniform(-3.1, 3.1) for _ in range(size)]
        elif k == 'z':
            v = [r.uniform(-5000, 5000) for _ in range(size)]
        elif k == 'ang':
            v = [r.uniform(-1.4, 1.4) for _ in range(size)]
        elif k == 'rad':
            v = [r.uniform(0.01, 3.0) for _ in range(size)]
        elif k == 'dist':
            v = [r.uniform(10, 9e6) for _ in range(size)]
        elif k in ('n', 'p', 'q'):
            rows = []
            for _ in range(size):
                x = [r.gauss(0, 1) for _ in range(3)]
                n = math.sqrt(sum(c * c for c in x))
                scale = {'n': 1.0, 'p': r.uniform(6.2e6, 7e6), 'q': r.uniform(1.0, 1e5)}[k]
                rows.append([c / n * scale for c in x])
            v = [[row[c] for row in rows] for c in range(3)]
        elif k == 'R':
            v = [[[0.0] * size for _ in range(3)] for _ in range(3)]
            for j in range(size):
                a, b, c = (r.uniform(-1.4, 1.4) for _ in range(3))
                ca, sa, cb, sb, cc, sc = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
                m = [[cb * ca, sc * sb * ca - cc * sa, cc * sb * ca + sc * sa], [cb * sa, sc * sb * sa + cc * ca, cc * sb * sa - sc * ca], [-sb, sc * cb, cc * cb]]
                for x in range(3):
                    for y in range(3):
                        v[x][y][j] = m[x][y]
        out[name] = v
    return out


def arrays(spec, win, clean):
    """the inputs of one window: (name -> array), and the entries with a corrupted value by name"""
    lo, hi = win['from'], win['to']
    d, hit = {}, {}
    for name, v in spec['data'].items():
        a = np.array(v, dtype=float)
        single = name in win['single']
        a = a[..., :1].copy() if single else a[..., lo:hi].copy()
        if not clean and not single:
            for nm, comp, at, what in spec['corrupt']:
                if nm == name and lo <= at < hi:
                    bad = BAD[what]
                    if bad is None:
                        bad = RANGE.get(name.rstrip('1234'), 1e9)
                    if comp is None or a.ndim == 1:
                        a[..., at - lo] = bad
                    else:
                        a.reshape(-1, hi - lo)[comp % (a.size // (hi - lo)), at - lo] = bad
                    hit.setdefault(at - lo, []).append((name, what))
        for j in hit:
            hit[j] = [h for h in hit[j] if h[0] != name or h[1] != 'nan' or np.isnan(a.reshape(-1, hi - lo)[:, j]).any()]
        how = win.get('layout')
        if single and a.ndim == 1 and how == 'scalar':
            a = float(a[0])
        elif how == 'F':
            a = np.asfortranarray(a)
        elif how == 'S' and a.ndim and a.shape[-1] > 1:
            big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
            big[..., ::2] = a
            a = big[..., ::2]
        d[name] = a
    return d, hit


def run_op(spec, win, clean):
    nv = values.nv
    d, hit = arrays(spec, win, clean)
    try:
        res = OPS[win['op']][1](nv, {k: v for k, v in d.items()})
        return [np.array(x) for x in res], hit
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:120]), hit


def child(spec, clean):
    return [run_op(spec, w, clean) for w in spec['windows']]


def alone(spec, win, hit):
    """entries of a window that are looked at alone: uncorrupted ones at its ends and beside corrupted ones"""
    n = win['to'] - win['from']
    good = [j for j in range(n) if not hit.get(j)]
    near = [j for j in good if hit.get(j - 1) or hit.get(j + 1)]
    return sorted(set(good[:1] + good[-1:] + near[:1])) if n > 1 else []


def child_alone(spec, asked):
    return {(k, j): run_op(spec, dict(spec['windows'][k], **{'from': spec['windows'][k]['from'] + j, 'to': spec['windows'][k]['from'] + j + 1}), True)[0] for k, j in asked}


def judge_alone(win, got, j, single):
    if isinstance(got, str):
        return
    if isinstance(single, str):
        yield 'entry %d alone raised %s' % (j, single)
        return
    n = win['to'] - win['from']
    if all(x in win['single'] for g in OPS[win['op']][0] for x in g):
        return
    for k, (x, y) in enumerate(zip(got, single)):
        a, b = x.reshape(-1, n)[:, j], y.ravel()
        if a.shape != b.shape:
            yield 'entry %d of result %d has %d values, alone %d' % (j, k, a.size, b.size)
        elif (a != b).any() if a.dtype.kind == 'b' else not np.allclose(a, b, rtol=1e-6, atol=1e-6 * max(1e-3, np.nanmax(np.abs(b)) if not np.isnan(b).all() else 0), equal_nan=True):
            yield 'entry %d of %d is not corrupted, but result %d is %s, alone it is %s' % (j, n, k, a, b)


def at_the_start(spec, win, j):
    """does entry j of the point lie at the start of the path?  It is on the path then, wherever the path ends"""
    d, _ = arrays(spec, win, False)
    at = lambda name: float(np.ravel(d[name])[j if np.size(d[name]) > 1 else 0])
    la, lo, lb, lob = at('lat1'), at('lon1'), at('lat3'), at('lon3')
    with np.errstate(all='ignore'):
        away = np.hypot(la - lb, np.cos(la) * np.angle(np.exp(1j * (lo - lob))))
    return bool(away < 5e-3)


def judge(spec, win, got, want, hit):
    n = win['to'] - win['from']
    used = [x for g in OPS[win['op']][0] for x in g]
    if all(x in win['single'] for x in used):
        n = 1
    loose = OPS[win['op']][2] if len(OPS[win['op']]) > 2 else ()
    hit = {j: [h for h in v if h[0] in used] for j, v in hit.items()}
    hit = {j: v for j, v in hit.items() if v}
    if isinstance(want, str):
        yield 'a clean batch raised %s' % want
        return
    if isinstance(got, str):
        yield 'the batch raised %s' % got
        return
    for k, (x, y) in enumerate(zip(got, want)):
        if x.shape != y.shape:
            yield 'result %d has shape %s, without the corruption %s' % (k, x.shape, y.shape)
            return
    batch = []
    for k, (x, y) in enumerate(zip(got, want)):
        if n == 1:
            batch.append((x.reshape(-1, 1), y.reshape(-1, 1)))
        elif x.ndim == 0 or x.shape[-1] != n:
            yield 'result %d has shape %s for %d entries' % (k, x.shape, n)
            return
        else:
            batch.append((x.reshape(-1, n), y.reshape(-1, n)))
    for j in range(n):
        for k, (x, y) in enumerate(batch):
            a, b = x[:, j], y[:, j]
            if j not in hit:
                if a.dtype.kind == 'b':
                    ok = (a == b).all()
                else:
                    ok = np.allclose(a, b, rtol=RTOL, atol=RTOL * max(1e-3, np.max(np.abs(b))) if np.isfinite(b).all() else 0, equal_nan=True)
                if not ok:
                    yield 'entry %d of %d is not corrupted, but result %d is %s instead of %s (corrupted: %s)' % (j, n, k, a, b, dict(list(hit.items())[:3]))
                    return
        if j in hit and any(w == 'nan' and nm not in loose for nm, w in hit[j]):
            if batch[0][0].dtype.kind == 'b':
                bad = {nm for nm, w in hit[j] if w == 'nan'}
                if bad <= {'lat2', 'lon2'} and win['op'] == 'GeoPath.on_path ellipsoid' and at_the_start(spec, win, j):
                    continue
                if any(x[:, j].any() for x, _ in batch):
                    yield 'entry %d has a NaN in %s but the answer is True' % (j, hit[j])
                    return
            elif not any(np.isnan(x[:, j]).any() for x, _ in batch):
                yield 'entry %d has a NaN in %s but the results are plain numbers: %s' % (j, hit[j], [x[:, j] for x, _ in batch])
                return


class C14(Base):
    id = 'C14'
    jobs = {'quick': 96, 'thorough': 2400}
    runs_per_job = 140
    rule = ('A case is one simulated sensor feed cut into windows of 1-40 (sometimes up to 520) entries that go through calls of the functional and the object interface, with entries or components replaced by NaN, infinities, zeros, '
            'huge or out-of-range values (single hits, bursts, drop-outs); distinct by calls, window sizes and corruption pattern.')
    stub = ['the sensors and their faults', 'clocks', 'warnings sink']
    assumptions = ['the uncorrupted batch, run in a fresh process, defines the right results of the other entries (relative 1e-9)', 'single entries that are paired with a whole batch are not corrupted']

    def job(self, r, tier, job):
        for _ in range(self.runs_per_job):
            yield make(r)

    def evaluate(self, spec):
        got = forks.in_child(child, spec, False)
        want = forks.in_child(child, spec, True)
        problems = []
        for k, (w, (g, hit), (c, _)) in enumerate(zip(spec['windows'], got, want)):
            problems.extend('window %d, %s: %s' % (k, w['op'], p) for p in judge(spec, w, g, c, hit))
        if not problems:
            asked = [(k, j) for k, (w, (_, hit)) in enumerate(zip(spec['windows'], got)) for j in alone(spec, w, hit)]
            single = forks.in_child(child_alone, spec, asked)
            for k, j in asked:
                problems.extend('window %d, %s: %s' % (k, spec['windows'][k]['op'], p) for p in judge_alone(spec['windows'][k], got[k][0], j, single[k, j]))
        fired = {}
        n = max(w['to'] for w in spec['windows']) if spec['windows'] else 0
        for nm, comp, at, what in spec['corrupt']:
            if any(w['from'] <= at < w['to'] and nm not in w['single'] and any(nm in g for g in OPS[w['op']][0]) for w in spec['windows']):
                fired[what] = fired.get(what, 0) + 1
        il = core.key([[w['op'], w['from'], w['to'], w['single']] for w in spec['windows']], spec['corrupt'])[:8]
        return problems[:6], dict(ops=len(spec['windows']), fired=fired, ils=[il], steps=n, simtime=0.1 * n, probes={'entries judged': sum(w['to'] - w['from'] for w in spec['windows'])})

    def candidates(self, spec):
        yield from core.list_candidates(spec, 'windows', 1)
        yield from core.list_candidates(spec, 'corrupt')
        used = {x for w in spec['windows'] for g in OPS[w['op']][0] for x in g}
        if used != set(spec['data']):
            yield dict(spec, data={k: v for k, v in spec['data'].items() if k in used})
        for k, w in enumerate(spec['windows']):
            n = w['to'] - w['from']
            for lo, hi in ((w['from'], w['from'] + n // 2), (w['from'] + n // 2, w['to']), (w['from'] + 1, w['to']), (w['from'], w['to'] - 1)):
                if 0 < hi - lo < n:
                    yield dict(spec, windows=[dict(x, **{'from': lo, 'to': hi}) if i == k else x for i, x in enumerate(spec['windows'])])
        size = max(w['to'] for w in spec['windows'])
        short = {k: (v[:size] if not isinstance(v[0], list) else [row[:size] if not isinstance(row[0], list) else [c[:size] for c in row] for row in v]) for k, v in spec['data'].items()}
        if short != spec['data']:
            yield dict(spec, data=short)

    def text(self, spec):
        out = ['%d corrupted values:' % len(spec['corrupt'])] + ['  %s%s entry %d: %s' % (c[0], '' if c[1] is None else ' component %d' % c[1], c[2], c[3]) for c in spec['corrupt'][:40]]
        out += ['windows:'] + ['  %s on entries %d..%d%s %s' % (w['op'], w['from'], w['to'] - 1, ', single: %s' % w['single'] if w['single'] else '', w.get('layout') or '') for w in spec['windows']]
        return '\n'.join(out)


SLOW = ('E displace', 'E distance_and_azimuth', 'E GeoPath', 'FrameE.inverse degrees', 'FrameE.direct degrees', 'GeoPath of n-vectors', 'displace', 'displace degrees', 'distance_and_azimuth', 'distance_and_azimuth degrees', 'FrameE.inverse', 'FrameE.direct', 'GeoPath.track_distance', 'GeoPath.on_path ellipsoid')


def again(v, j):
    """entry j is what entry j - 1 was"""
    if isinstance(v[0], list):
        for row in v:
            again(row, j)
    else:
        v[j] = v[j - 1]


def make(r):
    names = sorted(OPS)
    size = r.choice([2, 3, 3, 5, 8, 16, 40])
    long = r.random() < 0.08
    if long:          # what is done with numpy alone takes long feeds
        names = [x for x in names if x not in SLOW]
        size = r.choice([65, 100, 130, 257, 520])
    ops = [r.choice(names) for _ in range(r.choice([1, 2, 3]))]
    inputs = sorted({x for o in ops for g in OPS[o][0] for x in g})
    data = stream(r, inputs, size)
    if r.random() < 0.2:          # a vehicle at rest: most readings are what they were before
        moving = r.sample(inputs, r.choice([0, 0, 1, 2]) % (len(inputs) + 1))
        for j in range(1, size):
            if r.random() < 0.7:
                for x in inputs:
                    if x not in moving:
                        again(data[x], j)
    corrupt = []
    for _ in range(r.choice([1, 1, 2, 4])):
        what = r.choice(['nan', 'nan', 'nan', 'inf', '-inf', 'zero', 'huge', '-huge', 'out of range'])
        nm = r.choice(inputs)
        at = r.choice([0, size - 1, r.randrange(size), r.randrange(size)])
        style = r.choice(['one', 'one', 'component', 'burst', 'drop-out'])
        if style == 'one':
            corrupt.append([nm, None, at, what])
        elif style == 'component':
            corrupt.append([nm, r.randrange(9), at, what])
        elif style == 'burst':
            for j in range(at, min(size, at + r.randint(1, max(1, size // 2)))):
                corrupt.append([nm, None, j, what])
        else:
            for x in inputs:
                corrupt.append([x, None, at, what])
    windows = []
    for o in ops:
        groups = OPS[o][0]
        single = []
        if len(groups) > 1 and r.random() < 0.4:
            single = list(r.choice(groups))
        at = 0
        while at < size:
            n = r.choice([size, size, size - size // 4, size // 2 + 3] if long else [1, 2, 3, size, size])
            hi = min(size, at + n)
            windows.append({'op': o, 'from': at, 'to': hi, 'single': single, 'layout': r.choice([None, None, 'F', 'S', 'scalar'])})
            at = hi
            if len(windows) > 8:
                break
    return {'data': data, 'corrupt': corrupt, 'windows': windows}


PROP = C14()
