"""Client procedures: the tutorial's examples as small programs over library calls.

Each takes the package and ordinary inputs and returns something comparable.
"""
import numpy as np


def prog_ex1_delta(nv, frame, lat_a, lon_a, z_a, lat_b, lon_b, z_b):
    pa = frame.GeoPoint(lat_a, lon_a, z=z_a, degrees=True)
    pb = frame.GeoPoint(lat_b, lon_b, z=z_b, degrees=True)
    d = pa.delta_to(pb)
    return d.pvector, d.azimuth_deg, d.elevation_deg, d.length


def prog_ex1_fun(nv, lat_a, lon_a, z_a, lat_b, lon_b, z_b, a, f):
    na = nv.lat_lon2n_E(nv.rad(lat_a), nv.rad(lon_a))
    nb = nv.lat_lon2n_E(nv.rad(lat_b), nv.rad(lon_b))
    p = nv.n_EA_E_and_n_EB_E2p_AB_E(na, nb, z_a, z_b, a, f)
    R_EN = nv.n_E2R_EN(na)
    return np.dot(R_EN.T, p), nv.n_EA_E_and_n_EB_E2azimuth(na, nb, a, f)


def prog_ex2_body(nv, frame, lat, lon, z, yaw, pitch, roll, dx, dy, dz):
    origin = frame.GeoPoint(lat, lon, z, degrees=True)
    body = nv.FrameB(origin, yaw, pitch, roll, degrees=True)
    p = body.Pvector(np.r_[dx, dy, dz].reshape((-1, 1)))
    c = p.to_ecef_vector() + origin.to_ecef_vector()
    g = c.to_geo_point()
    return g.latlon_deg, body.R_EN


def prog_ex2_fun(nv, lat, lon, z, yaw, pitch, roll, dx, dy, dz, a, f):
    n = nv.lat_lon2n_E(nv.rad(lat), nv.rad(lon))
    R_NB = nv.zyx2R(nv.rad(yaw), nv.rad(pitch), nv.rad(roll))
    R_EB = nv.mdot(nv.n_E2R_EN(n), R_NB)
    p = nv.mdot(R_EB, np.vstack((dx, dy, dz))).reshape(3, -1)
    nc, zc = nv.n_EA_E_and_p_AB_E2n_EB_E(n, p, z, a, f)
    lat_c, lon_c = nv.n_E2lat_lon(nc)
    return nv.deg(lat_c), nv.deg(lon_c), zc, nv.R2zyx(R_NB)


def prog_ex3(nv, frame, x, y, z):
    p = frame.ECEFvector(np.vstack((x, y, z)))
    g = p.to_geo_point()
    return g.latlon_deg, p.to_nvector().normal


def prog_ex4(nv, frame, lat, lon, z):
    g = frame.GeoPoint(lat, lon, z, degrees=True)
    return g.to_ecef_vector().pvector, g.to_nvector().normal


def prog_ex5(nv, frame, lat_a, lon_a, lat_b, lon_b):
    a = frame.GeoPoint(lat_a, lon_a, degrees=True)
    b = frame.GeoPoint(lat_b, lon_b, degrees=True)
    path = nv.GeoPath(a, b)
    s, azi1, azi2 = a.distance_and_azimuth(b, degrees=True)
    return path.track_distance(), path.track_distance(method='euclidean'), s, azi1, azi2


def prog_ex6(nv, frame, lat_a, lon_a, lat_b, lon_b, t):
    path = nv.GeoPath(frame.GeoPoint(lat_a, lon_a, degrees=True), frame.GeoPoint(lat_b, lon_b, degrees=True))
    return path.interpolate(t).to_geo_point().latlon_deg


def prog_ex7(nv, frame, lats, lons):
    pts = frame.GeoPoint(lats, lons, degrees=True)
    return pts.to_nvector().mean().to_geo_point().latlon_deg


def prog_ex8(nv, frame, lat, lon, dist, azi):
    a = frame.GeoPoint(lat, lon, degrees=True)
    b, azb = a.displace(dist, azi, degrees=True)
    c, azc = a.displace(dist, azi, degrees=True, method='greatcircle')
    return b.latlon_deg, azb, c.latlon_deg, azc


def prog_ex9(nv, frame, p1, p2, q1, q2):
    mk = lambda p: frame.GeoPoint(p[0], p[1], degrees=True)
    a, b = nv.GeoPath(mk(p1), mk(p2)), nv.GeoPath(mk(q1), mk(q2))
    c = a.intersect(b)
    return c.to_geo_point().latlon_deg, c.normal


def prog_ex10(nv, frame, p1, p2, q):
    mk = lambda p: frame.GeoPoint(p[0], p[1], degrees=True)
    path, pt = nv.GeoPath(mk(p1), mk(p2)), mk(q)
    return (path.cross_track_distance(pt, method='greatcircle'), path.cross_track_distance(pt, method='euclidean'),
            path.closest_point_on_great_circle(pt).latlon_deg, path.closest_point_on_path(pt).latlon_deg,
            path.on_great_circle(pt), path.on_path(pt))


def prog_chain(nv, point):
    """conversions all the way round"""
    n = point.to_nvector()
    e = n.to_ecef_vector()
    g = e.to_geo_point()
    return n, e, g, g == point, nv.delta_E(point, g).length


def prog_local(nv, frame_local, a, b):
    """a position seen from a local frame and back"""
    d = nv.delta_E(a, b)
    loc = d.change_frame(frame_local)
    back = loc.to_ecef_vector()
    return loc.pvector, loc.azimuth, back.pvector, back == d


def prog_two_frames(nv, f1, f2, lat, lon, z):
    """the same coordinates on two ellipsoids, one after the other"""
    out = []
    for f in (f1, f2, f1):
        g = f.GeoPoint(lat, lon, z, degrees=True)
        out.append(g.to_ecef_vector().pvector)
        out.append(f.inverse(lat, lon, lat + 0.5, lon - 0.5, z, degrees=True))
    out.append(f1 == f2)
    return out


def prog_track(nv, t_i, t, normals, z, kind, window):
    track = nv.Nvector(normals, z)
    i = track.interpolate(t_i, t, kind=kind, window_length=window)
    j = nv.interp_nvectors(t_i, t, normals, kind=kind, window_length=window)
    return i.normal, i.z, j


def prog_mutate_own(nv, frame, lat, lon):
    """a client that edits its own objects between queries"""
    g = frame.GeoPoint(lat, lon, 0.0, degrees=True)
    r1 = g.to_nvector().normal
    g.latitude = g.latitude * 0.5
    r2 = g.to_nvector().normal
    n = g.to_nvector()
    n.normal = n.normal * 1.0
    n.normal[0] += 0.01
    n.unit()
    r3 = n.to_ecef_vector().pvector
    n.z = 25.0
    r4 = n.to_ecef_vector().pvector
    fr = nv.FrameL(g, wander_azimuth=0.1)
    r5 = fr.R_EN
    fr.wander_azimuth = 0.2
    r6 = fr.R_EN
    return r1, r2, r3, r4, r5, r6
