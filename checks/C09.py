"""C09 - RSM ground domain: conversion to / from geodetic coordinates, bounding box and reference height."""
from aws.osml.photogrammetry import GeodeticWorldCoordinate, RSMGroundDomain, RSMGroundDomainForm, WorldCoordinate

from .common import ecef

BOUNDS = ("every point with longitude -pi..pi; rectangular domains with a symbolic origin and the rotations of a set of rational orthonormal "
          "frames (quick 3, thorough 6); eight symbolic vertices with or without ground reference point")
OUTSIDE = "PROJ numerics (geodetic<->geocentric is an uninterpreted invertible map); other rotations"
PI = 3.141592653589793
F = {"G": RSMGroundDomainForm.GEODETIC, "H": RSMGroundDomainForm.GEODETIC_2PI, "R": RSMGroundDomainForm.RECTANGULAR}
ROT = [[[2 / 3, -1 / 3, 2 / 3], [2 / 3, 2 / 3, -1 / 3], [-1 / 3, 2 / 3, 2 / 3]],
       [[0.6, 0.8, 0.0], [-0.48, 0.36, 0.8], [0.64, -0.48, 0.6]],
       [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]],
       [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
       [[0.28, 0.96, 0.0], [-0.96, 0.28, 0.0], [0.0, 0.0, 1.0]],
       [[1.0, 0.0, 0.0], [0.0, 0.6, 0.8], [0.0, -0.8, 0.6]]]


def _verts(env, n=8):
    """a slab of geodetic vertices with a few symbolic displacements"""
    lo, la = env.real("vx", -2.9, 2.9), env.real("vy", -1.2, 1.2)
    d, e = env.real("vd", 0.001, 0.1), env.real("ve", 0.001, 0.1)
    hs = [env.real(f"h{i}", -100, 5000) for i in range(n)]
    s = [env.real(f"s{i}", -0.01, 0.01) for i in range(3)]
    v = [[lo + (d if i & 1 else 0) + (s[0] if i in (1, 6) else 0), la + (e if i & 2 else 0) + (s[1] if i in (2, 5) else 0) + (s[2] if i == 7 else 0),
          hs[i]] for i in range(n)]
    return v


def _bbox(env, gd, v, shift=None):
    lo = [v[0][0], v[0][1]]
    hi = list(lo)
    for p in v[1:]:
        for k in range(2):
            lo[k], hi[k] = env.ite(p[k] < lo[k], p[k], lo[k]), env.ite(p[k] > hi[k], p[k], hi[k])
    env.require_all_eq(gd.geodetic_lonlat_bbox, [lo[0], lo[1], hi[0], hi[1]], "bounding box is the extent of the vertices", 1e-9)


def _height(env, gd, ref):
    c = GeodeticWorldCoordinate([0.1, 0.2, 7.0])
    gd.default_elevation_model.set_elevation(c)
    env.require(env.eq(c.elevation, ref, 1e-3), "reference height is the ground reference point's, else the vertices' mean")


def geodetic(env, form, grp):
    v = _verts(env)
    ref = [v[0][0], v[0][1], env.real("gh", -500, 9000)] if grp else None
    gd = env.no_raise(lambda: RSMGroundDomain(F[form], [WorldCoordinate(list(p)) for p in v], ground_reference_point=WorldCoordinate(ref) if grp else None), "constructor")
    _height(env, gd, ref[2] if grp else sum(p[2] for p in v) / 8)
    _bbox(env, gd, v)
    lon, lat, h = env.real("lon", -3.1415, 3.1415), env.real("lat", -1.57, 1.57), env.real("h", -500, 9000)
    c = GeodeticWorldCoordinate([lon, lat, h])
    p = env.no_raise(lambda: gd.geodetic_to_ground_domain_coordinate(c), "to ground domain")
    if form == "G":
        env.require(env.eq(p.x, lon), "geodetic domain: x is the longitude")
    else:
        env.require(env.And(p.x >= -1e-9, p.x < 2 * env.num(PI) + 1e-9), "2pi domain: x is within 0..2pi")
        env.require(env.Or(env.And(p.x <= lon + 1e-9, p.x >= lon - 1e-9), env.And(p.x <= lon + 2 * env.num(PI) + 1e-9, p.x >= lon + 2 * env.num(PI) - 1e-9)),
                    "2pi domain: x is the longitude up to a full turn")
    env.require(env.eq(p.y, lat), "y is the latitude")
    env.require(env.eq(p.z, h), "z is the height")
    env.require(env.And(env.eqb(c.longitude, lon), env.eqb(c.latitude, lat), env.eqb(c.elevation, h)), "input is not modified")
    r = env.no_raise(lambda: gd.ground_domain_coordinate_to_geodetic(WorldCoordinate([lon, lat, h])), "to geodetic")
    if form == "G":
        env.require(env.eq(r.longitude, lon), "domain to geodetic, longitude")
    env.require(env.eq(r.latitude, lat), "domain to geodetic, latitude")
    env.require(env.eq(r.elevation, h), "domain to geodetic, height")
    b = env.no_raise(lambda: gd.ground_domain_coordinate_to_geodetic(p), "to geodetic")
    k = b.longitude - lon
    env.require(env.Or(env.And(k <= 1e-9, k >= -1e-9), env.And(k <= 2 * env.num(PI) + 1e-9, k >= 2 * env.num(PI) - 1e-9)), "round trip longitude (up to a full turn)")
    env.require(env.eq(b.latitude, lat), "round trip latitude")
    env.require(env.eq(b.elevation, h), "round trip height")


def rect(env, rot, grp):
    fwd = ecef(env)
    R = ROT[rot]
    o = [env.real("ox", 4e6, 4.2e6), env.real("oy", 3e6, 3.2e6), env.real("oz", 3.8e6, 4e6)]
    v = [[1000.0 * (i & 1), 1000.0 * (i >> 1 & 1), 100.0 * (i >> 2)] for i in range(8)]
    v[3][0] = env.real("v3", 800, 1200)
    ref = [env.real("g0", -500, 500), 200.0, 50.0] if grp else None
    gd = env.no_raise(lambda: RSMGroundDomain(F["R"], [WorldCoordinate(list(p)) for p in v], rectangular_coordinate_origin=WorldCoordinate(list(o)),
                                              rectangular_coordinate_unit_vectors=[list(r) for r in R],
                                              ground_reference_point=WorldCoordinate(ref) if grp else None), "constructor")
    lon, lat, h = env.real("lon", 0.5, 0.8), env.real("lat", 0.6, 0.7), env.real("h", -100, 5000)
    c = GeodeticWorldCoordinate([lon, lat, h])
    p = env.no_raise(lambda: gd.geodetic_to_ground_domain_coordinate(c), "to ground domain")
    e = fwd(lon, lat, h)
    for k, nm in enumerate("xyz"):
        want = sum(R[k][j] * (e[j] - o[j]) for j in range(3))
        env.require(env.eq(getattr(p, nm), want, 1e-2, 1e-7), f"rectangular {nm} is the projection on its axis of the offset from the origin")
    b = env.no_raise(lambda: gd.ground_domain_coordinate_to_geodetic(p), "to geodetic")
    env.require(env.eq(b.longitude, lon, 1e-7), "round trip longitude")
    env.require(env.eq(b.latitude, lat, 1e-7), "round trip latitude")
    env.require(env.eq(b.elevation, h, 1e-2), "round trip height")
    env.require(env.And(env.eqb(c.longitude, lon), env.eqb(c.latitude, lat), env.eqb(c.elevation, h)), "input is not modified")
    # a rectangular point given directly
    q = [env.real(f"q{k}", -5000, 5000) for k in range(3)]
    w = WorldCoordinate(list(q))
    g = env.no_raise(lambda: gd.ground_domain_coordinate_to_geodetic(w), "to geodetic")
    eg = fwd(g.longitude, g.latitude, g.elevation)
    for j in range(3):
        want = o[j] + sum(R[k][j] * q[k] for k in range(3))
        env.require(env.eq(eg[j], want, 1e-2, 1e-8), "earth centred position of a rectangular point")
    env.require(env.And(*[env.eqb(a, b) for a, b in zip((w.x, w.y, w.z), q)]), "input is not modified")
    if not env.symbolic or not grp:
        gv = [gd.ground_domain_coordinate_to_geodetic(WorldCoordinate(list(p))) for p in v]
        if not grp:
            _height(env, gd, sum(x.elevation for x in gv) / 8)
        else:
            _height(env, gd, gd.ground_domain_coordinate_to_geodetic(WorldCoordinate(ref)).elevation)
        if not env.symbolic:
            _bbox(env, gd, [[x.longitude, x.latitude] for x in gv])
    else:
        _height(env, gd, gd.ground_domain_coordinate_to_geodetic(WorldCoordinate(ref)).elevation)


def reject(env):
    n = env.choice("n", [0, 1, 4, 7, 9, 12])
    x = env.real("x", -1, 1)
    _, e = env.call(lambda: RSMGroundDomain(F[env.choice("f", list("GH"))], [WorldCoordinate([x, 0.1, 0.0])] * n))
    env.require(isinstance(e, ValueError), "anything but eight vertices is rejected with ValueError")
    kw = {}
    if env.choice("have", [0, 1, 2]) == 1:
        kw["rectangular_coordinate_origin"] = WorldCoordinate([1.0, 2.0, 3.0])
    elif env.choice("have", [0, 1, 2]) == 2:
        kw["rectangular_coordinate_unit_vectors"] = ROT[3]
    _, e = env.call(lambda: RSMGroundDomain(F["R"], [WorldCoordinate([x, 0.1 * i, 0.0]) for i in range(8)], **kw))
    env.require(isinstance(e, ValueError), "a rectangular domain without origin or axes is rejected with ValueError")


def cases(tier):
    cs = [dict(name=f"geodetic-{f}-grp{g}", body=geodetic, params=dict(form=f, grp=g)) for f in "GH" for g in (0, 1)]
    cs += [dict(name=f"rect-{r}-grp{g}", body=rect, params=dict(rot=r, grp=g)) for r in range(3 if tier == "quick" else 6) for g in (0, 1)]
    return cs + [dict(name="reject", body=reject)]
