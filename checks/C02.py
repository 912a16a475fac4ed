"""C02 - coordinate values, and geodetic <-> geocentric conversion."""
import numpy as np

from aws.osml.photogrammetry import (GeodeticWorldCoordinate, ImageCoordinate, WorldCoordinate, geocentric_to_geodetic,
                                     geodetic_to_geocentric)

from .common import ecef

BOUNDS = "every longitude in (-pi, pi), latitude within 1.5 rad, elevation -1e3..1e6 m; any coordinate component values"
OUTSIDE = "PROJ's numerics: the conversion is an uninterpreted map with an exact inverse; poles and the antimeridian itself"


def to_ecef(env):
    f = ecef(env)
    lon, lat, h = env.real("lon", -3.14, 3.14), env.real("lat", -1.5, 1.5), env.real("h", -1000, 1e6)
    g = GeodeticWorldCoordinate([lon, lat, h])
    w = env.no_raise(lambda: geodetic_to_geocentric(g), "geodetic_to_geocentric")
    ref = f(lon, lat, h)
    for n, a, b in zip("xyz", (w.x, w.y, w.z), ref):
        env.require(env.eq(a, b, 1e-2), f"geocentric {n} is the WGS-84 position")
    env.require(env.And(env.eqb(g.longitude, lon), env.eqb(g.latitude, lat), env.eqb(g.elevation, h)), "input is not modified")
    b = env.no_raise(lambda: geocentric_to_geodetic(w), "geocentric_to_geodetic")
    env.require(isinstance(b, GeodeticWorldCoordinate), "result is a geodetic coordinate")
    env.require(env.eq(b.longitude, lon), "round trip longitude in radians")
    env.require(env.eq(b.latitude, lat), "round trip latitude in radians")
    env.require(env.eq(b.elevation, h, 1e-3), "round trip elevation in metres")


def from_ecef(env):
    f = ecef(env)
    # a geocentric point away from the polar axis and the earth's core
    x, y, z = env.real("x", 3e6, 7e6), env.real("y", -5e6, 5e6), env.real("z", -5e6, 5e6)
    w = WorldCoordinate([x, y, z])
    g = env.no_raise(lambda: geocentric_to_geodetic(w), "geocentric_to_geodetic")
    r = f(g.longitude, g.latitude, g.elevation)
    for n, a, b in zip("xyz", r, (x, y, z)):
        env.require(env.eq(a, b, 1e-2), f"the geodetic position names the same point, {n}")
    w2 = env.no_raise(lambda: geodetic_to_geocentric(g), "geodetic_to_geocentric")
    for n, a, b in zip("xyz", (w2.x, w2.y, w2.z), (x, y, z)):
        env.require(env.eq(a, b, 1e-2), f"round trip {n}")
    env.require(env.And(env.eqb(w.x, x), env.eqb(w.y, y), env.eqb(w.z, z)), "input is not modified")


def values(env, cls, n):
    v = [env.real(f"v{i}", -1e6, 1e6) for i in range(n)]
    w = [env.real(f"w{i}", -1e6, 1e6) for i in range(n)]
    names = {"WorldCoordinate": ["x", "y", "z"], "GeodeticWorldCoordinate": ["longitude", "latitude", "elevation"],
             "ImageCoordinate": ["c", "r"]}[cls.__name__]
    alias = ["x", "y", "z"][:n]
    for src in (lambda: list(v), lambda: tuple(v), lambda: env.arr(list(v))):
        s = src()
        c = env.no_raise(lambda: cls(s), "constructor")
        for k, (a, b) in enumerate(zip(names, alias)):
            env.require(env.eq(getattr(c, a), v[k]), f"{a} is component {k}")
            env.require(env.eq(getattr(c, b), v[k]), f"{b} is component {k}")
        # setting one component leaves the others and the source alone
        for k, a in enumerate(names if env.choice("alias", [0, 1]) == 0 else alias):
            setattr(c, a, w[k])
            for j, b in enumerate(names):
                env.require(env.eq(getattr(c, b), w[j] if j <= k else v[j]), "setting one component changes only that component")
        for k in range(n):
            env.require(env.eq(s[k], v[k]), "the source sequence is not changed by the coordinate")
    other = cls(list(v))
    s = env.arr(list(v))
    c = cls(s)
    s[0] = w[0]
    env.require(env.eq(getattr(c, names[0]), v[0]), "the coordinate does not share memory with its source")
    c2 = cls(c.coordinate)
    setattr(c2, names[0], w[0])
    env.require(env.eq(getattr(c, names[0]), v[0]), "copies are independent")
    env.require(env.eq(getattr(other, names[0]), v[0]), "instances are independent")
    d1, d2 = cls(), cls()
    setattr(d1, names[0], w[0])
    for a in names:
        env.require(env.eq(getattr(d2, a), 0.0), "default coordinates are zero and independent")
    for k in (0, 1, 2, 3, 4):
        r, e = env.call(lambda: cls([1.0] * k))
        env.require((e is None) if k == n else isinstance(e, ValueError), "wrong number of components is rejected with ValueError")


def cases(tier):
    return [dict(name="to-geocentric", body=to_ecef), dict(name="to-geodetic", body=from_ecef),
            dict(name="world-values", body=values, params=dict(cls=WorldCoordinate, n=3)),
            dict(name="geodetic-values", body=values, params=dict(cls=GeodeticWorldCoordinate, n=3)),
            dict(name="image-values", body=values, params=dict(cls=ImageCoordinate, n=2))]
