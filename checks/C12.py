"""C12 - affine (geotransform) sensor model: published formula, exact inverse, CRS axis order and units."""
import pyproj
from pyproj.enums import TransformDirection

from aws.osml.photogrammetry import GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate

from .common import PlaneElevation, warm_image, warm_world

BOUNDS = ("all invertible geotransforms with six symbolic coefficients, all pixels; projected imagery: the CRS conversion is an "
          "arbitrary invertible affine map (x, y) -> (lon, lat) degrees with symbolic coefficients; queries alone or after others")
OUTSIDE = "PROJ's own numerics (the CRS conversion is a stand-in that honours direction, axis order and units)"
PI180 = 3.141592653589793 / 180


class Crs:
    """pyproj transformer stand-in: source CRS (x, y) -> lon/lat degrees, affine and invertible"""

    def __init__(self, env, k, from_src, to_wgs, xy):
        self.env, self.k, self.xy = env, k, xy
        self.flip = not from_src

    def transform(self, xx, yy, zz=None, tt=None, radians=False, errcheck=False, direction=TransformDirection.FORWARD, inplace=False):
        a, b, c, d, e, f = self.k
        direction = getattr(direction, "value", direction)
        fwd = (direction == "FORWARD") != self.flip
        r = 180 / self.env.num(3.141592653589793)
        if fwd:
            x, y = xx, yy
            lon, lat = a + b * x + c * y, d + e * x + f * y
            if radians:
                lon, lat = lon / r, lat / r
            out = (lon, lat) if self.xy else (lat, lon)
        else:
            lon, lat = (xx, yy) if self.xy else (yy, xx)
            if radians:
                lon, lat = lon * r, lat * r
            det = b * f - c * e
            u, v = lon - a, lat - d
            out = ((f * u - c * v) / det, (b * v - e * u) / det)
        return out if zz is None else out + (zz,)


def _stub(env, k):
    wgs = pyproj.CRS.from_user_input("EPSG:4326")

    def from_crs(crs_from, crs_to, always_xy=False, **kw):
        cf, ct = pyproj.CRS.from_user_input(crs_from), pyproj.CRS.from_user_input(crs_to)
        return Crs(env, k, cf.is_projected, ct.is_geographic, always_xy)

    env.patch.attr(pyproj.Transformer, "from_crs", staticmethod(from_crs))


def _gt(env):
    g = [env.real("g0", -180, 180), env.real("g1", -2, 2), env.real("g2", -2, 2), env.real("g3", -90, 90), env.real("g4", -2, 2), env.real("g5", -2, 2)]
    det = g[1] * g[5] - g[2] * g[4]
    env.assume(env.Or(det > 0.05, det < -0.05))
    return g


def i2w(env, crs, elev, warm=False):
    g = _gt(env)
    k = None
    if crs:
        k = [env.real(f"k{i}", *r) for i, r in enumerate([(-50, 50), (0.5, 2), (-0.2, 0.2), (-20, 20), (-0.2, 0.2), (0.5, 2)])]
        _stub(env, k)
    m = env.no_raise(lambda: GDALAffineSensorModel(g, "EPSG:32618") if crs else GDALAffineSensorModel(g), "constructor")
    x, y = env.real("x", -1000, 1000), env.real("y", -1000, 1000)
    X, Y = g[0] + g[1] * x + g[2] * y, g[3] + g[4] * x + g[5] * y
    lon, lat = (k[0] + k[1] * X + k[2] * Y, k[3] + k[4] * X + k[5] * Y) if crs else (X, Y)
    d2r = env.num(3.141592653589793) / 180
    ic = ImageCoordinate([x, y])
    el = PlaneElevation(env.real("h0", -100, 3000), env.real("hx", -10, 10), env.real("hy", -10, 10)) if elev else None
    if warm:
        warm_image(env, m, -1000, 1000, elevation_model=el)
        warm_world(env, m)
        m.image_to_world(ImageCoordinate([x, env.real("warm_yy", -1000, 1000)]))
    w = env.no_raise(lambda: m.image_to_world(ic, elevation_model=el), "image_to_world")
    env.require(env.eq(w.longitude, lon * d2r), "longitude of the geotransform, in radians")
    env.require(env.eq(w.latitude, lat * d2r), "latitude of the geotransform, in radians")
    env.require(env.eq(w.elevation, el.at(w.longitude, w.latitude) if elev else 0.0), "elevation of the elevation model, else 0")
    env.require(env.And(env.eqb(ic.x, x), env.eqb(ic.y, y)), "input coordinate is not modified")
    q = env.no_raise(lambda: m.world_to_image(w), "world_to_image")
    env.require(env.eq(q.x, x, 1e-4), "round trip x")
    env.require(env.eq(q.y, y, 1e-4), "round trip y")
    w2 = env.no_raise(lambda: m.image_to_world(ic, elevation_model=el), "image_to_world")
    env.require(env.eq(w2.longitude, w.longitude), "repeatable longitude")
    env.require(env.eq(w2.latitude, w.latitude), "repeatable latitude")
    env.observe("w", [w.longitude, w.latitude, w.elevation])


def w2i(env, crs):
    g = _gt(env)
    if crs:
        k = [env.real(f"k{i}", *r) for i, r in enumerate([(-50, 50), (0.5, 2), (-0.2, 0.2), (-20, 20), (-0.2, 0.2), (0.5, 2)])]
        _stub(env, k)
    m = GDALAffineSensorModel(g, "EPSG:32618") if crs else GDALAffineSensorModel(g)
    lon, lat, h = env.real("lon", -3.1, 3.1), env.real("lat", -1.5, 1.5), env.real("h", -100, 9000)
    wc = GeodeticWorldCoordinate([lon, lat, h])
    q = env.no_raise(lambda: m.world_to_image(wc), "world_to_image")
    w = env.no_raise(lambda: m.image_to_world(q), "image_to_world")
    env.require(env.eq(w.longitude, lon, 1e-6), "world round trip, longitude")
    env.require(env.eq(w.latitude, lat, 1e-6), "world round trip, latitude")
    env.require(env.And(env.eqb(wc.longitude, lon), env.eqb(wc.latitude, lat), env.eqb(wc.elevation, h)), "input coordinate is not modified")


def singular(env):
    g = [env.real(f"g{i}", -100, 100) for i in range(6)]
    s = env.choice("kind", ["zero-row", "zero-col", "all-zero"])
    z = env.num(0.0)
    if s == "zero-row":
        g[1] = g[2] = z
    elif s == "zero-col":
        g[1] = g[4] = z
    else:
        g[1] = g[2] = g[4] = g[5] = z
    m, e = env.call(lambda: GDALAffineSensorModel(g))
    env.require(isinstance(e, ValueError), "a geotransform that cannot be inverted is rejected with ValueError")


def cases(tier):
    cs = [dict(name=f"i2w-crs{int(c)}-el{int(e)}", body=i2w, params=dict(crs=c, elev=e)) for c in (False, True) for e in (False, True)]
    return cs + [dict(name=f"w2i-crs{int(c)}", body=w2i, params=dict(crs=c)) for c in (False, True)] + [dict(name="singular", body=singular)] + [
        dict(name=f"i2w-crs{int(c)}-again", body=i2w, params=dict(crs=c, elev=True, warm=True)) for c in (False, True)]
