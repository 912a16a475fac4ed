"""C31 - geolocating features: every image position of a feature goes to the ground position of that pixel."""
import copy
import math

import geojson
import geojson.geometry

from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
from aws.osml.features import geolocation as _geo
from aws.osml.photogrammetry import ElevationModel, GeodeticWorldCoordinate, SensorModel

from symx import core as _core, npshim as _np

from . import geom
from .C30 import flat, near

BOUNDS = ("sensor models that are affine in row and column (all coefficients symbolic, terrain slope included), with and without an elevation model; points, lines, rings, polygons with holes, "
          "multi geometries, collections and bounding boxes anywhere in the image; batches of up to 3 features at fixed distances in any order, with every kind of image property; grids of 2, 3 and 11 points per axis; features located before")
OUTSIDE = "the interpolation error of models that are not linear over the features; rounding to 6 decimals in geojson (0.1 m)"
DEG = 180 / math.pi


class Affine(SensorModel):
    def __init__(self, env):
        self.env = env
        self.a = [[env.real(f"{n}0", -1, 1), env.real(f"{n}x", -1e-4, 1e-4), env.real(f"{n}y", -1e-4, 1e-4)] for n in ("lon", "lat")]
        self.a.append([env.real("h0", -100, 3000), env.real("hx", -0.1, 0.1), env.real("hy", -0.1, 0.1)])
        self.terrain = None

    def at(self, x, y):
        return [c[0] + c[1] * x + c[2] * y for c in self.a]

    def image_to_world(self, c, elevation_model=None, options=None):
        p = self.at(c.x, c.y)
        if elevation_model is not self.terrain:  # ground on other terrain lies elsewhere
            p[0] = p[0] + 0.01
        return GeodeticWorldCoordinate(p)

    def world_to_image(self, w):
        raise NotImplementedError


class Terrain(ElevationModel):
    """an inclined plane"""

    def __init__(self, env):
        self.c = [env.real("t0", 0, 2000), env.real("tx", -300, 300), env.real("ty", -300, 300)]

    def at(self, lon, lat):
        return self.c[0] + self.c[1] * lon + self.c[2] * lat

    def set_elevation(self, w):
        w.elevation = self.at(w.longitude, w.latitude)
        return True

    def describe_region(self, w):
        return None


class Grid:
    """RectBivariateSpline of degree 1 over symbolic nodes (clamped at the borders)"""

    def __init__(self, x, y, z, bbox=(None,) * 4, kx=3, ky=3, s=0, maxit=20):
        if kx != 1 or ky != 1 or s != 0 or any(b is not None for b in bbox):
            raise _core.Unsupported("spline other than bilinear")
        self.x, self.y = [_np.unwrap0(v) for v in x], [_np.unwrap0(v) for v in y]
        self.z = _np.mkarr(z)
        for g in (self.x, self.y):
            if not all(bool(a < b) for a, b in zip(g, g[1:])):
                raise ValueError("x must be strictly increasing")
        if self.z.shape != (len(self.x), len(self.y)):
            raise ValueError("x/y dimension of z must have same number of elements as x/y")
        if len(self.x) < 2 or len(self.y) < 2:
            raise ValueError("too few points")

    @staticmethod
    def _cell(g, v):
        v = _core.Sym.const(_np.unwrap0(v))
        if bool(v <= g[0]):
            return 0, _core.Sym.const(0)
        if bool(v >= g[-1]):
            return len(g) - 2, _core.Sym.const(1)
        for i in range(len(g) - 2):
            if bool(v <= g[i + 1]):
                return i, (v - g[i]) / (g[i + 1] - g[i])
        i = len(g) - 2
        return i, (v - g[i]) / (g[i + 1] - g[i])

    def ev(self, x, y, dx=0, dy=0):
        i, u = self._cell(self.x, x)
        j, v = self._cell(self.y, y)
        z = self.z
        return z[i, j] * (1 - u) * (1 - v) + z[i + 1, j] * u * (1 - v) + z[i, j + 1] * (1 - u) * v + z[i + 1, j + 1] * u * v

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        if dx or dy:
            raise _core.Unsupported("spline derivative")
        fl = lambda v: list(_np.mkarr(v).reshape(-1)) if hasattr(v, "shape") or isinstance(v, (list, tuple)) else [v]  # noqa
        if not grid:
            return _np.mkarr([self.ev(a, b) for a, b in zip(fl(x), fl(y))])
        return _np.mkarr([[self.ev(a, b) for b in fl(y)] for a in fl(x)])


def setup(env, dem, size):
    ns = geom.install(env)
    if env.symbolic:
        env.patch.obj(_geo.RectBivariateSpline, Grid, owner=_geo, attr="RectBivariateSpline")
        env.patch.attr(geojson.base.GeoJSON, "__repr__", lambda self: "geojson " + str(self.get("type")))
        env.patch.attr(geojson.base.GeoJSON, "__str__", geojson.base.GeoJSON.__repr__)
        # geojson's rounding to 6 decimals is left out
        geojson.geometry.round = lambda x, n=None: x
        env.patch.attr(geojson.geometry, "round", geojson.geometry.round)
    m, t = Affine(env), Terrain(env) if dem else None
    m.terrain = t
    kw = {} if size is None else {"approximation_grid_size": size}
    return ns, m, t, Geolocator(ImagedFeaturePropertyAccessor(), m, t, **kw)


def world(m, t, x, y):
    lon, lat, h = m.at(x, y)
    return [lon * DEG, lat * DEG, t.at(lon, lat) if t else h]


def close(env, got, want, msg):
    env.require(len(got) == len(want), msg + ": longitude, latitude and elevation")
    for g, w, tol in zip(got, want, (2e-6, 2e-6, 1e-3)):
        env.require(env.eq(g, w, tol, 0), msg)


def coords(env, got, want, m, t, msg):
    """same structure, every position located"""
    if want and not isinstance(want[0], (list, tuple)):
        close(env, list(got), world(m, t, want[0], want[1]), msg)
        return
    if env.require(len(got) == len(want), msg + ": as many positions") is not False:
        for g, w in zip(got, want):
            coords(env, g, w, m, t, msg)


def geometry(env, g, d, m, t, msg):
    want = "LineString" if d["type"] == "LinearRing" else d["type"]
    env.require(g is not None and g["type"] == want, msg + ": same type of geometry")
    if d["type"] == "GeometryCollection":
        env.require(len(g["geometries"]) == len(d["geometries"]), msg + ": as many parts")
        for u, v in zip(g["geometries"], d["geometries"]):
            geometry(env, u, v, m, t, msg)
    else:
        coords(env, g["coordinates"], d["coordinates"], m, t, msg)


def bbox(env, got, r, m, msg):
    c = [m.at(x, y) for x in (r[0], r[2]) for y in (r[1], r[3])]
    lons, lats = [p[0] * DEG for p in c], [p[1] * DEG for p in c]
    env.require(got is not None and len(got) == 4, msg)
    tol = 2e-6
    for k, vs, s in ((0, lons, 1), (1, lats, 1), (2, lons, -1), (3, lats, -1)):
        env.require(env.And(*[s * (v - got[k]) >= -tol for v in vs]), msg + ": contains the corners")
        env.require(env.Or(*[s * (v - got[k]) <= tol for v in vs]), msg + ": is tight")


def centre(env, f, x, y, m, msg):
    lon, lat, h = m.at(x, y)
    env.require(env.eq(f["properties"]["center_longitude"], lon * DEG, 1e-6, 0), msg + ": center longitude")
    env.require(env.eq(f["properties"]["center_latitude"], lat * DEG, 1e-6, 0), msg + ": center latitude")


def moved(env, kind, name="g"):
    """fixed shapes anywhere in the image"""
    x, y = env.real(name + "x", 0, 4000), env.real(name + "y", 0, 4000)
    k = env.choice(name + "size", [1.0, 40.0])
    at = lambda *ps: [[x + k * a, y + k * b] for a, b in ps]  # noqa
    ring, hole = at((0, 0), (9, 1), (7, 6), (-1, 4), (0, 0)), at((2, 2), (3, 4), (5, 3), (2, 2))
    line, short = at((0, 0), (3, 4), (3, -2)), at((10, 0), (10, 1.5))
    if kind == "Collection":
        return {"type": "GeometryCollection", "geometries": [{"type": "Point", "coordinates": at((-5, 8))[0]}, {"type": "LineString", "coordinates": line}]}
    return {"type": kind if kind != "Hole" else "Polygon",
            "coordinates": {"Point": at((0, 0))[0], "LineString": line, "LinearRing": ring, "Polygon": [ring], "Hole": [ring, hole], "MultiPoint": at((0, 0), (4, 1), (-3, 7)),
                            "MultiLineString": [line, short], "MultiPolygon": [[ring, hole], [at((20, 0), (24, 0), (24, -5), (20, 0))]]}[kind]}


def one(env, kind, size, dem, other):
    """the geometry of a feature, alone or with another one far away"""
    ns, m, t, g = setup(env, dem, size)
    d = moved(env, kind)
    fs = [geojson.Feature(geometry=None, properties={"name": "a", "imageGeometry": copy.deepcopy(d)}, id="one")]
    if other is not None:
        dx, dy = env.choice("away", [(-300.0, 200.0), (5.0, -7.0), (60.0, 900.0)])
        p0 = d["coordinates"]
        while isinstance(p0[0], (list, tuple)):
            p0 = p0[0]
        ox, oy = p0[0] + dx, p0[1] + dy
        orect = (ox, oy, ox + 60, oy + 40)
        o = geojson.Feature(geometry=None, properties={"imageBBox": list(orect)} if other % 2 else {"imageGeometry": {"type": "Point", "coordinates": [ox, oy]}})
        fs.insert(0 if other < 2 else 1, o)
    env.no_raise(lambda: g.geolocate_features(fs), "geolocate_features")
    f = next(f for f in fs if f.get("id") == "one")
    geometry(env, f.get("geometry"), d, m, t, "positions of the feature are located")
    env.require(f.get("bbox") is None, "no bounding box without an image bounding box")
    env.require(f["properties"]["name"] == "a", "other properties stay")
    a, b = flat(f["properties"]["imageGeometry"]), flat(d)
    env.require(len(a) == len(b) and all(u == v for u, v in zip(a, b) if isinstance(v, str)), "the image geometry stays")
    env.require(env.And(*[near(env, u, v) for u, v in zip(a, b) if not isinstance(v, str)]), "the image geometry stays")
    c = ns.shape(d).centroid
    centre(env, f, c.x, c.y, m, "center of the feature")
    if other is not None:
        o = next(f for f in fs if f.get("id") != "one")
        if other % 2:
            bbox(env, o.get("bbox"), orect, m, "bounding box of the other feature")
            centre(env, o, ox + 30, oy + 20, m, "center of the other feature")
        else:
            geometry(env, o.get("geometry"), {"type": "Point", "coordinates": [ox, oy]}, m, t, "the other feature is located")


def box(env, dem, also, stale=False):
    """image bounding box, alone or with a geometry somewhere in the image"""
    ns, m, t, g = setup(env, dem, 2)
    x, y, w, h = env.real("bx", 0, 4000), env.real("by", 0, 4000), env.choice("w", [1.0, 150.0]), env.choice("h", [3.0, 400.0])
    r = (x, y, x + w, y + h)
    P = {"imageBBox": list(r)}
    d = None
    if also:
        px, py = env.choice("p", [(0.5, 1.0), (-40.0, 30.0), (300.0, -200.0)])
        d = {"type": "Point", "coordinates": [x + px, y + py]}
        P["imageGeometry"] = copy.deepcopy(d)
    f = geojson.Feature(geometry=None, properties=P)
    if stale:  # located before, by another model
        if env.choice("stale", ["bbox", "center"]) == "bbox":
            f["bbox"] = [1.0, 2.0, 3.0, 4.0]
        P["center_longitude"], P["center_latitude"] = 1.5, -2.5
        if also:
            f["geometry"] = geojson.Point((1.5, -2.5))
    env.no_raise(lambda: g.geolocate_features([f]), "geolocate_features")
    bbox(env, f.get("bbox"), r, m, "bounding box")
    if also:
        geometry(env, f.get("geometry"), d, m, t, "positions of the feature are located")
        centre(env, f, d["coordinates"][0], d["coordinates"][1], m, "center of the geometry")
    else:
        env.require(f.get("geometry") is None, "no geometry is made up")
        centre(env, f, (r[0] + r[2]) / 2, (r[1] + r[3]) / 2, m, "center of the box")


def deprecated(env, which, allowed):
    ns, m, t, g = setup(env, False, 2)
    if not allowed:
        g.property_accessor = ImagedFeaturePropertyAccessor(allow_deprecated=False)
    x, y = env.real("x", 0, 4000), env.real("y", 0, 4000)
    r = (x, y, x + 30, y + 17)
    if which == "bounds_imcoords":
        P = {which: list(r)}
        c = [[r[2], r[1]], [r[2], r[3]], [r[0], r[3]], [r[0], r[1]], [r[2], r[1]]]
        d = {"type": "Polygon", "coordinates": [c]}
    elif which == "geom_imcoords":
        d = moved(env, "Polygon")
        P = {which: d["coordinates"][0]}
    else:
        d = {"type": "Point", "coordinates": [r[0], r[3]]}
        P = {"detection": {"type": "Point", "pixelCoordinates": [r[0], r[3]]}}
    f = geojson.Feature(geometry=None, properties=P)
    keep = len(P)
    env.no_raise(lambda: g.geolocate_features([f]), "geolocate_features")
    if not allowed:
        env.require(f.get("geometry") is None and len(f["properties"]) == keep, "deprecated properties are not used unless allowed")
        return
    geometry(env, f.get("geometry"), d, m, t, "positions of the deprecated property are located")
    c = ns.shape(d).centroid
    centre(env, f, c.x, c.y, m, "center of the feature")


def batch(env, order, size):
    """places of different features do not mix; features without image position are left alone"""
    ns, m, t, g = setup(env, True, size)
    K = {}
    X, Y, far = env.real("x", 0, 4000), env.real("y", 0, 4000), env.choice("far", [0.0, 1.0])

    def feature(k, i):
        if k == "none":
            return geojson.Feature(geometry=None, properties={"n": i})
        x, y = ((500.0, 2500.0, 1100.0)[i], (800.0, 300.0, 1900.0)[i]) if size is None else (X + (0, -700, 90)[i] * far, Y + (0, 11, 300)[i] * far)
        K[i] = (x, y)
        if k == "box":
            return geojson.Feature(geometry=None, properties={"n": i, "imageBBox": [x, y, x + 20, y + 30]})
        if k == "world":
            return geojson.Feature(geometry=geojson.Point((1.0, 2.0)), properties={"n": i, "imageGeometry": {"type": "Point", "coordinates": [x, y]}})
        return geojson.Feature(geometry=None, properties={"n": i, "imageGeometry": {"type": "Point", "coordinates": [x, y]}})

    fs = [feature(k, i) for i, k in enumerate(order)]
    keep = list(fs)
    env.no_raise(lambda: g.geolocate_features(fs), "geolocate_features")
    env.require(len(fs) == len(keep) and all(a is b for a, b in zip(fs, keep)), "features are updated in place")
    for i, (k, f) in enumerate(zip(order, fs)):
        env.require(f["properties"]["n"] == i, "properties stay")
        if k == "none":
            env.require(f.get("geometry") is None and f.get("bbox") is None and list(f["properties"]) == ["n"], "features without image position are left alone")
        elif k == "box":
            x, y = K[i]
            bbox(env, f.get("bbox"), (x, y, x + 20, y + 30), m, "bounding box")
            centre(env, f, x + 10, y + 15, m, "center of the box")
        else:
            geometry(env, f.get("geometry"), {"type": "Point", "coordinates": list(K[i])}, m, t, "positions of the feature are located")
            centre(env, f, K[i][0], K[i][1], m, "center of the point")


def twice(env):
    """a geolocator is not changed by what it located before"""
    ns, m, t, g = setup(env, False, 2)
    P = [[env.real(f"x{i}", 0, 4000), env.real(f"y{i}", 0, 4000)] for i in range(2)]
    same = env.choice("same", [False, True])
    f = None
    for p in P:
        if same and f is not None:  # the same feature, moved
            f["properties"]["imageGeometry"] = {"type": "Point", "coordinates": list(p)}
        else:
            f = geojson.Feature(geometry=None, properties={"imageGeometry": {"type": "Point", "coordinates": list(p)}})
        env.no_raise(lambda: g.geolocate_features([f]), "geolocate_features")
        geometry(env, f.get("geometry"), {"type": "Point", "coordinates": p}, m, t, "positions of the feature are located")
        centre(env, f, p[0], p[1], m, "center of the feature")
    env.no_raise(lambda: g.geolocate_features([]), "no features")


def cases(tier):
    q = tier == "quick"
    cs = []

    def add(body, name, **k):
        cs.append(dict(name=name, body=body, params=k))

    for kind in ("Point", "LineString", "LinearRing", "Polygon", "Hole", "MultiPoint", "MultiLineString", "MultiPolygon", "Collection"):
        for dem in (False, True):
            if q and dem and kind not in ("Point", "Hole"):
                continue
            add(one, f"one-{kind}-{int(dem)}", kind=kind, size=2, dem=dem, other=None)
    for o in range(4):
        add(one, f"one-other-{o}", kind="Point" if o % 2 else "Polygon", size=2, dem=False, other=o)
    add(one, "one-grid3", kind="Point", size=3, dem=True, other=0)
    for dem in (False, True):
        for also in (False, True):
            add(box, f"box-{int(dem)}-{int(also)}", dem=dem, also=also)
            if dem == also or not q:
                add(box, f"box-{int(dem)}-{int(also)}-again", dem=dem, also=also, stale=True)
    for w in ("bounds_imcoords", "geom_imcoords", "detection"):
        for al in (True, False):
            add(deprecated, f"deprecated-{w}-{int(al)}", which=w, allowed=al)
    for o in (("none",), ("none", "none"), ("none", "point"), ("point", "none", "box"), ("world", "box")) if q else \
            (("none",), ("none", "none"), ("none", "point"), ("point", "none", "box"), ("box", "none", "point"), ("world", "box"), ("box", "box", "none"), ("point", "point", "world")):
        add(batch, "batch-" + "-".join(o), order=o, size=2)
        add(batch, "batch11-" + "-".join(o), order=o, size=None)
    add(twice, "twice")
    return cs
