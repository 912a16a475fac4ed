"""C04 - elevation models: bilinear terrain height of the right tile, untouched when there is none, independent of history."""
import numpy as np
import scipy.interpolate as si
from osgeo import gdal

from aws.osml.gdal import GDALDigitalElevationModelTileFactory
from aws.osml.photogrammetry import (ConstantElevationModel, DigitalElevationModel, DigitalElevationModelTileFactory, DigitalElevationModelTileSet,
                                     ElevationRegionSummary, GeodeticWorldCoordinate, ImageCoordinate)
from symx import core, npshim

from .common import RecordingModel, ecef

BOUNDS = ("2x3, 3x2 and 3x3 tiles with symbolic posts, every query point in and around the tile, symbolic affine tile geometry; histories of "
          "up to 3 (quick) / 4 (thorough) queries over 3 tiles (one missing, one without sensor model) with cache sizes 1, 2 and 10")
OUTSIDE = "larger grids (the same bilinear piece per cell); scipy's spline numerics; GDAL raster decoding"


def _flat(v):
    v = npshim.unwrap0(v)
    return list(v.reshape(-1)) if isinstance(v, np.ndarray) else list(v) if isinstance(v, (list, tuple)) else [v]


class Spline:
    """RectBivariateSpline of degree 1 (interpolating, clamped at the borders)"""

    def __init__(self, x, y, z, bbox=(None,) * 4, kx=3, ky=3, s=0, maxit=20):
        if kx != 1 or ky != 1 or s != 0 or any(b is not None for b in bbox):
            raise core.Unsupported("spline other than bilinear")
        self.x, self.y = [float(v) for v in x], [float(v) for v in y]
        self.z = npshim.mkarr(z)
        if self.z.shape != (len(self.x), len(self.y)):
            raise ValueError("x/y dimension of z must have same number of elements as x/y")
        if len(self.x) < 2 or len(self.y) < 2:
            raise ValueError("too few points")

    @staticmethod
    def _cell(g, v):
        v = core.Sym.const(npshim.unwrap0(v))
        if bool(v <= g[0]):
            return 0, core.Sym.const(0)
        if bool(v >= g[-1]):
            return len(g) - 2, core.Sym.const(1)
        for i in range(len(g) - 2):
            if bool(v <= g[i + 1]):
                return i, (v - g[i]) / (g[i + 1] - g[i])
        i = len(g) - 2
        return i, (v - g[i]) / (g[i + 1] - g[i])

    def ev(self, x, y, dx=0, dy=0):
        i, u = self._cell(self.x, x)
        j, v = self._cell(self.y, y)
        z = self.z
        return z[i, j] * (1 - u) * (1 - v) + z[i + 1, j] * u * (1 - v) + z[i, j + 1] * (1 - u) * v + z[i + 1, j + 1] * u * v

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        if dx or dy:
            raise core.Unsupported("spline derivative")
        if not grid:
            return npshim.mkarr(self.ev(x, y))
        return npshim.mkarr([[self.ev(a, b) for b in _flat(y)] for a in _flat(x)])


class Tiles(DigitalElevationModelTileSet):
    """tile by a longitude threshold"""

    def __init__(self, cuts):
        super().__init__()
        self.cuts = cuts

    def find_tile_id(self, c):
        for nm, hi in self.cuts:
            if hi is None or c.longitude < hi:
                return nm


class Factory(DigitalElevationModelTileFactory):
    def __init__(self, tiles):
        super().__init__()
        self.tiles, self.asked = tiles, []

    def get_tile(self, p):
        self.asked.append(p)
        return self.tiles.get(p, (None, None, None))


def _tile(env, tag, h, w, kx=None):
    """posts, geometry (affine world -> grid)"""
    z = [[env.real(f"{tag}z{r}_{c}", -400, 8800) for c in range(w)] for r in range(h)]
    if kx is None:
        k = [env.real(f"{tag}k{i}", *b) for i, b in enumerate([(-1, 1), (1, 3), (-0.5, 0.5), (-1, 1), (-0.5, 0.5), (1, 3)])]
    else:
        k = kx
    f = lambda lon, lat: (k[0] + k[1] * lon + k[2] * lat, k[3] + k[4] * lon + k[5] * lat)
    m = RecordingModel(tag, lambda lon, lat, e: list(f(lon, lat)), None)
    sm = ElevationRegionSummary(min_elevation=1.0, max_elevation=2.0, no_data_value=-32767, post_spacing=30.0)
    return z, f, m, sm


def _bilinear(env, z, x, y):
    """oracle; grid column x, grid row y, clamped"""
    h, w = len(z), len(z[0])
    cl = lambda v, n: env.ite(v < 0, env.num(0.0), env.ite(v > n - 1, env.num(float(n - 1)), v))
    x, y = cl(x, w), cl(y, h)
    r = None
    for i in range(h):
        for j in range(w):
            hat = lambda v, c: env.ite(abs(v - c) < 1, 1 - abs(v - c), env.num(0.0))
            t = z[i][j] * hat(x, j) * hat(y, i)
            r = t if r is None else r + t
    return r


def _model(env, *a, **k):
    if env.symbolic:
        env.patch.obj(si.RectBivariateSpline, Spline, owner=si, attr="RectBivariateSpline")
    return DigitalElevationModel(*a, **k)


def height(env, h, w):
    z, f, m, sm = _tile(env, "t", h, w, [0.25, 1.5, -0.25, 0.125, 0.5, 2.0])
    dem = _model(env, Tiles([("t", None)]), Factory({"t": (env.arr(z), m, sm)}))
    lon, lat, e = env.real("lon", -2, 4), env.real("lat", -1.5, 1.5), env.real("e", -100, 100)
    c = GeodeticWorldCoordinate([lon, lat, e])
    env.no_raise(lambda: dem.set_elevation(c), "set_elevation")
    x, y = f(lon, lat)
    env.require(env.eq(c.elevation, _bilinear(env, z, x, y), 1e-3), "elevation is the bilinear interpolation of the posts around the point")
    env.require(env.And(env.eqb(c.longitude, lon), env.eqb(c.latitude, lat)), "longitude and latitude are untouched")
    env.require(dem.describe_region(c) is sm or dem.describe_region(c) == sm, "region summary is the tile's")


def geometry(env):
    z, f, m, sm = _tile(env, "t", 3, 3)
    dem = _model(env, Tiles([("t", None)]), Factory({"t": (env.arr(z), m, sm)}))
    lon, lat = env.real("lon", 0, 1), env.real("lat", 0, 1)
    x, y = f(lon, lat)
    env.assume(env.And(x > 0.1, x < 0.9, y > 1.1, y < 1.9))
    c = GeodeticWorldCoordinate([lon, lat, 5.0])
    env.no_raise(lambda: dem.set_elevation(c), "set_elevation")
    u, v = x, y - 1
    ref = z[1][0] * (1 - u) * (1 - v) + z[1][1] * u * (1 - v) + z[2][0] * (1 - u) * v + z[2][1] * u * v
    env.require(env.eq(c.elevation, ref, 1e-3), "the tile's own geometry locates the posts (columns from x, rows from y)")


def history(env, n, cache):
    k = [0.0, 1.0, 0.0, 0.0, 0.0, 1.0]
    A, B = _tile(env, "a", 2, 3, k), _tile(env, "b", 3, 2, k)
    none, nomodel = (None, None, None), (env.arr([[1.0, 2.0], [3.0, 4.0]]), None, None)
    cuts = [("a", 0.25), ("b", 0.5), ("gone", 0.75), ("nomodel", 0.9), (None, None)]
    tiles = {"a": (env.arr(A[0]), A[2], A[3]), "b": (env.arr(B[0]), B[2], B[3]), "gone": none, "nomodel": nomodel}
    B[3].min_elevation = 77.0
    dem = _model(env, Tiles(cuts), Factory(tiles), raster_cache_size=cache)
    for q in range(n):
        which = env.choice(f"w{q}", ["a", "b", "gone", "nomodel", None])
        lo = {"a": 0.05, "b": 0.3, "gone": 0.55, "nomodel": 0.8, None: 0.95}[which]
        lon, lat, e = env.real(f"x{q}", lo, lo + 0.04), env.real(f"y{q}", 0.1, 0.9), env.real(f"e{q}", -9, 9)
        c = GeodeticWorldCoordinate([lon, lat, e])
        env.no_raise(lambda: dem.set_elevation(c), "set_elevation")
        s = env.no_raise(lambda: dem.describe_region(c), "describe_region")
        if which in ("a", "b"):
            T = A if which == "a" else B
            z = T[0]
            ref = z[0][0] * (1 - lon) * (1 - lat) + z[0][1] * lon * (1 - lat) + z[1][0] * (1 - lon) * lat + z[1][1] * lon * lat
            env.require(env.eq(c.elevation, ref, 1e-3), "elevation does not depend on earlier queries")
            env.require(s is not None and s.min_elevation == T[3].min_elevation, "region summary belongs to the tile of the point")
        else:
            env.require(env.eqb(c.elevation, e), "elevation is unchanged where there is no data")
            env.require(s is None, "no region summary where there is no data")
        env.require(env.And(env.eqb(c.longitude, lon), env.eqb(c.latitude, lat)), "longitude and latitude are untouched")


def constant(env):
    h = env.real("h", -500, 9000)
    m = ConstantElevationModel(h)
    lon, lat, e = env.real("lon", -3, 3), env.real("lat", -1.5, 1.5), env.real("e", -500, 9000)
    c = GeodeticWorldCoordinate([lon, lat, e])
    env.no_raise(lambda: m.set_elevation(c), "set_elevation")
    env.require(env.eq(c.elevation, h), "constant elevation everywhere")
    env.require(env.And(env.eqb(c.longitude, lon), env.eqb(c.latitude, lat)), "longitude and latitude are untouched")
    s = m.describe_region(c)
    env.require(env.eq(s.min_elevation, h), "constant region summary, minimum")
    env.require(env.eq(s.max_elevation, h), "constant region summary, maximum")


class Band:
    def __init__(self, z, stats, nd):
        self.z, self.stats, self.nd = z, stats, nd

    def ReadAsArray(self, xoff=0, yoff=0, xs=None, ys=None, **k):
        h, w = self.z.shape
        return self.z[yoff:yoff + (ys or h), xoff:xoff + (xs or w)]

    def GetStatistics(self, approx, force):
        return list(self.stats)

    def GetNoDataValue(self):
        return self.nd


class Ds:
    def __init__(self, bands, gt):
        self.bands, self.gt = bands, gt
        self.RasterYSize, self.RasterXSize = bands[0].z.shape
        self.RasterCount = len(bands)

    def GetGeoTransform(self, can_return_null=False):
        if self.gt is None:
            return None if can_return_null else (0.0, 1.0, 0.0, 0.0, 0.0, 1.0)
        return self.gt

    def GetRasterBand(self, i):
        return self.bands[i - 1]

    def ReadAsArray(self, xoff=0, yoff=0, xs=None, ys=None, **k):
        return self.bands[0].ReadAsArray(xoff, yoff, xs, ys)


def gdal_tile(env, root, kind):
    fwd = ecef(env)
    z = env.arr([[env.real(f"z{r}_{c}", -400, 8800) for c in range(3)] for r in range(2)])
    gt = [env.real("g0", -100, 100), env.real("g1", 0.01, 0.1), env.num(0.0), env.real("g3", -60, 60), env.num(0.0), env.real("g5", -0.1, -0.01)]
    st = [env.real("s0", -400, 0), env.real("s1", 1, 8800), 5.0, 1.0]
    nd = env.real("nd", -40000, -30000)
    opened = []

    def op(p, *a):
        opened.append(p)
        if kind == "missing":
            return None
        other = Band(env.arr([[1.0, 1.0, 1.0], [1.0, 1.0, 1.0]]), [0.0, 0.0, 0.0, 0.0], 0.0)
        return Ds([Band(z, st, nd), other], None if kind == "nogt" else gt)

    env.patch.attr(gdal, "Open", op)
    env.patch.attr(gdal, "OpenEx", op)
    f = GDALDigitalElevationModelTileFactory(root)
    r = env.no_raise(lambda: f.get_tile("n12/e034.dt2"), "get_tile")
    env.require(len(opened) > 0 and opened[0] == root.replace("s3:/", "/vsis3", 1) + "/n12/e034.dt2", "tile is read below the tile directory")
    if kind != "ok":
        env.require(tuple(r) == (None, None, None), "a tile that cannot be used yields no data")
        return
    a, m, s = r
    env.require(tuple(a.shape) == (2, 3), "array shape")
    for i in range(2):
        for j in range(3):
            env.require(env.eq(a[i, j], z[i, j]), "posts are the first band's")
    x, y = env.real("x", 0, 3), env.real("y", 0, 2)
    d2r = env.num(3.141592653589793) / 180
    w = m.image_to_world(ImageCoordinate([x, y]))
    env.require(env.eq(w.longitude, (gt[0] + gt[1] * x) * d2r), "tile geometry is the geo transform, longitude")
    env.require(env.eq(w.latitude, (gt[3] + gt[5] * y) * d2r), "tile geometry is the geo transform, latitude")
    env.require(env.eq(s.min_elevation, st[0]), "summary minimum")
    env.require(env.eq(s.max_elevation, st[1]), "summary maximum")
    env.require(env.eq(s.no_data_value, nd), "summary no-data value")
    p, q = fwd(gt[0] * d2r, gt[3] * d2r, 0.0), fwd((gt[0] + gt[1] * 3) * d2r, (gt[3] + gt[5] * 2) * d2r, 0.0)
    d2 = sum((u - v) * (u - v) for u, v in zip(p, q))
    env.require(env.eq(s.post_spacing * s.post_spacing * 13, d2, 1e-3, 1e-5), "post spacing is the corner distance per post in metres")
    env.require(s.post_spacing >= 0, "post spacing is a distance")


def cases(tier):
    cs = [dict(name=f"height-{h}x{w}", body=height, params=dict(h=h, w=w)) for h, w in ([(2, 3), (3, 2)] if tier == "quick" else [(2, 3), (3, 2), (3, 3), (2, 4)])]
    cs += [dict(name="geometry", body=geometry), dict(name="constant", body=constant)]
    n = 3 if tier == "quick" else 4
    cs += [dict(name=f"history-cache{c}", body=history, params=dict(n=n, cache=c)) for c in (1, 2, 10)]
    cs += [dict(name=f"gdal-{k}-{'s3' if r[0] == 's' else 'local'}", body=gdal_tile, params=dict(root=r, kind=k))
           for r, k in (("/data/dem", "ok"), ("s3://bucket/dem", "ok"), ("/data/dem", "missing"), ("s3://bucket/dem", "nogt"))]
    return cs
