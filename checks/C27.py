"""C27 - orthophoto tiles: where every pixel of a map tile is taken from."""
import cv2
import numpy as np
from scipy.interpolate import RectBivariateSpline  # noqa

from aws.osml.gdal import RangeAdjustmentType
from aws.osml.image_processing import GDALTileFactory
from aws.osml.image_processing import gdal_tile_factory as _gtf
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel

from symx import core as _core, npshim as _np

from .C04 import Spline

BOUNDS = ("every affine mapping from map to image (scale, rotation, mirror, shift, terrain shift) over fixed map boxes; square and oblong tiles up to 4x3 pixels, "
          "image 1000x600 with 0..3 overviews; models that fail for a coordinate")
OUTSIDE = "cv2's resampling and PNG encoder (stand-ins recording the request); mappings that are not affine within a tile (3x3 grid approximation); pixel values (C28)"
XS, YS = 1000, 600


class Affine(SensorModel):
    def __init__(self, env, box, kx, ky, bad):
        self.env, self.box, self.kx, self.ky, self.bad, self.n, self.centre = env, box, kx, ky, bad, 0, []

    def at(self, lon, lat, h):
        u, v = (lon - self.box[0]) / (self.box[2] - self.box[0]), (lat - self.box[1]) / (self.box[3] - self.box[1])
        return [k[0] + k[1] * u + k[2] * v + k[3] * h for k in (self.kx, self.ky)]

    def elevation(self, x, y):
        return x * 0.25 - y * 0.5 + 40

    def image_to_world(self, c, elevation_model=None, options=None):
        self.centre.append((c.x, c.y))
        return GeodeticWorldCoordinate([0.1, 0.2, self.elevation(c.x, c.y)])

    def world_to_image(self, w):
        self.n += 1
        if self.bad is not None and self.n == self.bad + 1:
            raise ValueError("outside the model's domain")
        return ImageCoordinate(self.at(w.longitude, w.latitude, w.elevation))


class Pixels:
    """image data of a window"""

    def __init__(self, shape, border=0):
        self.shape, self.border, self.ndim, self.dtype = shape, border, 2, np.dtype(np.uint8)

    def astype(self, *a, **k):
        return self


class Band:
    def __init__(self, env, log, level, n):
        self.env, self.log, self.level, self.n = env, log, level, n
        self.XSize, self.YSize = -(-XS // 2**level), -(-YS // 2**level)

    def GetOverviewCount(self):
        return self.n

    def GetOverview(self, k):
        k = _core.ctx().choose_value(k.n) if isinstance(k, _core.Sym) and k.c is None else int(k)
        if not 0 <= k < self.n:
            raise RuntimeError("no such overview")
        return Band(self.env, self.log, k + 1, 0)

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, **k):
        self.log.append((self, xoff, yoff, win_xsize, win_ysize))
        return Pixels((win_ysize, win_xsize))


class Ds:
    RasterXSize, RasterYSize, RasterCount = XS, YS, 1

    def __init__(self, env, n):
        self.reads, self.band = [], None
        self.band = Band(env, self.reads, 0, n)

    def GetDriver(self):
        class D:
            ShortName = "GTiff"
        return D

    def GetRasterBand(self, n):
        self.band.DataType = 1
        return self.band

    def GetMetadata(self, *a):
        return None


def stubs(env, log):
    def border(src, top, bottom, left, right, kind, *a, **k):
        log["border"] = (top, left, kind, src)
        return Pixels((src.shape[0] + top + bottom, src.shape[1] + left + right), (left, top))

    def remap(src, m1, m2, interp, *a, **k):
        log["maps"] = (src, m1, m2, interp)
        r = np.full(np.shape(m1), 7, dtype=np.uint8)
        r[0, 0] = 0
        return r

    env.patch.attr(cv2, "copyMakeBorder", border)
    env.patch.attr(cv2, "remap", remap)
    env.patch.attr(cv2, "imencode", lambda ext, px, *a: (True, (ext, px)))
    if env.symbolic:
        env.patch.obj(_gtf.RectBivariateSpline, Spline, owner=_gtf, attr="RectBivariateSpline")


BOX = (0.5, 0.25, 0.75, 0.5)


def coef(env, which):
    """a + b u + c v + d h"""
    if which == "scale":  # north up
        return [env.real("ax", -900, 1100), env.real("sx", 1, 900), 0, 0], [env.real("ay", -300, 1400), 0, env.real("sy", -900, -1), 0]
    if which == "quarter":
        return [env.real("ax", -900, 1900), 0, env.real("sx", -900, -1), 0], [env.real("ay", -300, 800), env.real("sy", 1, 900), 0, 0]
    if which == "terrain":
        return [env.real("ax", 100, 300), 100, 7, env.real("tx", -1, 1)], [env.real("ay", 300, 400), 3, -80, env.real("ty", -1, 1)]
    return ([env.real("ax", 100, 700), env.real("bx", -150, 150), env.real("cx", -150, 150), 0],
            [env.real("ay", 100, 500), env.real("by", -150, 150), env.real("cy", -150, 150), 0])


def ortho(env, which, size, n, bad=None):
    kx, ky = coef(env, which)
    W, H = size
    m = Affine(env, BOX, [env.num(k) for k in kx], [env.num(k) for k in ky], bad)
    ds = Ds(env, n)
    log = {}
    stubs(env, log)
    f = GDALTileFactory(ds, m, range_adjustment=RangeAdjustmentType.NONE)
    h = m.elevation(env.num(XS) / 2, env.num(YS) / 2)
    C = [m.at(env.num(a), env.num(b), h) for a in (BOX[0], BOX[2]) for b in (BOX[1], BOX[3])]
    lo = hi = C[0]
    for c in C[1:]:
        lo = [env.ite(a < b, a, b) for a, b in zip(lo, c)]
        hi = [env.ite(a > b, a, b) for a, b in zip(hi, c)]
    # image positions exactly on whole pixels are decided by rounding
    r = env.no_raise(lambda: f.create_orthophoto_tile(BOX, size), "create_orthophoto_tile")
    if bad is not None:
        env.require(r is None, "no tile when the model can not place the map in the image")
        return
    out = env.Or(lo[0] >= XS + 1, lo[1] >= YS + 1, hi[0] <= -1, hi[1] <= -1)
    inside = env.And(lo[0] <= XS - 1, lo[1] <= YS - 1, hi[0] >= 1, hi[1] >= 1)
    if r is None:
        env.require(env.Not(inside), "a tile is produced when map and image overlap")
        return
    env.require(env.Not(out), "no tile when map and image do not overlap")
    env.require(len(ds.reads) == 1 and "maps" in log, "one read and one transformation")
    band, x0, y0, w, hh = ds.reads[0]
    s = 2**band.level
    env.require(env.And(x0 >= 0, y0 >= 0, w >= 1, hh >= 1, x0 + w <= band.XSize, y0 + hh <= band.YSize), "the window read lies in the image and is not empty")
    # resolution: the finest level that is not finer than needed by a factor of two or more
    dim = [env.ite(hi[0] - lo[0] < hi[1] - lo[1], hi[0] - lo[0], hi[1] - lo[1])][0]
    if W == H:
        if band.level > 0:
            env.require(dim + 2 >= s * W, "no coarser level than the tile needs")
        if band.level < n:
            env.require(dim < 2 * s * W, "no finer level than the tile needs")
    src, m1, m2, interp = log["maps"]
    env.require(tuple(np.shape(m1)) == (H, W) and tuple(np.shape(m2)) == (H, W), "one position per pixel of the tile (height x width)")
    bx, by = src.border if src.border else (0, 0)
    e = 1e-3 if s == 1 else s  # the window of an overview starts at a whole overview pixel
    cx, cy = [], []
    for j in range(min(H, len(m1))):
        for i in range(min(W, len(m1[0]))):
            lon = BOX[0] + (BOX[2] - BOX[0]) * i / (W - 1)
            lat = BOX[3] - (BOX[3] - BOX[1]) * j / (H - 1)
            X, Y = m.at(env.num(lon), env.num(lat), h)
            px, py = (m1[j][i] - bx + x0) * s, (m2[j][i] - by + y0) * s
            cx += [px - X <= e, X - px <= e]
            cy += [py - Y <= e, Y - py <= e]
    env.require(env.And(*cx), "every tile pixel is taken from the image column of its longitude and latitude")
    env.require(env.And(*cy), "every tile pixel is taken from the image row of its longitude and latitude")
    # what is read covers the part of the tile that lies in the image
    env.require(env.And(env.Or(x0 * s <= lo[0] + s, x0 == 0), env.Or(y0 * s <= lo[1] + s, y0 == 0),
                        env.Or((x0 + w) * s >= hi[0] - s, (x0 + w + 1) * s >= XS), env.Or((y0 + hh) * s >= hi[1] - s, (y0 + hh + 1) * s >= YS)),
                "the window read covers the tile")
    ext, px = r
    env.require(ext.lower() == ".png" and tuple(px.shape) == (H, W, 4), "a PNG with colour and transparency")
    env.require(all(int(px[j, i, 3]) == (0 if (i, j) == (0, 0) else 255) for j in range(H) for i in range(W)), "pixels without data are transparent")


def cases(tier):
    q = tier == "quick"
    cs = []
    for n in (0, 3) if q else (0, 1, 2, 3, 5):
        for w in ("scale", "quarter", "skew"):
            cs.append(dict(name=f"{w}-{n}", body=ortho, params=dict(which=w, size=(3, 3), n=n)))
    cs.append(dict(name="terrain", body=ortho, params=dict(which="terrain", size=(3, 3), n=0)))
    for s in ((4, 2), (2, 4), (3, 4)) if q else ((4, 2), (2, 4), (3, 4), (5, 3), (2, 2), (5, 5)):
        cs.append(dict(name=f"size-{s[0]}x{s[1]}", body=ortho, params=dict(which="scale", size=s, n=1)))
    for b in (0, 4, 8):
        cs.append(dict(name=f"fails-{b}", body=ortho, params=dict(which="scale", size=(3, 3), n=1, bad=b)))
    return cs
