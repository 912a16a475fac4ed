"""C28 - map tiles for display: raw pixels of every band are stretched to 8 bits as the range adjustment asks."""
import cv2
import numpy as np
from osgeo import gdalconst

from aws.osml.gdal import RangeAdjustmentType
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel

from .C21 import Band as StatBand

BOUNDS = ("2x2 and 2x3 pixel tiles with every pixel symbolic, 1, 2, 3 and 4 bands of Byte, UInt16, Int16, UInt32, Int32 and Float32, value ranges of 40..4000 with symbolic position, images with "
          "and without stored statistics; outputs to one grey level (range) or the bucket size of the histogram (DRA)")
OUTSIDE = "value ranges below one; resampling; GDAL's statistics (stand-in)"
NPT = {"Byte": "uint8", "UInt16": "uint16", "Int16": "int16", "Float32": "float32", "UInt32": "uint32", "Int32": "int32"}
# pixels of a band: position in the value range and number of pixels
PIX = [((0.0, 2), (0.25, 300), (0.5, 400), (0.6, 300), (1.0, 2)), ((0.0, 500), (0.34, 300), (0.7, 190), (1.0, 10)), ((0.0, 1), (0.3, 500), (0.67, 400), (1.0, 100))]
LOS = {"Byte": (0, 50), "UInt16": (0, 60000), "Int16": (-30000, 28000), "Float32": (-3000, 3000), "UInt32": (0, 60000), "Int32": (-90000, 60000)}


class Plain(SensorModel):
    def image_to_world(self, c, elevation_model=None, options=None):
        return GeodeticWorldCoordinate([0.0, 0.0, 0.0])

    def world_to_image(self, w):
        return ImageCoordinate([w.longitude * 10 + 1.5, 9.5 - w.latitude * 10])


class Band(StatBand):
    stored = True

    def GetOverviewCount(self):
        return 0

    def ReadAsArray(self, *a, **k):
        return self.tile

    def GetMinimum(self):
        return self.lo if self.stored else None

    def GetMaximum(self):
        return self.hi if self.stored else None

    def GetStatistics(self, approx_ok, force):
        """computed on demand and kept, as GDAL does"""
        self.stored = self.stored or bool(force)
        return list(self.stats) if self.stored else [0.0, 0.0, 0.0, -1.0]


class Ds:
    RasterXSize, RasterYSize = 40, 30

    def __init__(self, bands):
        self.bands, self.RasterCount = bands, len(bands)

    def GetDriver(self):
        class D:
            ShortName = "GTiff"
        return D

    def GetRasterBand(self, i):
        if not 1 <= i <= len(self.bands):
            raise RuntimeError("no such band")
        return self.bands[i - 1]

    def GetMetadata(self, *a):
        return None


class Found(Exception):
    pass


def run(env, bands, adj):
    """the pixels handed to the resampler"""
    got = []

    def border(src, *a, **k):
        got.append(src)
        raise Found()

    env.patch.attr(cv2, "copyMakeBorder", border)
    f = GDALTileFactory(Ds(bands), Plain(), range_adjustment=RangeAdjustmentType[adj])
    r, e = env.call(lambda: f.create_orthophoto_tile((0.5, 0.25, 0.75, 0.5), (2, 2)))
    env.require(isinstance(e, Found) and len(got) == 1, f"the pixels are converted: {e!r}")
    return got[0] if got else None


def make(env, typ, nb, span, stored, H, W, adj):
    bands, P = [], []
    fl = typ == "Float32"
    for k in range(nb):
        lo = env.real(f"lo{k}", *LOS[typ]) if fl else env.int(f"lo{k}", *LOS[typ])
        lo = lo * env.num(1.0)  # GDAL reports statistics as floating point numbers
        b = Band(env, getattr(gdalconst, "GDT_" + typ), lo, span, PIX[k % len(PIX)])
        b.stored, b.stats = stored, (lo, lo + span, lo + span / 2, span / 4)
        mk = env.real if fl else env.int
        a, z = LOS[typ][0], LOS[typ][1] + span
        px = [[mk(f"p{k}_{r}{c}", a, z) for c in range(W)] for r in range(H)]
        b.tile = env.arr(px, dtype=NPT[typ])
        bands.append(b)
        P.append(px)
    return bands, P


def near(env, o, x, tol):
    x = env.ite(x < 0, env.num(0.0), env.ite(x > 255, env.num(255.0), x))
    return env.And(o - x <= tol, x - o <= 1 + tol)


def suggested(env, b):
    """2% and 97% of the pixels, widened; GDAL histograms may leave out the pixels with the largest value"""
    out = []
    for px in (b.pixels, b.pixels[:-1]):
        tot = sum(m for _, m in px)
        acc, cum = 0, []
        for _, m in px:
            acc += m
            cum.append(acc)
        e0 = next(x for (x, _), m in zip(px, cum) if m >= 0.02 * tot)
        below = [j for j, m in enumerate(cum) if m <= 0.97 * tot]
        e1 = px[below[-1] + 1][0] if below else e0
        s0, s1 = e0 - 0.2 * (e1 - e0), e1 + 0.4 * (e1 - e0)
        out.append((env.ite(s0 < b.lo, b.lo, s0), env.ite(s1 > px[-1][0], px[-1][0], s1)))
    return out


def stretch(env, typ, nb, span, stored, adj, H=2, W=2):
    bands, P = make(env, typ, nb, span, stored, H, W, adj)
    o = run(env, bands, adj)
    n = min(nb, 3) if adj != "NONE" else nb
    env.require(tuple(o.shape) == ((H, W) if n == 1 else (H, W, n)), "one value per pixel and displayed band")
    env.require(o.dtype == np.uint8, "8 bit pixels")
    for k in range(n):
        b, px, at = bands[k], P[k], (lambda r, c: o[r, c] if n == 1 else o[r, c, k])  # noqa
        for r in range(H):
            for c in range(W):
                v = at(r, c)
                if adj == "NONE":
                    env.require(env.eqb(v, px[r][c]), "8 bit pixels stay as they are")
                    continue
                env.require(env.And(v >= 0, v <= 255), "values from 0 to 255")
                if adj == "MINMAX":
                    env.require(near(env, v, (px[r][c] - b.lo) * 255 / span, 1e-3), "the band's smallest value becomes 0, its largest 255, linear in between")
                else:
                    wd = span / max(256, span)
                    ok = [near(env, v, (px[r][c] - s0) * 255 / (s1 - s0), 255 * 4 * wd / (0.3 * span)) for s0, s1 in suggested(env, b)]
                    env.require(env.Or(*ok), "linear between the suggested minimum and maximum of the band")
        for r in range(H):
            for c in range(W):
                if (r, c) != (0, 0) and k < 1 and adj != "NONE":
                    env.require(env.Implies(px[0][0] <= px[r][c], at(0, 0) <= at(r, c)), "brighter pixels are not displayed darker")


def sar(env, typ, stored, adj):
    fl = typ == "Float32"
    mk = env.real if fl else env.int
    A = 3000 if fl else 32767
    bands, P = [], []
    for k in range(2):
        b = Band(env, getattr(gdalconst, "GDT_" + typ), -5.0, 10.0, PIX[0])
        b.stored = stored
        b.stats = (-5.0, 5.0, (7.5, 12.0)[k], (20.4, 13.6)[k])
        px = [[mk(f"p{k}_0{c}", -A, A) for c in range(2)]]
        b.tile = env.arr(px, dtype=NPT[typ])
        bands.append(b)
        P.append(px)
    mags = [env.sqrt(P[0][0][c] * P[0][0][c] + P[1][0][c] * P[1][0][c], nonneg=True) for c in range(2)]
    o = run(env, bands, adj)
    env.require(tuple(o.shape) == (1, 2), "one value per pixel")
    m = ((7.5 + 20.4 * 50 / 68) ** 2 + (12.0 + 13.6 * 50 / 68) ** 2) ** 0.5
    for c in range(2):
        x = mags[c] * 255 / (3 * m)
        env.require(near(env, o[0, c], x, 1e-2), "complex pixels are displayed by amplitude relative to three times the mean of the image")


def cases(tier):
    q = tier == "quick"
    cs = []

    def add(name, **k):
        cs.append(dict(name=name, body=stretch, params=k))

    for t in ("Byte", "UInt16", "Int16", "Float32") if q else NPT:
        for sp in ((200,) if t == "Byte" else (40, 4000)):
            for st in (True, False):
                add(f"minmax-{t}-{sp}-{int(st)}", typ=t, nb=1, span=sp, stored=st, adj="MINMAX")
        if t == "Byte" or not q or t in ("Int16", "Float32"):
            for st in (True, False):
                add(f"dra-{t}-{int(st)}", typ=t, nb=1, span=200 if t == "Byte" else 1000, stored=st, adj="DRA", H=1)
    for nb in (3, 4):
        add(f"minmax-bands-{nb}", typ="UInt16", nb=nb, span=500, stored=True, adj="MINMAX", H=1)
        add(f"dra-bands-{nb}", typ="UInt16", nb=nb, span=500, stored=True, adj="DRA", H=1)
        add(f"none-bands-{nb}", typ="Byte", nb=nb, span=200, stored=True, adj="NONE", H=2)
    add("none-1", typ="Byte", nb=1, span=200, stored=True, adj="NONE")
    for t in ("Float32", "Int16"):
        for s in (0, 1):
            cs.append(dict(name=f"sar-{t}-{s}", body=sar, params=dict(typ=t, stored=bool(s), adj=("DRA", "MINMAX")[s])))
    return cs
