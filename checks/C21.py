"""C21 - dynamic range adjustment parameters and the pixel scaling derived from them."""
import numpy as np
from osgeo import gdalconst

from aws.osml.gdal import RangeAdjustmentType, get_type_and_scales
from aws.osml.gdal.gdal_utils import get_minmax_for_type
from aws.osml.gdal.dynamic_range_adjustment import DRAParameters

BOUNDS = ("histograms of 1..4 (thorough 6) buckets with symbolic non-negative counts, symbolic bucket value range, weighting factors and percentages; datasets of "
          "1..3 bands of every pixel type with symbolic value range (value spans 0, 1, 3 and 300 for integer types, any for float types)")
OUTSIDE = "cumulative counts within 1e-6 of a percentage threshold; empty histograms; GDAL's own statistics and histograms (stand-in)"


def counts(env, n, pct, bounds, ab):
    C = [env.real(f"c{i}", 0, 1000) for i in range(n)]
    cum = [C[0]]
    for i in range(1, n):
        cum.append(cum[-1] + C[i])
    total = cum[-1]
    env.assume(total >= 1)
    pmin, pmax = pct if pct else (env.real("pmin", 0, 0.5), env.real("pmax", 0.5, 1))
    kw = dict(min_percentage=pmin, max_percentage=pmax) if pct != (0.02, 0.98) else {}
    a, b = (0.2, 0.4) if not ab else (env.real("a", 0, 2), env.real("b", 0, 2))
    if ab:
        kw.update(a=a, b=b)
    first, last = 0, n
    if bounds == "both":
        first = env.real("first", -1000, 1000)
        last = first + env.real("span", 0.01, 70000)
    elif bounds == "zero-last":
        first, last = env.real("first", -1000, -1), 0
    elif bounds == "first":
        first = env.real("first", -1000, 0)
    if bounds in ("both", "zero-last"):
        kw.update(first_bucket_value=first, last_bucket_value=last)
    elif bounds == "first":
        kw.update(first_bucket_value=first)
    step = (last - first) / env.num(n)
    for v in cum:
        for p in (pmin, pmax):
            if not (p == 0 or p == 1) if isinstance(p, (int, float)) else True:
                env.assume(env.Or(v - p * total > 1e-6 * total, p * total - v > 1e-6 * total))
    given = list(C)
    d = env.no_raise(lambda: DRAParameters.from_counts(given, **kw), "from_counts")
    env.require(len(given) == n and all(x is y for x, y in zip(given, C)), "the caller's histogram is not changed")
    lo = next(i for i in range(n) if env.fork(C[i] > 0))
    hi = next(i for i in reversed(range(n)) if env.fork(C[i] > 0))
    val = lambda k: first + k * step  # noqa
    env.require(env.eq(d.actual_min_value, val(lo)), "actual minimum is the first bucket with pixels")
    env.require(env.eq(d.actual_max_value, val(hi)), "actual maximum is the last bucket with pixels")
    tol = 1e-6
    env.require(d.actual_min_value <= d.suggested_min_value + tol, "the suggested range does not start before the actual range")
    env.require(d.suggested_min_value <= d.suggested_max_value + tol, "the suggested range is not inverted")
    env.require(d.suggested_max_value <= d.actual_max_value + tol, "the suggested range does not end after the actual range")
    e0 = next((i for i in range(n) if env.fork(cum[i] >= pmin * total)), n - 1)
    e1 = next((i for i in reversed(range(n)) if env.fork(cum[i] <= pmax * total)), 0)
    if e1 >= e0:
        w0, w1 = e0 - a * (e1 - e0), e1 + b * (e1 - e0)
        w0 = env.ite(w0 < lo, lo, w0)
        w1 = env.ite(w1 > hi, hi, w1)
        env.require(env.eq(d.suggested_min_value, val(w0)), "suggested minimum is the low percentile extended by the weighted range")
        env.require(env.eq(d.suggested_max_value, val(w1)), "suggested maximum is the high percentile extended by the weighted range")


RANGES = {"Byte": (0, 255), "UInt16": (0, 65535), "Int16": (-32768, 32767), "UInt32": (0, 2**32 - 1), "Int32": (-2**31, 2**31 - 1),
          "UInt64": (0, 2**64 - 1), "Int64": (-2**63, 2**63 - 1), "Float32": (-float(np.finfo(np.float32).max), float(np.finfo(np.float32).max)),
          "Float64": (-float(np.finfo(np.float64).max), float(np.finfo(np.float64).max))}
# pixels of a band: position in the value range and number of pixels
PIX = [((0.0, 2), (0.25, 300), (0.5, 400), (0.6, 300), (1.0, 2)), ((0.0, 500), (0.34, 10), (1.0, 490)), ((0.0, 1), (0.67, 900), (1.0, 100))]


class Band:
    def __init__(self, env, dt, lo, span, pix):
        self.env, self.DataType, self.lo, self.hi = env, dt, lo, lo + span
        isint = dt not in (gdalconst.GDT_Float32, gdalconst.GDT_Float64)
        self.pixels = [(lo + (round(f * span) if isint else env.num(f) * span), n) for f, n in pix]

    def GetStatistics(self, approx_ok, force):
        return [self.lo, self.hi, self.lo, self.lo]

    def GetMinimum(self):
        return self.lo

    def GetMaximum(self):
        return self.hi

    def ComputeStatistics(self, *a, **k):
        return self.GetStatistics(1, 1)

    def GetHistogram(self, min=-0.5, max=255.5, buckets=256, include_out_of_range=0, approx_ok=1, **k):
        """as GDAL does it: empty ranges are refused, values on the upper limit only count when out of range values do"""
        env = self.env
        n = int(env.concretize(buckets))
        if n < 1:
            raise RuntimeError("Bad value for buckets")
        if not (max > min):
            raise RuntimeError("dfMax should be strictly greater than dfMin")
        out = [0] * n
        for v, c in self.pixels:
            i = int(env.concretize(env.floor((v - min) * n / (max - min))))
            if 0 <= i < n:
                out[i] += c
            elif include_out_of_range:
                out[0 if i < 0 else n - 1] += c
        return out


class Ds:
    def __init__(self, bands):
        self.bands = bands
        self.RasterCount = len(bands)

    def GetRasterBand(self, i):
        if not 1 <= i <= len(self.bands):
            raise RuntimeError("no such band")
        return self.bands[i - 1]


def scales(env, typ, out, adj, span, nb=1):
    dt = getattr(gdalconst, "GDT_" + typ)
    fl = typ.startswith("Float")
    bands = []
    for k in range(nb):
        lo = env.real(f"lo{k}", -5000, 5000) if fl else env.int(f"lo{k}", 0 if typ[0] in "UB" else -300, 0 if typ == "Byte" and span > 100 else 200)
        sp = env.real(f"span{k}", 0.5, 10000) if span is None else span
        bands.append(Band(env, dt, lo, sp, PIX[k]))
    r = env.no_raise(lambda: get_type_and_scales(Ds(bands), None if out is None else getattr(gdalconst, "GDT_" + out), RangeAdjustmentType[adj]), "get_type_and_scales")
    ot, sc = r
    env.require(ot == (dt if out is None else getattr(gdalconst, "GDT_" + out)), "pixel type is the requested one or the source's")
    env.require(len(sc) == nb and all(len(s) == 4 for s in sc), "one set of scale parameters per band")
    for bnd, s in zip(bands, sc):
        o = RANGES[out or typ]
        env.require(env.And(env.eq(s[2], o[0], 0.5, 1e-7), env.eq(s[3], o[1], 0.5, 1e-7)), "output range is the output type's full range")
        if adj == "NONE":
            i = RANGES[typ]
            env.require(env.And(env.eq(s[0], i[0], 0.5, 1e-7), env.eq(s[1], i[1], 0.5, 1e-7)), "without range adjustment the source type's full range is mapped")
            continue
        w = (bnd.hi - bnd.lo) / 200 if fl else 1
        sp = bnd.hi - bnd.lo
        tol = w * 1.001 + 1e-6
        near = lambda x, y: env.And(x - y <= tol, y - x <= tol)  # noqa
        env.require(s[0] <= s[1], "source range is not inverted")
        if adj == "MINMAX":
            env.require(near(s[0], bnd.lo), "source range starts at the smallest pixel value (to one bucket)")
            env.require(near(s[1], bnd.hi), "source range ends at the largest pixel value (to one bucket)")
        else:
            tot = sum(n for _, n in bnd.pixels)
            acc, cum = 0, []
            for v, n in bnd.pixels:
                acc += n
                cum.append(acc)
            e0 = next(v for (v, _), c in zip(bnd.pixels, cum) if c >= 0.02 * tot)
            below = [j for j, c in enumerate(cum) if c <= 0.98 * tot]
            # the last bucket at or below 98% lies just under the next occupied value
            e1 = bnd.pixels[below[-1] + 1][0] if below else e0
            d = e1 - e0
            lo_, hi_ = e0 - 0.2 * d, e1 + 0.4 * d
            lo_ = env.ite(lo_ < bnd.lo, bnd.lo, lo_)
            hi_ = env.ite(hi_ > bnd.hi, bnd.hi, hi_)
            tol = w * 3 + 1e-6
            env.require(near(s[0], lo_), "source range excludes low outliers (to the bucket size)")
            env.require(near(s[1], hi_), "source range excludes high outliers (to the bucket size)")


def types(env):
    t = env.choice("t", list(RANGES) + ["CFloat32"])
    r = env.no_raise(lambda: get_minmax_for_type(getattr(gdalconst, "GDT_" + t)), "get_minmax_for_type")
    o = RANGES.get(t, (0, 255))
    env.require(abs(r[0] - o[0]) <= 1e-7 * abs(o[0]) and abs(r[1] - o[1]) <= 1e-7 * abs(o[1]), "value range of the pixel type")


def cases(tier):
    q = tier == "quick"
    cs = [dict(name="types", body=types)]
    for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
        for i, (p, b, ab) in enumerate((((0.02, 0.98), None, 0), ((0.1, 0.9), "both", 0), ((0, 1), "zero-last", 0), ((0.25, 0.5), "first", 1), (None, None, 0))):
            if p is None and n > 3:
                continue
            cs.append(dict(name=f"counts-{n}-{i}", body=counts, params=dict(n=n, pct=p, bounds=b, ab=ab)))
    for t in RANGES:
        sp = (None,) if t.startswith("Float") else ((0, 1, 3) if t != "Int16" else (0, 1, 300)) if q else (0, 1, 3, 200)
        for s in sp:
            for a in ("MINMAX", "DRA"):
                cs.append(dict(name=f"scales-{t}-{a}-{s}", body=scales, params=dict(typ=t, out="Byte" if a == "DRA" else None, adj=a, span=s)))
        cs.append(dict(name=f"scales-{t}-NONE", body=scales, params=dict(typ=t, out=None, adj="NONE", span=1)))
        cs.append(dict(name=f"scales-{t}-NONE-out", body=scales, params=dict(typ="Int16", out=t, adj="NONE", span=1, nb=2)))
    cs.append(dict(name="scales-const-float", body=scales, params=dict(typ="Float32", out="Byte", adj="DRA", span=0)))
    for a in ("MINMAX", "DRA"):
        cs.append(dict(name=f"scales-bands-{a}", body=scales, params=dict(typ="UInt16", out="UInt16" if a == "DRA" else None, adj=a, span=200, nb=3)))
    return cs
