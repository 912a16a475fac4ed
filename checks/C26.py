"""C26 - encoded tiles: what GDAL is asked to cut, encode and annotate, for every history of tiles from one factory."""
import base64
import copy
from xml.sax.saxutils import escape, quoteattr  # noqa

from osgeo import gdal, gdalconst
from xsdata.formats.dataclass.parsers import XmlParser
from xsdata.formats.dataclass.serializers import XmlSerializer

from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, NITFDESAccessor, RangeAdjustmentType, get_type_and_scales
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import GeodeticWorldCoordinate, SensorModel

from .C18 import DATA, doc

BOUNDS = ("histories of 1..3 tiles from one factory, every window and output size; all image formats and compressions, every pixel type; images with and without "
          "sensor model, with SICD, SIDD, both or unrelated XML segments; missing output files and failing reads")
OUTSIDE = "GDAL's encoders and the pixels they write (stand-in that records the request); whether corner positions name the pixel's centre or edge (1 pixel)"

N = GDALImageFormats
Z = GDALCompressionOptions
# the NITF and GeoTIFF creation option per requested compression
NITF_IC = {None: "C8", Z.J2K: "C8", Z.JPEG: "C3", Z.NONE: "NC", Z.LZW: "C8"}
TIFF = {None: "LZW", Z.LZW: "LZW", Z.JPEG: "JPEG", Z.NONE: "NONE", Z.J2K: "LZW"}
GEO = [(-71.25, 42.5), (10.125, -33.75), (151.5, 0.25), (-0.0625, -89.5)]
OFF = (99.0, 9.0)
HDR = (("DESVER", "01"), ("DECLAS", "U"), ("DESCLSY", "US"), ("DESCODE", ""), ("DESCTLH", ""), ("DESREL", ""), ("DESDCTP", ""), ("DESDCDT", ""), ("DESDCXM", ""),
       ("DESDG", ""), ("DESDGDT", ""), ("DESCLTX", ""), ("DESCATP", ""), ("DESCAUT", ""), ("DESCRSN", ""), ("DESSRDT", ""), ("DESCTLN", ""), ("DESSHL", "0005"))


class Band:
    def __init__(self, dt):
        self.DataType = dt

    def GetStatistics(self, *a):
        return [3.0, 96.0, 40.0, 7.0]

    def GetMinimum(self):
        return 3.0

    def GetMaximum(self):
        return 96.0

    def GetHistogram(self, *a, **k):
        n = k.get("buckets", 256)
        return [5] * n


class Ds:
    RasterXSize, RasterYSize = 10000, 8000

    def __init__(self, driver, types, des):
        self.driver, self.types, self.des, self.RasterCount = driver, types, des, len(types)

    def GetDriver(self):
        class D:
            ShortName = self.driver
        return D

    def GetRasterBand(self, n):
        return Band(self.types[n - 1])

    def GetMetadata(self, domain=""):
        return self.des if domain == "xml:DES" else None


class Model(SensorModel):
    """answers with one position per corner of the window in use and with another one elsewhere"""

    def __init__(self, env):
        self.env, self.win = env, None

    def image_to_world(self, c, elevation_model=None, options=None):
        x, y, w, h = self.win
        near = lambda a, b: self.env.And(a - b <= 1, b - a <= 1)  # noqa
        for g, (px, py) in zip(GEO, ((x, y), (x + w, y), (x + w, y + h), (x, y + h))):
            if self.env.fork(self.env.And(near(c.x, px), near(c.y, py))):
                return deg(*g)
        return deg(*OFF)

    def world_to_image(self, w):
        raise NotImplementedError


def deg(lon, lat):
    k = 3.141592653589793 / 180
    return GeodeticWorldCoordinate([lon * k, lat * k, 123.0])


def text_of(lon, lat):
    """ddmmssXdddmmssY of a position on whole seconds"""
    def p(v, n, s):
        t = round(abs(v) * 3600)
        return f"{t // 3600:0{n}d}{t // 60 % 60:02d}{t % 60:02d}{s[v < 0]}"
    return p(lat, 2, "NS") + p(lon, 3, "EW")


class Opt(dict):
    pass


class Gdal:
    """records gdal.Translate and the virtual files"""

    def __init__(self, env, fail):
        self.calls, self.open, self.deleted, self.opened, self.fail = [], set(), [], [], fail
        p = env.patch.attr
        p(gdal, "Translate", self.translate)
        p(gdal, "TranslateOptions", lambda options=None, **k: Opt(k))
        p(gdal, "VSIFOpenL", self.fopen)
        p(gdal, "VSIStatL", lambda f, *a: self.stat(f))
        p(gdal, "VSIFReadL", self.read)
        p(gdal, "VSIFCloseL", lambda h: self.open.discard(h))
        p(gdal, "Unlink", lambda f: self.deleted.append((None, f)))
        p(gdal, "GetDriverByName", self.driver)

    def translate(self, dest, src, options=None, **k):
        kw = dict(k, **(options or {}))
        # GDAL reads the lists while it runs, later changes do not matter
        self.calls.append((str(dest), src, {a: (list(b) if isinstance(b, (list, tuple)) else b) for a, b in kw.items()}))
        return object()

    def body(self, f):
        return b"file:" + f.encode()

    def fopen(self, f, mode="r"):
        self.opened.append(f)
        if self.fail == "open":
            return None
        self.open.add(("h", f))
        return ("h", f)

    def stat(self, f):
        class S:
            size = len(self.body(f))
        return S

    def read(self, size, count, h):
        if self.fail == "read":
            raise RuntimeError("read failed")
        return self.body(h[1])[: size * count] if h in self.open else None

    def driver(self, name):
        outer = self

        class D:
            ShortName = str(getattr(name, "value", name))

            @staticmethod
            def Delete(f):
                outer.deleted.append((D.ShortName, str(f)))

        return D


def segment(x, n, name="XML_DATA_CONTENT"):
    f = "".join(f'<field name="{k}" value="{v}"/>' for k, v in HDR)
    return (f'<des name="{name}">{f}<field name="DESSHF" value="shf{n:02d}"/>'
            f'<field name="DESDATA" value="{base64.b64encode(x.encode()).decode()}"/></des>')


SAR = {None: [], "sicd": ["SICD"], "sidd": ["SIDD"], "sidd+sicd": ["SIDD", "SICD"], "other+sicd": ["other", "SICD"], "other": ["other"], "other+sidd+sicd": ["other", "SIDD", "SICD"]}
FILES = {"SICD": "sicd/example.sicd121.rma.xml", "SIDD": "sidd/example.sidd.xml"}


def des(kind):
    out = []
    for n, s in enumerate(SAR[kind]):
        out.append(segment("<Note>nothing</Note>" if s == "other" else open(f"{DATA}/{FILES[s]}").read(), n))
    return [f"<des_list>{''.join(out)}</des_list>"] if out else []


def sar(env, kind):
    """-> name of the SAR product or None, its header, function from DES text to the document"""
    name = next((s for s in SAR[kind] if s != "other"), None)
    if name is None:
        return None, None, None
    hdr = NITFDESAccessor.extract_des_header(NITFDESAccessor(des(kind)).get_segments_by_name("XML_DATA_CONTENT")[SAR[kind].index(name)])
    if not env.symbolic:
        return name, hdr, lambda t: XmlParser().from_string(t)
    made = {}

    def parse(self, text, *a, **k):
        return doc(FILES["SIDD" if "SIDD" in text else "SICD"].split("/")[1])

    def render(self, obj, *a, **k):
        t = f"<xml{len(made)}/>"
        made[t] = copy.copy(obj)
        for f in ("image_data", "downstream_reprocessing"):
            if hasattr(obj, f):
                setattr(made[t], f, copy.copy(getattr(obj, f)))
        return t

    env.patch.attr(XmlParser, "from_string", parse)
    env.patch.attr(XmlSerializer, "render", render)
    return name, hdr, lambda t: made.get(t)


def tiles(env, n, fmt, comp, types, model, kind, driver="NITF", adj=RangeAdjustmentType.NONE, out=None, sizes=("none",), fail=None):
    name, hdr, parse = sar(env, kind)
    g = Gdal(env, fail)
    ds = Ds(driver, types, des(kind))
    m = Model(env) if model else None
    f = env.no_raise(lambda: GDALTileFactory(ds, m, tile_format=fmt, tile_compression=comp, output_type=out, range_adjustment=adj), "constructor")
    otype, scales = get_type_and_scales(ds, desired_output_type=out, range_adjustment=adj)
    names = set()
    sarout = name is not None and driver == "NITF" and fmt == N.NITF
    for i in range(n):
        win = [env.int(f"x{i}", 0, 9000), env.int(f"y{i}", 0, 7000), env.int(f"w{i}", 4, 1000), env.int(f"h{i}", 4, 1000)]
        sz = sizes[i % len(sizes)]
        size = None if sz == "none" else (win[2], win[3]) if sz == "same" else (env.int(f"ow{i}", 1, 2000), env.int(f"oh{i}", 1, 2000))
        if m is not None:
            m.win = win
        given = list(win)
        k = len(g.calls)
        if sz == "any" and name == "SICD" and sarout:
            env.assume(env.Or(env.Not(env.eqb(size[0], win[2])), env.Not(env.eqb(size[1], win[3]))))
            r, e = env.call(lambda: f.create_encoded_tile(given, size))
            env.require(isinstance(e, ValueError) and len(g.calls) == k, "scaled SICD tiles are refused")
            continue
        r, e = env.call(lambda: f.create_encoded_tile(given, size))
        if fail != "read":
            env.require(e is None, f"create_encoded_tile: {e!r}")
        env.require(len(g.calls) == k + 1, "one tile is cut per request")
        dest, src, kw = g.calls[k]
        env.require(src is ds, "the tile is cut from the image")
        env.require(len(kw.get("srcWin", [])) == 4 and env.And(*[env.eqb(a, b) for a, b in zip(kw["srcWin"], win)]), "the tile is the requested window")
        env.require(env.And(*[env.eqb(a, b) for a, b in zip(given, win)]), "the caller's window is not changed")
        if size is None:
            env.require(not kw.get("width") and not kw.get("height"), "no scaling unless requested")
        else:
            env.require(kw.get("width") is not None and kw.get("height") is not None and env.And(env.eqb(kw["width"], size[0]), env.eqb(kw["height"], size[1])), "the tile has the requested size")
        env.require(str(getattr(kw.get("format"), "value", kw.get("format"))) == fmt.value, "the requested format")
        env.require(kw.get("outputType") == otype, "the output pixel type")
        env.require([list(s) for s in (kw.get("scaleParams") or [])] == [list(s) for s in scales], "the scale of every band")
        opts = list(kw.get("creationOptions") or [])
        want = []
        if fmt == N.NITF:
            flt = otype in (gdalconst.GDT_Float32, gdalconst.GDT_Float64) and NITF_IC[comp] == "C8" and comp != Z.LZW
            want.append("IC=" + ("NC" if flt else NITF_IC[comp]))
        elif fmt == N.GTIFF:
            want.append("COMPRESS=" + TIFF[comp])
        if model and fmt == N.NITF:
            want += ["ICORDS=G", "IGEOLO=" + "".join(text_of(*p) for p in GEO)]
        d = [o for o in opts if o.startswith("DES=")]
        if sarout:
            want += ["ICAT=SAR", "IREP=NODISPLY", "IREPBAND= , ", "ISUBCAT=I,Q"]
            p = "DES=XML_DATA_CONTENT=" + hdr
            env.require(len(d) == 1 and d[0].startswith(p), "one XML segment with the header of the image's own segment")
            x = parse(d[0][len(p):]) if len(d) == 1 and d[0].startswith(p) else None
            env.require(x is not None, "the updated document is stored in the tile")
            if x is not None and name == "SICD":
                o = doc("example.sicd121.rma.xml").image_data
                x = x.image_data
                env.require(env.And(env.eqb(x.first_row, o.first_row + win[1]), env.eqb(x.first_col, o.first_col + win[0]), env.eqb(x.num_rows, win[3]), env.eqb(x.num_cols, win[2])),
                            "the document describes this tile")
            elif x is not None:
                o = doc("example.sidd.xml").downstream_reprocessing
                c = x.downstream_reprocessing.geometric_chip
                a, b = c.original_upper_left_coordinate, c.original_lower_right_coordinate
                w, h = size or (win[2], win[3])
                env.require(env.And(env.eqb(c.chip_size.col, w), env.eqb(c.chip_size.row, h)), "the document gives the size of this tile")
                if o is None or o.geometric_chip is None:
                    env.require(env.And(env.eqb(a.col, win[0]), env.eqb(a.row, win[1]), env.eqb(b.col, win[0] + win[2] - 1), env.eqb(b.row, win[1] + win[3] - 1)),
                                "the document gives the corners of this tile")
        else:
            env.require(not d, "no XML segment unless the image is SAR and the tile NITF")
        env.require(sorted(o for o in opts if not o.startswith("DES=")) == sorted(want), "the creation options of this tile and no others")
        env.require(dest not in names and dest.startswith("/vsimem/"), "every tile has its own file in memory")
        names.add(dest)
        env.require(not g.open, "the file is closed")
        env.require(any(x == dest and y in (None, fmt.value) for y, x in g.deleted), "the file in memory is deleted")
        if fail == "open":
            env.require(r is None, "no tile when GDAL produced none")
        elif fail == "read":
            env.require(e is not None or r is None, "a failing read is not taken for a tile")
        else:
            env.require(r is not None and bytes(r) == g.body(dest), "the encoded bytes are the tile's file")


T = gdalconst


def cases(tier):
    q = tier == "quick"
    cs = []

    def add(name, **kw):
        cs.append(dict(name=name, body=tiles, params=dict(dict(n=2, fmt=N.NITF, comp=Z.NONE, types=[T.GDT_Byte], model=True, kind=None), **kw)))

    for f in (N.NITF, N.GTIFF, N.PNG, N.JPEG):
        for c in (None, Z.NONE, Z.JPEG, Z.J2K, Z.LZW):
            for t in ((T.GDT_Byte, T.GDT_UInt16, T.GDT_Float32, T.GDT_Float64) if f == N.NITF else (T.GDT_Byte,)):
                add(f"opt-{f.value}-{c.value if c else None}-{t}", fmt=f, comp=c, types=[t], model=t != T.GDT_UInt16)
    add("float-to-byte", types=[T.GDT_Float32], out=T.GDT_Byte, comp=Z.J2K, adj=RangeAdjustmentType.MINMAX)
    add("byte-to-float", types=[T.GDT_Byte], out=T.GDT_Float32, comp=Z.J2K)
    add("bands", types=[T.GDT_UInt16] * 3, out=T.GDT_Byte, adj=RangeAdjustmentType.DRA, comp=None)
    for k in SAR:
        for s in (("none",), ("same", "none"), ("any", "none", "any")):
            add(f"sar-{k}-{s[0]}", kind=k, sizes=s, n=3, types=[T.GDT_Float32] * 2, model=len(s) == 2)
    add("sar-gtiff", kind="sicd", fmt=N.GTIFF, sizes=("any",))
    add("sar-not-nitf", kind="sicd", driver="GTiff", sizes=("any",))
    for x in ("open", "read"):
        for f in (N.NITF, N.PNG):
            add(f"fail-{x}-{f.value}", fail=x, fmt=f)
    add("sizes", sizes=("any", "none", "same"), n=3, fmt=N.PNG)
    return cs
