"""C32 - loading an image: the dataset together with the best sensor model of its metadata, end to end with the real builders."""
import base64
from types import SimpleNamespace
from xml.etree import ElementTree as ET

from osgeo import gdal
from xsdata.exceptions import ParserError
from xsdata.formats.dataclass.parsers import XmlParser

from aws.osml.gdal import load_gdal_dataset
from aws.osml.photogrammetry import CompositeSensorModel, GeodeticWorldCoordinate, ImageCoordinate

from . import C18
from .C05 import poly, terms
from .C12 import _stub as crs_stub
from .C18 import _algo_fields, _exercise, contour, fields, sicd
from .C19 import RPOLY, doc, rpc_fields, tre
from .common import ecef

BOUNDS = ("datasets with every combination of geotransform (symbolic, absent, not invertible), projection, 0..5 ground control points, RPC00B (usable, unusable, chipped), CSCRNA (usable, "
          "incomplete) and SICD segments (usable, unreadable) up to three kinds at a time; symbolic image sizes, fields, pixels and ground points")
OUTSIDE = "GDAL's drivers (a dataset stand-in hands over the metadata); XML parsing of SICD documents; the models themselves (C05..C18)"


def D2R(env):
    return env.num(3.141592653589793) / 180


class Ds:
    def __init__(self, env, gt=None, gcps=(), wkt="", tres=None, dess=None, size=(300, 200)):
        self.gt, self.gcps, self.wkt, self.tres, self.dess = gt, tuple(gcps), wkt, tres, dess
        self.RasterXSize, self.RasterYSize = size
        self.RasterCount = 1

    def GetGeoTransform(self, *a, **kw):
        null = kw.get("can_return_null", a[0] if a else None)
        if self.gt is None:
            return None if null else (0.0, 1.0, 0.0, 0.0, 0.0, 1.0)
        return tuple(self.gt)

    def GetGCPs(self):
        return self.gcps

    def GetGCPCount(self):
        return len(self.gcps)

    def GetProjection(self):
        return self.wkt

    GetProjectionRef = GetProjection

    def GetMetadata(self, domain=""):
        if domain == "xml:TRE":
            return self.tres
        if domain == "xml:DES":
            return self.dess
        return {}

    GetMetadata_List = GetMetadata


def load(env, ds):
    seen = []
    env.patch.attr(gdal, "Open", lambda path, *a, **k: (seen.append(path), ds)[1])
    path = env.choice("path", ["/data/image.ntf", "/vsis3/bucket/image.tif"])
    r = env.no_raise(lambda: load_gdal_dataset(path), "load_gdal_dataset")
    env.require(len(r) == 2 and r[0] is ds, "the dataset itself is returned")
    env.require(len(seen) > 0 and all(s == path for s in seen), "the requested image is opened")
    return r[1]


def missing(env, how):
    def opn(path, *a, **k):
        if how == "raise":
            raise RuntimeError("not recognized as a supported file format")
        return None

    env.patch.attr(gdal, "Open", opn)
    r, e = env.call(lambda: load_gdal_dataset("/data/none.tif"))
    env.require(isinstance(e, ValueError), "images GDAL can not open are reported as ValueError")


# -------------------------------------------------------------------------------------------------------------- metadata and oracles
def geo(env):
    g = [env.real("g0", -180, 180), env.real("g1", -2, 2), env.real("g2", -2, 2), env.real("g3", -90, 90), env.real("g4", -2, 2), env.real("g5", -2, 2)]
    det = g[1] * g[5] - g[2] * g[4]
    env.assume(env.Or(det > 0.05, det < -0.05))
    return g


def is_affine(env, m, g, k=None):
    x, y = env.real("x", -1000, 1000), env.real("y", -1000, 1000)
    X, Y = g[0] + g[1] * x + g[2] * y, g[3] + g[4] * x + g[5] * y
    if k:
        X, Y = k[0] + k[1] * X + k[2] * Y, k[3] + k[4] * X + k[5] * Y
    w = env.no_raise(lambda: m.image_to_world(ImageCoordinate([x, y])), "image_to_world")
    env.require(env.eq(w.longitude, X * D2R(env)), "longitude of the geotransform")
    env.require(env.eq(w.latitude, Y * D2R(env)), "latitude of the geotransform")


def quad(env, n):
    """four corners (and points between them) of an image on the ground, degrees"""
    lo, la = env.real("lo", -170, 170), env.real("la", -60, 60)
    ax, ay = env.real("ax", 0.5, 2), env.real("ay", -0.3, 0.3)
    W, H = 400, 300
    P = [(0, 0), (W, 0), (W, H), (0, H), (200, 150)][:n]
    return [(x, y, lo + (ax * x - ay * y) / 1000, la - (ay * x + ax * y) / 1000) for x, y in P]


def gcp(q):
    return [SimpleNamespace(GCPX=lo, GCPY=la, GCPZ=12.0, GCPPixel=float(x), GCPLine=float(y), Id=str(i), Info="") for i, (x, y, lo, la) in enumerate(q)]


def is_quad(env, m, q):
    for x, y, lo, la in q[:4]:
        p = env.no_raise(lambda: m.world_to_image(GeodeticWorldCoordinate([lo * D2R(env), la * D2R(env), 3.0])), "world_to_image")
        env.require(env.eq(p.x, x, 1e-2, 1e-5), "a control point maps to its column")
        env.require(env.eq(p.y, y, 1e-2, 1e-5), "a control point maps to its row")


def rpc_tre(env, bad=False):
    F, C = rpc_fields(env, "fields")
    if bad:
        if env.choice("rpcbad", [0, 1]):
            F["SUCCESS"] = "0"
        else:
            del F[env.choice("nm", ["LINE_OFF", "HEIGHT_SCALE", "ERR_BIAS"])]
    return F, C, tre(env, "RPC00B", F, list(C.items()))


def is_rpc(env, m, F, C, chip):
    L, P, H = env.real("L", -1, 1), env.real("P", -1, 1), env.real("H", -1, 1)
    k = D2R(env)
    q = env.no_raise(lambda: m.world_to_image(GeodeticWorldCoordinate([(L * F["LONG_SCALE"] + F["LONG_OFF"]) * k, (P * F["LAT_SCALE"] + F["LAT_OFF"]) * k,
                                                                      H * F["HEIGHT_SCALE"] + F["HEIGHT_OFF"]])), "world_to_image")
    t = terms(L, P, H)
    v = {n: poly(C[n], t) for n in RPOLY}
    x = v[RPOLY[2]] / v[RPOLY[3]] * F["SAMP_SCALE"] + F["SAMP_OFF"]
    y = v[RPOLY[0]] / v[RPOLY[1]] * F["LINE_SCALE"] + F["LINE_OFF"]
    if chip:
        c0, r0, k = chip
        x, y = (x - c0) / k + 0.5, (y - r0) / k + 0.5
    env.require(env.eq(q.x, x, 1e-4, 1e-5), "column follows the RPC00B fields" + (" through the chip record" if chip else ""))
    env.require(env.eq(q.y, y, 1e-4, 1e-5), "row follows the RPC00B fields" + (" through the chip record" if chip else ""))


def cscrna_tre(env, q, bad=False):
    F = {}
    for c, (x, y, lo, la) in zip(("UL", "UR", "LR", "LL"), q):
        F[f"{c}CNR_LAT"], F[f"{c}CNR_LONG"], F[f"{c}CNR_HT"] = la, lo, env.num(0.0)
    if bad:
        del F[env.choice("nm", ["ULCNR_LAT", "LLCNR_HT", "LRCNR_LONG"])]
    return tre(env, "CSCRNA", F)


def ichipb(env):
    c0, r0, k = env.real("c0", 0.5, 5000), env.real("r0", 0.5, 5000), env.choice("k", [1.0, 2.0])
    F = {"XFRM_FLAG": "0"}
    for n, a, b in (("11", 0, 0), ("12", 1, 0), ("21", 0, 1), ("22", 1, 1)):
        F[f"OP_COL_{n}"], F[f"OP_ROW_{n}"] = env.num(0.5 + 128 * a), env.num(0.5 + 64 * b)
        F[f"FI_COL_{n}"], F[f"FI_ROW_{n}"] = c0 + 128 * k * a, r0 + 64 * k * b
    F["FI_COL"], F["FI_ROW"] = env.int("ficol", 6000, 9000), env.int("firow", 6000, 9000)
    return (c0, r0, k), tre(env, "ICHIPB", F)


def xml(env, *ts):
    return [ET.tostring(doc(*ts), encoding="unicode")]


# ------------------------------------------------------------------------------------------------------------------------------ cases
def nothing(env):
    none = env.choice("none", [None, []])
    m = load(env, Ds(env, gt=None, tres=none, dess=none, gcps=gcp(quad(env, env.choice("n", [0, 1, 3])))))
    env.require(m is None, "no sensor model for images without georeference")


def affine(env, crs, gcps):
    g = geo(env)
    k = None
    if crs:
        k = [env.real(f"k{i}", *r) for i, r in enumerate([(-50, 50), (0.5, 2), (-0.2, 0.2), (-20, 20), (-0.2, 0.2), (0.5, 2)])]
        crs_stub(env, k)
    m = load(env, Ds(env, gt=g, wkt="EPSG:32618" if crs else "", gcps=gcp(quad(env, gcps))))
    env.require(m is not None and not isinstance(m, CompositeSensorModel), "one sensor model")
    is_affine(env, m, g, k)


def points(env, n, gt):
    q = quad(env, n)
    m = load(env, Ds(env, gt=None if gt is None else geo(env) if gt else [1.0, 0.0, 0.0, 2.0, 0.0, 0.0], gcps=gcp(q)))
    env.require(m is not None, "a model from ground control points")
    is_quad(env, m, q)


def rpc(env, gt, chip, cs, bad):
    F, C, t = rpc_tre(env, bad)
    ts = [t]
    ch = None
    if chip:
        ch, ct = ichipb(env)
        ts.insert(0, ct)
    q = quad(env, 4)
    if cs:
        ts.append(cscrna_tre(env, q, cs == "bad"))
    g = [env.num(v) for v in (12.0, 0.01, 0.002, -7.0, 0.001, -0.02)] if gt else None
    m = load(env, Ds(env, gt=g, tres=xml(env, *ts), size=(400, 300)))
    approx = "cscrna" if cs == "good" else "affine" if gt else None
    if bad:
        env.require((m is None) == (approx is None), "without usable RPC record only the approximate model remains")
        env.require(not isinstance(m, CompositeSensorModel), "one sensor model")
        p, a = None, m
    elif approx:
        env.require(isinstance(m, CompositeSensorModel), "precise and approximate model are combined")
        p, a = m.precision_sensor_model, m.approximate_sensor_model
    else:
        env.require(m is not None and not isinstance(m, CompositeSensorModel), "one sensor model")
        p, a = m, None
    if p is not None:
        is_rpc(env, p, F, C, ch)
    if approx == "affine":
        is_affine(env, a, g)
    if approx == "cscrna":
        is_quad(env, a, q)


def corners(env):
    """corners belong to the corners of the image, whatever its size"""
    W, H = env.int("w", 10, 30000), env.int("h", 10, 30000)
    lo, la, d = env.real("lo", -170, 170), env.real("la", -60, 60), env.real("d", 0.01, 0.5)
    q = [(0, 0, lo, la), (W, 0, lo + d, la), (W, H, lo + d, la - d), (0, H, lo, la - d)]
    m = load(env, Ds(env, tres=xml(env, cscrna_tre(env, q)), size=(W, H)))
    env.require(m is not None, "a model from corner coordinates")
    is_quad(env, m, q)


def sar(env, algo, others, state):
    fwd = ecef(env)
    f = fields(env, "grid")
    _algo_fields(env, f, "grid", algo)
    d = sicd(env, f, C18.BASE.get(algo, "example.sicd121.rma.xml"), algo, 1, "L", [env.num(v) for v in (0.28, 0.96, 0.0)])
    text = '<?xml version="1.0"?><SICD xmlns="urn:SICD:1.2.1"><CollectionInfo>c1</CollectionInfo></SICD>'
    got = []

    def parse(self, s, *a, **k):
        got.append(s)
        if state == "unreadable" or "c1" not in s:
            raise ParserError("unreadable")
        return d

    env.patch.attr(XmlParser, "from_string", parse)
    body = base64.b64encode(text.encode()).decode()
    seg = lambda n, v: f'<des name="{n}"><field name="DESID" value="{n}"/><field name="DESDATA" value="{v}"/></des>'  # noqa
    foreign = base64.b64encode(b"<Other><x>1</x></Other>").decode()
    dess = ['<?xml version="1.0"?><des_list>' + (seg("TRE_OVERFLOW", "") + seg("XML_DATA_CONTENT", foreign) if others else "") + seg("XML_DATA_CONTENT", body) + "</des_list>"]
    F, C, t = rpc_tre(env) if others else (None, None, None)
    g = [env.num(v) for v in (12.0, 0.01, 0.002, -7.0, 0.001, -0.02)] if others else None
    m = load(env, Ds(env, gt=g, tres=xml(env, t) if others else None, dess=dess))
    env.require(len(got) > 0 and all("c1" in s or "SICD" not in s for s in got), "the SICD document of the image is read")
    if others:
        env.require(isinstance(m, CompositeSensorModel), "precise and approximate model are combined")
        is_affine(env, m.approximate_sensor_model, g)
        m = m.precision_sensor_model
    if state == "unreadable":
        if others:
            is_rpc(env, m, F, C, None)
        else:
            env.require(m is None, "no model of an unreadable document")
        return
    env.require(m is not None, "a SAR model is built")
    xrow = (f["xy"][1] + f["first"][0] - f["scp_pixel"][0]) * f["ss"][0]
    ycol = (f["xy"][0] + f["first"][1] - f["scp_pixel"][1]) * f["ss"][1]
    R, Rd, arp, varp = contour(env, f, algo, xrow, ycol)
    _exercise(env, m, f, R, Rd, arp, varp, "L", fwd, [env.num(v) for v in (0.28, 0.96, 0.0)] if algo == "PFA" else None, loose=algo == "INCA")


def cases(tier):
    q = tier == "quick"
    o = dict(query_timeout=60)
    cs = []

    def add(body, name, **k):
        cs.append(dict(name=name, body=body, params=k, opts=o))

    for h in ("null", "raise"):
        add(missing, f"missing-{h}", how=h)
    add(nothing, "nothing")
    for c in (False, True):
        for n in (0, 3):
            add(affine, f"affine-{int(c)}-{n}", crs=c, gcps=n)
    for n in (4,) if q else (4, 5):
        for gt in (None, True, False):
            add(points, f"gcps-{n}-{gt}", n=n, gt=gt)
    for gt in (False, True):
        for chip in (False, True):
            for c in (None, "good", "bad"):
                for bad in (False, True):
                    if chip and c == "good" or (q and chip and gt):
                        continue
                    add(rpc, f"rpc-{int(gt)}{int(chip)}-{c}-{int(bad)}", gt=gt, chip=chip, cs=c, bad=bad)
    add(corners, "corners")
    for a in ("PLANE",) if q else ("PLANE", "PFA", "INCA", "RGAZCOMP"):
        for oth in (False, True):
            for st in ("good", "unreadable"):
                add(sar, f"sicd-{a}-{int(oth)}-{st}", algo=a, others=oth, state=st)
    return cs
