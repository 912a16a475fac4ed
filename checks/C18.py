"""C18 - SICD and SIDD metadata are mapped onto the sensor model: pixel -> R/Rdot contour computed from the metadata fields."""
import copy
from pathlib import Path
from types import SimpleNamespace

from xsdata.formats.dataclass.parsers import XmlParser

import aws.osml.formats.sicd.models.sicd_v1_2_1 as s121
import aws.osml.formats.sidd.models.sidd_v2_0_0  # noqa (registers the XML types)
from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
from aws.osml.photogrammetry import ImageCoordinate, SICDSensorModel
from aws.osml.photogrammetry.elevation_model import ElevationModel, ElevationRegionSummary
from aws.osml.photogrammetry.sicd_sensor_model import DEMRRDotSurfaceProjection, GroundPlaneRRDotSurfaceProjection

from .common import ecef
from .sarcommon import COS, FRAMES, SIN, cross, dot, horner, sub

BOUNDS = ("metadata documents of the test data with the numeric fields the projection reads replaced: either grid fields and pixel symbolic, or scene "
          "centre, platform polynomial and algorithm parameters symbolic; coefficients listed sparsely and in any of several orders")
OUTSIDE = "XML parsing (xsdata); surfaces (C16); polynomial degrees above 2; other metadata versions (same code path)"
DATA = Path("/repo/test/data")
_cache = {}


def doc(name):
    if name not in _cache:
        p = DATA / ("sidd" if "sidd" in name else "sicd") / name
        _cache[name] = XmlParser().from_path(p)
    return copy.deepcopy(_cache[name])


def p1(mod, c, perm, pad=0):
    co = [SimpleNamespace(value=v, exponent1=i) for i, v in enumerate(c) if not (isinstance(v, (int, float)) and v == 0)]
    return mod.Poly1DType(coef=_perm(co, perm), order1=len(c) - 1 + pad)


def p2(mod, c, perm, pad=0):
    co = [SimpleNamespace(value=v, exponent1=i, exponent2=j) for i, r in enumerate(c) for j, v in enumerate(r)
          if not (isinstance(v, (int, float)) and v == 0)]
    return mod.Poly2DType(coef=_perm(co, perm), order1=len(c) - 1 + pad, order2=len(c[0]) - 1)


def _perm(co, perm):
    return list(reversed(co)) if perm == 1 else (co[1:] + co[:1] if perm == 2 else co)


def xyz(mod, v):
    return mod.XYZType(x=v[0], y=v[1], z=v[2])


def _p2v(c, x, y):
    r, px = 0, 1
    for row in c:
        r = r + px * horner(row, y)
        px = px * x
    return r


def fields(env, what):
    """values of the fields shared by all products"""
    n = env.num
    f = {}
    sym = what == "grid"
    f["scp_pixel"] = [env.int("scp_r", 0, 9000), env.int("scp_c", 0, 9000)] if sym else [700, 300]
    f["first"] = [env.int("first_r", 0, 9000), env.int("first_c", 0, 9000)] if sym else [40, 90]
    f["ss"] = [env.real("row_ss", 0.1, 3), env.real("col_ss", 0.1, 3)] if sym else [n(0.5), n(0.75)]
    pos = what == "position"
    f["scp"] = [env.real(f"s{k}", 1000, 9000) for k in range(3)] if pos else [n(4000.0), n(3000.0), n(5000.0)]
    f["A"] = ([[env.real(f"a{ax}{k}", -90 if k else 10000, 90 if k else 20000) for k in range(2)] for ax in "xyz"] if pos
              else [[n(v) for v in r] for r in ([9000.0, 12.0, -0.5], [8500.0, -4.0, 0.25], [12000.0, 3.0, 0.75])])
    f["T"] = [[env.real("t00", 0.5, 2)]] if pos else [[n(0.75), n(0.001)], [n(-0.002), 0]]
    f["xy"] = [env.real("x", -500, 9000), env.real("y", -500, 9000)] if sym else [n(500.0), n(200.0)]
    return f


def sicd(env, f, base, algo, perm, side, fpn=None):
    d = doc(base)
    d.image_data.scppixel.row, d.image_data.scppixel.col = f["scp_pixel"]
    d.image_data.first_row, d.image_data.first_col = f["first"]
    d.grid.row.ss, d.grid.col.ss = f["ss"]
    d.grid.row.uvect_ecf, d.grid.col.uvect_ecf = xyz(s121, f["urow"]), xyz(s121, f["ucol"])
    d.grid.time_coapoly = p2(s121, f["T"], perm)
    d.geo_data.scp.ecf = xyz(s121, f["scp"])
    d.position.arppoly = s121.XYZPolyType(x=p1(s121, f["A"][0], perm), y=p1(s121, f["A"][1], (perm + 1) % 3), z=p1(s121, f["A"][2], (perm + 2) % 3, pad=1))
    d.scpcoa.side_of_track = type(d.scpcoa.side_of_track)(side)
    d.scpcoa.arppos, d.scpcoa.arpvel = xyz(s121, f["arppos"]), xyz(s121, f["arpvel"])
    if algo == "PFA":
        d.grid.type_value = s121.ImageGridType.RGAZIM
        d.image_formation.image_form_algo = s121.ImageFormAlgo.PFA
        d.pfa.fpn = xyz(s121, fpn)
        d.pfa.polar_ang_poly, d.pfa.spatial_freq_sfpoly = p1(s121, f["pa"], perm), p1(s121, f["sf"], perm)
    elif algo == "RGAZCOMP":
        d.grid.type_value = s121.ImageGridType.RGAZIM
        d.image_formation.image_form_algo = s121.ImageFormAlgo.RGAZCOMP
        d.pfa = None
        d.rg_az_comp = s121.RgAzCompType(az_sf=f["az"])
    elif algo == "INCA":
        d.grid.type_value = s121.ImageGridType.RGZERO
        d.rma.inca.r_ca_scp, d.rma.inca.time_capoly, d.rma.inca.drate_sfpoly = f["rca"], p1(s121, f["ca"], perm), p2(s121, f["D"], perm)
    else:
        d.grid.type_value = s121.ImageGridType[algo]
    return d


def contour(env, f, algo, xr, yc):
    """the contour R, Rdot, ARP, VARP (SICD Volume 3, Section 4) from the metadata fields"""
    A = f["A"]
    t = _p2v(f["T"], xr, yc)
    arp = [horner(c, t) for c in A]
    varp = [horner([c[k] * k for k in range(1, len(c))], t) for c in A]
    scp = f["scp"]
    los = sub(arp, scp)
    if algo == "PFA":
        rs = env.sqrt(dot(los, los), nonneg=True)
        pa, sf = f["pa"], f["sf"]
        th = horner(pa, t)
        dth = horner([pa[k] * k for k in range(1, len(pa))], t)
        ksf, dksf = horner(sf, th), horner([sf[k] * k for k in range(1, len(sf))], th)
        c, s = COS(env, th), SIN(env, th)
        ka, kc = xr * c + yc * s, yc * c - xr * s
        return rs + ksf * ka, dot(varp, los) / rs + (dksf * ka + ksf * kc) * dth, arp, varp
    if algo == "RGAZCOMP":
        rs = env.sqrt(dot(los, los), nonneg=True)
        return rs + xr, dot(varp, los) / rs - env.sqrt(dot(varp, varp), nonneg=True) * f["az"] * yc, arp, varp
    if algo == "INCA":
        tca = horner(f["ca"], yc)
        vca = [horner([c[k] * k for k in range(1, len(c))], tca) for c in A]
        v2 = dot(vca, vca)
        dt, dr = t - tca, _p2v(f["D"], xr, yc)
        R = env.sqrt((f["rca"] + xr) * (f["rca"] + xr) + dr * v2 * dt * dt, nonneg=True)
        return R, dr * v2 * dt / R, arp, varp
    ipp = [scp[k] + xr * f["urow"][k] + yc * f["ucol"][k] for k in range(3)]
    los = sub(arp, ipp)
    R = env.sqrt(dot(los, los), nonneg=True)
    return R, dot(varp, los) / R, arp, varp


class El(ElevationModel):
    def set_elevation(self, c):
        c.elevation = 1.0

    def describe_region(self, c):
        return ElevationRegionSummary(0.0, 1.0, -9999, 30.0)


def _algo_fields(env, f, what, algo):
    n, sym = env.num, what == "algo"
    r = lambda name, lo, hi, v: env.real(name, lo, hi) if sym else n(v)  # noqa
    f["urow"], f["ucol"] = [n(0.6), n(0.8), n(0.0)], [n(-0.48), n(0.36), n(0.8)]
    f["arppos"], f["arpvel"] = [n(9001.0), n(8497.0), n(12002.0)], [n(11.0), n(-3.5), n(4.0)]
    f["pa"], f["sf"] = [r("pa0", -1, 1, 0.01), r("pa1", -1, 1, 0.02), 0], [r("sf0", 0.5, 1.5, 1.0), 0, r("sf2", -0.5, 0.5, 0.125)]
    f["az"] = r("az", -0.1, 0.1, 0.03)
    f["rca"] = r("rca", 5000, 9000, 9000.0)
    f["ca"] = [r("ca0", -1, 1, 0.25), r("ca1", -0.01, 0.01, 0.001)]
    f["D"] = [[r("d00", 0.5, 1.5, 0.9), r("d01", -0.01, 0.01, 0.0001)], [r("d10", -0.01, 0.01, 0.0002), 0]]


BASE = {"PFA": "example.sicd121.pfa.xml", "RGAZCOMP": "example.sicd121.pfa.xml", "INCA": "example.sicd121.capella.xml"}


def run(env, what, algo, perm, side):
    fwd = ecef(env)
    f = fields(env, what)
    _algo_fields(env, f, what, algo)
    if what == "normals":
        f["arppos"] = [env.real(f"ap{k}", 9000, 20000) for k in range(3)]
        f["arpvel"] = [env.real(f"av{k}", 1, 90) for k in range(3)]
    fpn = [env.real(f"fpn{k}", 0.1, 1) for k in range(3)] if what == "normals" else [env.num(v) for v in (0.28, 0.96, 0.0)]
    xrow = (f["xy"][1] + f["first"][0] - f["scp_pixel"][0]) * f["ss"][0]
    ycol = (f["xy"][0] + f["first"][1] - f["scp_pixel"][1]) * f["ss"][1]
    R, Rd, arp, varp = contour(env, f, algo, xrow, ycol)
    d = sicd(env, f, BASE.get(algo, "example.sicd121.rma.xml"), algo, perm, side, fpn)
    c = cross(f["arpvel"], sub(f["scp"], f["arppos"]))
    n = env.sqrt(dot(c, c), nonneg=True)
    m = env.no_raise(lambda: SICDSensorModelBuilder.from_dataclass(d), "builder")
    env.require(isinstance(m, SICDSensorModel), "a sensor model is built")
    _exercise(env, m, f, R, Rd, arp, varp, side, fwd, fpn if algo == "PFA" else None, loose=algo == "INCA")
    if what == "normals":
        sg = -1 if side == "R" else 1
        env.require_all_eq([n * v for v in m.uvect_spn], [sg * v for v in c], "slant plane normal comes from the platform state at the scene centre")


def _exercise(env, m, f, R, Rd, arp, varp, side, fwd, fpn, pix=None, loose=False):
    calls = []

    def surf(self, r, rd, a, v):
        calls.append((self, r, rd, a, v))
        return env.arr([[7000.0, 100.0, 200.0]])

    env.patch.attr(GroundPlaneRRDotSurfaceProjection, "rrdot_to_ground", surf)
    env.patch.attr(DEMRRDotSurfaceProjection, "rrdot_to_ground", surf)
    for el in (None, El()):
        ic = ImageCoordinate(pix or f["xy"])
        env.no_raise(lambda: m.image_to_world(ic, el), "image_to_world")
        env.require(len(calls) > 0, "the contour is intersected with a surface")
        s, r, rd, a, v = calls[-1]
        env.require_all_eq(a, arp, "platform position comes from the position polynomial at the pixel's time", 1e-4)
        env.require_all_eq(v, varp, "platform velocity comes from the position polynomial at the pixel's time", 1e-4)
        if loose:
            env.require(env.eq(r * r, R * R, 1e-3), "range of the pixel's contour")
            env.require(env.eq(rd * r, Rd * R, 1e-3), "range rate of the pixel's contour")
        else:
            env.require(env.eq(r, R, 1e-4), "range of the pixel's contour")
            env.require(env.eq(rd, Rd, 1e-4), "range rate of the pixel's contour")
        if el is None:
            env.require_all_eq(s.ref_ecf.coordinate, f["scp"], "default surface goes through the scene centre")
            if fpn is not None:
                k = env.sqrt(dot(fpn, fpn), nonneg=True)
                env.require_all_eq([k * x for x in s.u_gpn], fpn, "default surface is the focus plane / product plane")
            elif env.symbolic:
                lon, lat = fwd.log[0][1][:2]
                env.require_all_eq(fwd.log[0][0], f["scp"], "default surface is tangent at the scene centre")
                env.require_all_eq(s.u_gpn, [COS(env, lat) * COS(env, lon), COS(env, lat) * SIN(env, lon), SIN(env, lat)], "default surface is level")
        elif side is not None:
            env.require(s.look == (1 if side == "L" else -1), "side of track comes from the metadata")


def sidd(env, what, perm, chip):
    fwd = ecef(env)
    f = fields(env, what)
    f["first"] = [0, 0]
    f["urow"], f["ucol"] = [env.num(v) for v in (0.6, 0.8, 0.0)], [env.num(v) for v in (-0.48, 0.36, 0.8)]
    pix = f["xy"]
    d = doc("example.sidd-chip.xml" if chip else "example.sidd.xml")
    pp = d.measurement.plane_projection
    pp.reference_point.ecef = xyz(s121, f["scp"])
    pp.reference_point.point.row, pp.reference_point.point.col = f["scp_pixel"]
    pp.sample_spacing.row, pp.sample_spacing.col = f["ss"]
    pp.product_plane.row_unit_vector, pp.product_plane.col_unit_vector = xyz(s121, f["urow"]), xyz(s121, f["ucol"])
    pp.time_coapoly = p2(s121, f["T"], perm)
    d.measurement.arppoly = s121.XYZPolyType(x=p1(s121, f["A"][0], perm), y=p1(s121, f["A"][1], (perm + 1) % 3), z=p1(s121, f["A"][2], (perm + 2) % 3, pad=1))
    full = pix
    if chip:
        g = d.downstream_reprocessing.geometric_chip
        rows, cols, k0, k1, r0, c0 = 200, 300, 1.5, 2.5, 64.0, 32.0
        g.chip_size.row, g.chip_size.col = rows, cols
        for nm, (cx, cy) in (("upper_left", (0, 0)), ("upper_right", (cols, 0)), ("lower_left", (0, rows)), ("lower_right", (cols, rows))):
            o = getattr(g, f"original_{nm}_coordinate")
            o.row, o.col = r0 + k0 * cy, c0 + k1 * cx
        full = [c0 + k1 * pix[0], r0 + k0 * pix[1]]
    xrow, ycol = (full[1] - f["scp_pixel"][0]) * f["ss"][0], (full[0] - f["scp_pixel"][1]) * f["ss"][1]
    R, Rd, arp, varp = contour(env, f, "PLANE", xrow, ycol)
    m = env.no_raise(lambda: SIDDSensorModelBuilder.from_dataclass(d), "builder")
    gpn = cross(f["urow"], f["ucol"])
    if dot(gpn, [4000.0, 3000.0, 5000.0]) < 0:
        gpn = [-v for v in gpn]
    if what == "position":
        env.require(env.Or(dot(gpn, f["scp"]) > 0, True), "frame")
    if chip:
        _chip(env, m, R, Rd, arp, varp, f, pix)
    else:
        if what == "position" and env.fork(dot(gpn, f["scp"]) < 0):
            gpn = [-v for v in gpn]
        _exercise(env, m, f, R, Rd, arp, varp, None, fwd, gpn)


def _chip(env, m, R, Rd, arp, varp, f, pix):
    calls = []

    def surf(self, r, rd, a, v):
        calls.append((self, r, rd, a, v))
        return env.arr([[7000.0, 100.0, 200.0]])

    env.patch.attr(GroundPlaneRRDotSurfaceProjection, "rrdot_to_ground", surf)
    env.no_raise(lambda: m.image_to_world(ImageCoordinate(pix)), "image_to_world")
    s, r, rd, a, v = calls[-1]
    env.require_all_eq(a, arp, "platform position is that of the full image pixel", 1e-3)
    env.require(env.eq(r, R, 1e-2), "range is that of the full image pixel")
    env.require(env.eq(rd, Rd, 1e-2), "range rate is that of the full image pixel")


def cases(tier):
    o = dict(query_timeout=60)
    q = tier == "quick"
    cs = []
    for i, algo in enumerate(("PFA", "RGAZCOMP", "INCA", "PLANE", "XCTYAT", "XRGYCR")):
        for what in ("grid", "position", "algo"):
            if what == "algo" and algo in BASE or what != "algo":
                if q and what == "position" and algo in ("XCTYAT", "XRGYCR"):
                    continue
                for p in ((i % 3,) if q else (0, 1, 2)):
                    cs.append(dict(name=f"{algo}-{what}-{p}", body=run, params=dict(what=what, algo=algo, perm=p, side="LR"[i % 2]), opts=o))
    for algo, s in (("PFA", "R"), ("PLANE", "L"), ("INCA", "R")):
        cs.append(dict(name=f"{algo}-normals", body=run, params=dict(what="normals", algo=algo, perm=0, side=s), opts=o))
    for what in ("grid", "position"):
        cs.append(dict(name=f"sidd-{what}", body=sidd, params=dict(what=what, perm=1, chip=False), opts=o))
    cs.append(dict(name="sidd-chip", body=sidd, params=dict(what="chip", perm=2, chip=True), opts=o))
    return cs
