"""C20 - SensorModelFactory builds the most accurate model that the metadata and the selection allow."""
import base64
from types import SimpleNamespace
from xml.etree import ElementTree as ET

from aws.osml.gdal.gdal_sensor_model_builder import GDALAffineSensorModelBuilder, GDALGCPSensorModelBuilder
from aws.osml.gdal.projective_sensor_model_builder import ProjectiveSensorModelBuilder
from aws.osml.gdal.rpc_sensor_model_builder import RPCSensorModelBuilder
from aws.osml.gdal.rsm_sensor_model_builder import RSMSensorModelBuilder
from aws.osml.gdal.sensor_model_factory import SensorModelFactory, SensorModelTypes
from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
from aws.osml.photogrammetry import CompositeSensorModel, GeodeticWorldCoordinate, ImageCoordinate

from .C19 import doc, tre
from .common import RecordingModel

BOUNDS = ("every combination of: 0/3/4/5 ground control points, geotransform, CSCRNA, RSM, RPC (each absent or usable or unusable), ICHIPB absent / "
          "usable / incomplete, up to 3 data extension segments (SIDD, SICD, other; usable or unusable), every selection of model types; pixel and size of the image symbolic")
OUTSIDE = "the individual builders (C18, C19); SIDD metadata when SICD is not selected (not documented either way)"
T = SensorModelTypes
B = {"affine": GDALAffineSensorModelBuilder, "gcp": GDALGCPSensorModelBuilder, "cscrna": ProjectiveSensorModelBuilder, "rsm": RSMSensorModelBuilder,
     "rpc": RPCSensorModelBuilder, "sidd": SIDDSensorModelBuilder, "sicd": SICDSensorModelBuilder}
ID = {n: 10.0 * (i + 1) for i, n in enumerate(B)}


def marker(n):
    return RecordingModel(n, lambda lon, lat, h: [ID[n] + lon, ID[n] - lat], lambda x, y: [0.001 * ID[n], 0.002 * ID[n], 1.0])


def install(env, usable, log):
    """every builder builds its marker model when the metadata is usable"""
    made = {}
    for n, cl in B.items():
        def build(self, n=n):
            log.append((n, self))
            if not usable[n]:
                return None
            made[n] = marker(n)
            return made[n]
        env.patch.attr(cl, "build", build)
    return made


def selection(env, mode, which):
    """None = all; otherwise every subset of `which`, the other types being selected"""
    if mode == "all":
        return None, set(T)
    s = [t for t in T if t not in which] + [t for t in which if env.fork(env.bool(f"sel_{t.value}"))]
    return s, set(s)


CHIP = dict(OP_COL_11=0.5, OP_ROW_11=0.5, OP_COL_12=255.5, OP_ROW_12=0.5, OP_COL_21=0.5, OP_ROW_21=255.5, OP_COL_22=255.5, OP_ROW_22=255.5)
FULL = dict(FI_COL_11=100.5, FI_ROW_11=200.5, FI_COL_12=610.5, FI_ROW_12=200.5, FI_COL_21=100.5, FI_ROW_21=710.5, FI_COL_22=610.5, FI_ROW_22=710.5,
            FI_COL=4000, FI_ROW=3000)


def ichipb(env, kind, missing=("OP_COL_21", "FI_ROW_22", "FI_ROW", "FI_COL")):
    f = {k: env.num(v) if isinstance(v, float) else v for k, v in {**CHIP, **FULL}.items()}
    if kind == "bad":
        del f[env.choice("missing", list(missing))]
    return tre(env, "ICHIPB", f)


def is_model(env, m, n, chipped, made, what):
    """m answers with marker model n (behind the chip mapping when chipped)"""
    lon, lat = env.real("lon", -3, 3), env.real("lat", -1.5, 1.5)
    w = GeodeticWorldCoordinate([lon, lat, 5.0])
    env.require(n in made, f"{what}: {n} metadata is used")
    p = env.no_raise(lambda: m.world_to_image(w), "world_to_image")
    c = made[n].calls
    env.require(len(c) > 0 and c[-1][0] == "w2i", f"{what} is the {n} model")
    fx, fy = ID[n] + lon, ID[n] - lat
    if chipped:
        fx, fy = (fx - 100.5) / 2 + 0.5, (fy - 200.5) / 2 + 0.5
    env.require(env.eq(p.x, fx, 1e-6, 1e-6), f"{what} is the {n} model, {'chip' if chipped else 'full image'} column")
    env.require(env.eq(p.y, fy, 1e-6, 1e-6), f"{what} is the {n} model, {'chip' if chipped else 'full image'} row")
    x, y = env.real("x", -10, 300), env.real("y", -10, 300)
    env.no_raise(lambda: m.image_to_world(ImageCoordinate([x, y])), "image_to_world")
    k = [a for a in c if a[0] == "i2w"][-1]
    env.require(env.eq(k[1], (x - 0.5) * 2 + 100.5 if chipped else x, 1e-6, 1e-6), f"{what}: {n} model sees its own image's column")
    env.require(env.eq(k[2], (y - 0.5) * 2 + 200.5 if chipped else y, 1e-6, 1e-6), f"{what}: {n} model sees its own image's row")


def check(env, m, approx, precise, chipped, made):
    """approx / precise: expected marker names or None"""
    if approx is None and precise is None:
        env.require(m is None, "no model without metadata")
        return
    env.require(m is not None, "a model is built")
    if approx is not None and precise is not None:
        env.require(isinstance(m, CompositeSensorModel), "both models are offered as a composite")
        is_model(env, m.approximate_sensor_model, approx, chipped and approx == "cscrna", made, "approximate model")
        is_model(env, m.precision_sensor_model, precise, chipped and precise in ("rsm", "rpc"), made, "precision model")
    else:
        n = approx or precise
        env.require(not isinstance(m, CompositeSensorModel), "a single model is returned as it is")
        is_model(env, m, n, chipped and n in ("cscrna", "rsm", "rpc"), made, "model")


GT = [1.0, 0.1, 0.0, 2.0, 0.0, -0.1]


def approx(env, mode, chip):
    s, S = selection(env, mode, [T.AFFINE, T.PROJECTIVE])
    usable = {n: True for n in B}
    log = []
    made = install(env, usable, log)
    gt = GT if env.fork(env.bool("geotransform")) else None
    ng = env.choice("gcps", [None, 0, 3, 4, 5] if mode == "all" else [3, 4])
    gcps = None if ng is None else [SimpleNamespace(GCPX=0.1 * i, GCPY=0.2 * i, GCPZ=1.0, GCPPixel=float(i), GCPLine=2.0 * i) for i in range(ng)]
    has = env.fork(env.bool("tres"))
    cs = has and env.fork(env.bool("cscrna"))
    rpc = has and env.fork(env.bool("rpc"))
    usable["rsm"] = False
    usable["rpc"] = rpc
    usable["cscrna"] = not cs or env.fork(env.bool("corners"))
    usable["affine"] = gt is None or env.fork(env.bool("invertible"))
    xml = None
    if has:
        xml = doc(*([tre(env, "CSCRNA", {})] if cs else []), *([tre(env, "RPC00B", {})] if rpc else []), *([ichipb(env, chip, ("FI_ROW_22",) if mode == "some" else ("OP_COL_21", "FI_ROW_22", "FI_ROW", "FI_COL"))] if chip else []))
    iw, ih = env.int("iw", 1, 9000), env.int("ih", 1, 9000)
    m = env.no_raise(lambda: SensorModelFactory(iw, ih, xml_tres=xml, geo_transform=gt, proj_wkt="W", ground_control_points=gcps,
                                                selected_sensor_model_types=s).build(), "factory")
    a = None
    if T.AFFINE in S and gt is not None and usable["affine"]:
        a = "affine"
    if T.PROJECTIVE in S and ng is not None and ng > 3:
        a = "gcp"
    if T.PROJECTIVE in S and cs and usable["cscrna"]:
        a = "cscrna"
    check(env, m, a, "rpc" if rpc and T.RPC in S else None, chip == "good", made)
    for n, b in log:
        if n == "affine":
            env.require(b.geo_transform is gt and b.proj_wkt == "W", "the geotransform and its projection are used")
        if n == "gcp":
            env.require(b.ground_control_points is gcps, "the ground control points are used")
        if n == "cscrna" and a == "cscrna":
            wh = (4000, 3000) if chip == "good" else (iw, ih)
            env.require(env.And(env.eqb(b.full_image_width, wh[0]), env.eqb(b.full_image_height, wh[1])), "corner coordinates are those of the full image")


def segment(kind):
    body = {"sidd": "<SIDD><a/></SIDD>", "sicd": "<SICD><a/></SICD>", "other": "<Other><a/></Other>"}.get(kind)
    v = f'value="{base64.b64encode(body.encode()).decode()}"' if body else ""
    name = "XML_DATA_CONTENT" if kind != "foreign" else "TRE_OVERFLOW"
    if kind == "foreign":
        v = f'value="{base64.b64encode(b"<SICD/>").decode()}"'
    return f'<des name="{name}"><field name="DESDATA" {v}/></des>'


def precise(env, mode, chip, dess):
    s, S = selection(env, mode, [T.RSM, T.RPC, T.SICD] if "sidd" not in dess else [T.RSM, T.RPC])
    usable = {n: env.fork(env.bool(n)) for n in ("rsm", "rpc")}
    for n in ("sidd", "sicd"):
        usable[n] = env.fork(env.bool(n)) if n in dess else True
    usable.update(affine=True, gcp=True, cscrna=True)
    log = []
    made = install(env, usable, log)
    xml = doc(tre(env, "RSMIDA", {}), tre(env, "RPC00B", {}), *([ichipb(env, chip)] if chip else []))
    gt = GT if env.fork(env.bool("geotransform")) else None
    # GDAL hands over one list per ... ; segments are spread over two lists
    lists = None if dess is None else ["<?xml version='1.0'?><des_list>" + "".join(segment(k) for k in d) + "</des_list>" for d in (dess[:1], dess[1:])]
    iw, ih = env.int("iw", 1, 9000), env.int("ih", 1, 9000)
    m = env.no_raise(lambda: SensorModelFactory(iw, ih, xml_tres=xml, xml_dess=lists, geo_transform=gt, selected_sensor_model_types=s).build(), "factory")
    p = None
    if T.RPC in S and usable["rpc"]:
        p = "rpc"
    if T.RSM in S and usable["rsm"]:
        p = "rsm"
    for d in dess:
        if d == "sidd" or (d == "sicd" and T.SICD in S):
            if usable[d]:
                p = d
            break
    check(env, m, "affine" if gt and T.AFFINE in S else None, p, chip == "good", made)
    for n, b in log:
        if n in ("sidd", "sicd"):
            x = getattr(b, n + "_xml")
            env.require(f"<{n.upper()}>" in x, "the XML of that segment is used")


def cases(tier):
    o = dict(max_paths=3000)
    cs = []
    for mode in ("all", "some"):
        for chip in (None, "good", "bad"):
            cs.append(dict(name=f"approx-{mode}-{chip}", body=approx, params=dict(mode=mode, chip=chip), opts=o))
    D = [(), ("sicd",), ("sidd",), ("sidd", "sicd"), ("other", "sicd"), ("foreign",), ("empty", "sicd"), ("sicd", "other", "sicd")]
    for d in D:
        for chip in (None, "good") if tier == "quick" else (None, "good", "bad"):
            for mode in ("some",) if tier == "quick" else ("all", "some"):
                cs.append(dict(name=f"precise-{mode}-{chip}-{'-'.join(d)}", body=precise, params=dict(mode=mode, chip=chip, dess=d), opts=o))
    return cs
