"""C19 - tagged record extensions are mapped field by field onto the RPC / RSM / projective / chipped models."""
from xml.etree import ElementTree as ET

from aws.osml.gdal import sensor_model_factory as _f  # noqa
from aws.osml.gdal.gdal_sensor_model_builder import GDALAffineSensorModelBuilder
from aws.osml.gdal.projective_sensor_model_builder import ProjectiveSensorModelBuilder
from aws.osml.gdal.rpc_sensor_model_builder import RPCSensorModelBuilder
from aws.osml.gdal.rsm_sensor_model_builder import RSMSensorModelBuilder
from aws.osml.gdal.sensor_model_factory import SensorModelFactory
from aws.osml.photogrammetry import (ChippedImageSensorModel, GeodeticWorldCoordinate, ImageCoordinate, ProjectiveSensorModel, RPCSensorModel,
                                     RSMPolynomialSensorModel, RSMSectionedPolynomialSensorModel)

from .C05 import poly, terms
from .C09 import ROT
from .common import ecef

BOUNDS = ("RPC00B, RSMIDA, RSMPCA (1 and up to 6 sections), RSMPIA, CSCRNA and ICHIPB records whose numeric field texts are symbolic numbers, fields "
          "and coefficient groups in any of several orders, other records around them")
OUTSIDE = "digits of the number texts (float()/int() of the text is the number); RSM polynomials above first order; grid RSM"
PI = 3.141592653589793


def tre(env, name, fields, rep=(), flip=False):
    t = ET.Element("tre", name=name)
    it = list(fields.items())
    for k, v in (reversed(it) if flip else it):
        ET.SubElement(t, "field", name=k, value=v if isinstance(v, str) else env.text(v))
    for k, vs in rep:
        r = ET.SubElement(t, "repeated", name=k, number=str(len(vs)))
        o = list(enumerate(vs))
        for i, v in (reversed(o) if flip else o):
            g = ET.SubElement(r, "group", index=str(i))
            ET.SubElement(g, "field", name=k, value=env.text(v))
    return t


def doc(*ts):
    root = ET.Element("tres")
    root.append(ET.Element("tre", name="USE00A"))
    for t in ts:
        root.append(t)
    return root


# ------------------------------------------------------------------------------------------------------------------- RPC
OFFS = (("LINE_OFF", 0, 9000), ("SAMP_OFF", 0, 9000), ("LAT_OFF", -80, 80), ("LONG_OFF", -179, 179), ("HEIGHT_OFF", -100, 3000))
SCALES = (("LINE_SCALE", 100, 5000), ("SAMP_SCALE", 100, 5000), ("LAT_SCALE", 0.05, 1), ("LONG_SCALE", 0.05, 1), ("HEIGHT_SCALE", 100, 1000))
RPOLY = ("LINE_NUM_COEFF", "LINE_DEN_COEFF", "SAMP_NUM_COEFF", "SAMP_DEN_COEFF")


def rpc_fields(env, symbolic):
    F = {"SUCCESS": "1", "ERR_BIAS": env.real("eb", 0, 9), "ERR_RAND": env.real("er", 0, 9)}
    for n, lo, hi in OFFS:
        F[n] = env.real(n, lo, hi) if symbolic == "fields" else env.num(round(lo + 0.3 * (hi - lo), 2))
    for n, lo, hi in SCALES:
        F[n] = env.real(n, lo, hi) if symbolic == "fields" else env.num(round(lo + 0.7 * (hi - lo), 2))
    C = {}
    for k, n in enumerate(RPOLY):
        den = "DEN" in n
        if n == symbolic:
            r = 0.02 if den else 2
            C[n] = [env.real(f"k{i}", (1 if den and i == 0 else -r), (2 if den and i == 0 else r)) for i in range(20)]
        else:
            C[n] = [env.num(round(0.001 * (i + 1) * (-1) ** (i + k), 6) if den else round(0.1 + 0.013 * i + 0.007 * k, 6)) for i in range(20)]
            if den:
                C[n][0] = env.num(1.0)
    return F, C


def rpc(env, symbolic, flip):
    F, C = rpc_fields(env, symbolic)
    m = env.no_raise(lambda: RPCSensorModelBuilder(doc(tre(env, "RPC00B", F, list(C.items()), flip), ET.Element("tre", name="ZZZ"))).build(), "builder")
    env.require(isinstance(m, RPCSensorModel), "an RPC model is built")
    L, P, H = env.real("L", -1, 1), env.real("P", -1, 1), env.real("H", -1, 1)
    k = env.num(PI) / 180
    q = env.no_raise(lambda: m.world_to_image(GeodeticWorldCoordinate([(L * F["LONG_SCALE"] + F["LONG_OFF"]) * k, (P * F["LAT_SCALE"] + F["LAT_OFF"]) * k,
                                                                      H * F["HEIGHT_SCALE"] + F["HEIGHT_OFF"]])), "world_to_image")
    t = terms(L, P, H)
    v = {n: poly(C[n], t) for n in RPOLY}
    env.require(env.eq(q.x, v[RPOLY[2]] / v[RPOLY[3]] * F["SAMP_SCALE"] + F["SAMP_OFF"], 1e-4, 1e-6), "column follows the RPC00B fields")
    env.require(env.eq(q.y, v[RPOLY[0]] / v[RPOLY[1]] * F["LINE_SCALE"] + F["LINE_OFF"], 1e-4, 1e-6), "row follows the RPC00B fields")
    env.require(env.And(env.eqb(m.err_bias, F["ERR_BIAS"]), env.eqb(m.err_rand, F["ERR_RAND"])), "error estimates follow the fields")
    env.observe("q", [q.x, q.y])


def rpc_bad(env):
    F, C = rpc_fields(env, None)
    how = env.choice("how", ["failed", "absent", "field", "rep", "none"])
    if how == "failed":
        n = env.int("success", -5, 5)
        env.assume(env.Or(n < 1, n > 1))
        F["SUCCESS"] = n
    ts = tre(env, "RPC00B", F, list(C.items()))
    if how == "field":
        nm = env.choice("nm", [x[0] for x in OFFS + SCALES] + ["SUCCESS"])
        ts.remove(ts.find(f"./field[@name='{nm}']"))
    if how == "rep":
        nm = env.choice("rp", list(RPOLY))
        ts.remove(ts.find(f"./repeated[@name='{nm}']"))
    d = doc(ts) if how != "absent" else doc()
    m = env.no_raise(lambda: RPCSensorModelBuilder(d).build(), "builder")
    env.require((m is None) == (how != "none"), "no RPC model without a complete, successful RPC00B record")


# ------------------------------------------------------------------------------------------------------------------- RSM
def rsmid(env, form, grp, symbolic):
    F = {"GRNDD": form}
    lo, la = (env.real("vx", -2, 2), env.real("vy", -1, 1)) if symbolic else (env.num(0.25), env.num(-0.5))
    V = []
    for i in range(8):
        p = ([lo + (0.125 if i & 1 else 0), la + (0.0625 if i & 2 else 0), env.real(f"vz{i}", -100, 3000) if symbolic else env.num(100.0 * i)]
             if form != "R" else [env.num(1000.0 * (i & 1)), env.num(900.0 * (i >> 1 & 1)), env.num(100.0 * (i >> 2))])
        V.append(p)
        for a, v in zip("XYZ", p):
            F[f"V{i + 1}{a}"] = v
    g = None
    for a in "XYZ":
        F[f"GRP{a}"] = "                     "
    if grp:
        g = [lo, la, env.real("gz", -100, 3000)] if form != "R" else [env.num(10.0), env.num(20.0), env.num(30.0)]
        for a, v in zip("XYZ", g):
            if a != grp:
                F[f"GRP{a}"] = v
    o = None
    if form == "R":
        o = [env.real("ox", 4e6, 4.2e6), env.real("oy", 3e6, 3.2e6), env.real("oz", 3.8e6, 4e6)]
        for a, v in zip("XYZ", o):
            F[f"{a}UOR"] = v
        for r, row in zip("XYZ", ROT[1]):
            for a, v in zip("XYZ", row):
                F[f"{a}U{r}R"] = env.num(v)
    r0, c0 = env.int("MINR", -50, 200), env.int("MINC", -50, 200)
    F["MINR"], F["MAXR"], F["MINC"], F["MAXC"] = r0, r0 + 2000, c0, c0 + 3000
    return F, V, g, o, r0, c0


def rsmpc(env, tag, sym, rsn=1, csn=1, wide=False):
    F = {"RSN": str(rsn), "CSN": str(csn)}
    N = {}
    for k, (n, lo, hi, v) in enumerate((("RNRMO", 0, 5000, 700.5), ("CNRMO", 0, 5000, 811.25), ("XNRMO", -3, 3, 0.3), ("YNRMO", -1, 1, -0.4), ("ZNRMO", -100, 1000, 55.0),
                                        ("RNRMSF", 10, 5000, 640.0), ("CNRMSF", 10, 5000, 333.0), ("XNRMSF", 0.01, 1, 0.5), ("YNRMSF", 0.01, 1, 0.7), ("ZNRMSF", 10, 500, 99.0))):
        N[n] = env.real(tag + n, lo, hi) if sym == "fields" else env.num(v + rsn * 10 + csn if k < 2 else v)
    if wide:
        N.update({f"{a}NRMSF": env.num(v) for a, v in zip("XYZ", (2e6, 3e6, 4e6))})
    C, rep = {}, []
    for i, p in enumerate(("RN", "RD", "CN", "CD")):
        den = p[1] == "D"
        if sym == "coef":
            c = [env.real(f"{tag}{p}{j}", (1 if j == 0 else -0.01) if den else -2, (2 if j == 0 else 0.01) if den else 2) for j in range(4)]
        else:
            c = [env.num((1.0 if j == 0 else 0.001 * (j + i)) if den else round(0.2 * j - 0.3 * i + 0.1 + 0.01 * rsn + 0.03 * csn, 6)) for j in range(4)]
        # x, y and z each up to power 1 for the row polynomials, only x and y (2 x 2) for the column polynomials
        if p[0] == "R":
            full, pw = [c[0], c[1], c[2], 0.0, c[3], 0.0, 0.0, 0.0], (1, 1, 1)
        else:
            full, pw = [c[0], c[1], c[2], 0.0, c[3], 0.0], (1, 2, 0)
        C[p] = c
        for a, q in zip("XYZ", pw):
            F[f"{p}PWR{a}"] = str(q)
        rep.append((f"{p}PCF", [env.num(v) for v in full]))
    F.update(N)
    return F, rep, N, C


def rsmval(N, C, g):
    X, Y, Z = (g[0] - N["XNRMO"]) / N["XNRMSF"], (g[1] - N["YNRMO"]) / N["YNRMSF"], (g[2] - N["ZNRMO"]) / N["ZNRMSF"]
    r = lambda p: C[p][0] + C[p][1] * X + C[p][2] * Y + C[p][3] * Z  # noqa
    c = lambda p: C[p][0] + C[p][1] * X + C[p][2] * Y + C[p][3] * Y * Y  # noqa
    return c("CN") / c("CD") * N["CNRMSF"] + N["CNRMO"], r("RN") / r("RD") * N["RNRMSF"] + N["RNRMO"], r("RD"), c("CD")


def rsm(env, form, grp, sym, flip):
    fwd = ecef(env)
    F, V, g, o, r0, c0 = rsmid(env, form, grp, sym == "fields")
    P, rep, N, C = rsmpc(env, "", sym, wide=form == "R")
    d = doc(*(lambda a, b: (b, a) if flip else (a, b))(tre(env, "RSMIDA", F, (), flip), tre(env, "RSMPCA", P, rep, flip)))
    m = env.no_raise(lambda: RSMSensorModelBuilder(d).build(), "builder")
    env.require(isinstance(m, RSMPolynomialSensorModel), "an RSM polynomial model is built")
    lon, lat, h = (env.real("lon", 0.5, 0.8), env.real("lat", 0.6, 0.7), env.real("h", -100, 5000)) if form == "R" else (
        env.real("lon", -3.1, 3.1), env.real("lat", -1.5, 1.5), env.real("h", -100, 5000))
    G = [lon, lat, h]
    if form == "H":
        G = [lon + 2 * env.num(PI) if env.fork(lon < 0) else lon, lat, h]
    if form == "R":
        e = fwd(lon, lat, h)
        G = [sum(ROT[1][k][j] * (e[j] - o[j]) for j in range(3)) for k in range(3)]
    x, y, rd, cd = rsmval(N, C, G)
    env.assume(env.And(rd > 0.3, cd > 0.3))
    q = env.no_raise(lambda: m.world_to_image(GeodeticWorldCoordinate([lon, lat, h])), "world_to_image")
    env.require(env.eq(q.x, x, 1e-3, 1e-6), "column follows the RSMPCA fields in the RSMIDA ground domain")
    env.require(env.eq(q.y, y, 1e-3, 1e-6), "row follows the RSMPCA fields in the RSMIDA ground domain")
    im = m.context.image_domain
    env.require(env.And(env.eqb(im.min_row, r0), env.eqb(im.max_row, r0 + 2000), env.eqb(im.min_column, c0), env.eqb(im.max_column, c0 + 3000)), "image domain follows RSMIDA")
    gd = m.context.ground_domain
    if form != "R":
        env.require_all_eq(gd.geodetic_lonlat_bbox, [V[0][0], V[0][1], V[7][0], V[7][1]], "ground extent follows the vertices", 1e-9)
        c = GeodeticWorldCoordinate([0.1, 0.2, 7.0])
        gd.default_elevation_model.set_elevation(c)
        env.require(env.eq(c.elevation, g[2] if grp is True else sum(p[2] for p in V) / 8, 1e-3), "reference height follows the ground reference point or the vertices")


def sections(env, nr, nc, perm):
    F, V, g, o, r0, c0 = rsmid(env, "G", False, False)
    secs = {}
    ts = []
    for i in range(1, nr + 1):
        for j in range(1, nc + 1):
            P, rep, N, C = rsmpc(env, f"s{i}{j}", None, i, j)
            secs[(i, j)] = (N, C)
            ts.append(tre(env, "RSMPCA", P, rep))
    if perm == 1:
        ts.reverse()
    elif perm == 2:
        ts = ts[1::2] + ts[::2]
    rs, cs = env.real("RSSIZ", 10, 500), env.real("CSSIZ", 10, 500)
    PI_ = {"RNIS": str(nr), "CNIS": str(nc), "TNIS": str(nr * nc), "RSSIZ": rs, "CSSIZ": cs}
    lo = {}
    for p in "RC":
        for s in ("0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"):
            b = {"0": (-500, 1500), "X": (-300, 300), "Y": (-300, 300), "Z": (-0.05, 0.05)}.get(s, (-1, 1))
            PI_[p + s] = lo[p + s] = env.real(p + s, *b) if len(s) == 1 else env.num({"XX": 3.0, "XY": -2.0, "XZ": 0.001, "YY": 1.5, "YZ": -0.002, "ZZ": 0.00001}[s] * (1 if p == "R" else -2))
    d = doc(tre(env, "RSMIDA", F), tre(env, "RSMPIA", PI_), *ts)
    m = env.no_raise(lambda: RSMSensorModelBuilder(d).build(), "builder")
    env.require(isinstance(m, RSMSectionedPolynomialSensorModel), "a sectioned RSM model is built")
    lon, lat, h = env.num(0.26), env.num(-0.44), env.num(150.0)
    q = env.no_raise(lambda: m.world_to_image(GeodeticWorldCoordinate([lon, lat, h])), "world_to_image")
    t = [1, lon, lat, h, lon * lon, lon * lat, lon * h, lat * lat, lat * h, h * h]
    rc = [sum((lo[p + s] * v for s, v in zip(("0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"), t)), 0) for p in "RC"]
    hit = None
    for key, (N, C) in secs.items():
        x, y, *_ = rsmval(N, C, [lon, lat, h])
        if abs(float(q.x) - float(x)) < 1e-6 and abs(float(q.y) - float(y)) < 1e-6:
            hit = key
    env.require(hit is not None, "the answer is one section's")
    for pos, off, size, n, k in ((rc[0], r0, rs, nr, hit[0] - 1), (rc[1], c0, cs, nc, hit[1] - 1)):
        u = pos - off
        if k > 0:
            env.require(u >= k * size - 1e-6, "the section (RSN, CSN) is the one at the approximate pixel (not before)")
        if k < n - 1:
            env.require(u <= (k + 1) * size + 1e-6, "the section (RSN, CSN) is the one at the approximate pixel (not behind)")


def rsm_bad(env):
    how = env.choice("how", ["noid", "nopoly", "nopia", "field", "pfield", "rep", "section"])
    F, V, g, o, r0, c0 = rsmid(env, "G", False, False)
    P, rep, N, C = rsmpc(env, "", None)
    P2, rep2, *_ = rsmpc(env, "", None, 1, 2)
    ts = [] if how == "noid" else [tre(env, "RSMIDA", F)]
    if how == "field":
        nm = env.choice("nm", ["GRNDD", "V3Y", "V8Z", "MINR", "MAXC"])
        ts[0].remove(ts[0].find(f"./field[@name='{nm}']"))
    if how != "nopoly":
        p = tre(env, "RSMPCA", P, rep)
        if how == "pfield":
            nm = env.choice("pnm", ["RNRMO", "CNRMSF", "RDPWRY", "RSN"])
            p.remove(p.find(f"./field[@name='{nm}']"))
        if how == "rep":
            nm = env.choice("rp", ["RNPCF", "RDPCF", "CNPCF", "CDPCF"])
            p.remove(p.find(f"./repeated[@name='{nm}']"))
        ts.append(p)
    if how == "nopia":
        ts.append(tre(env, "RSMPCA", P2, rep2))
    if how == "section":  # two of four sections
        ts += [tre(env, "RSMPCA", P2, rep2), tre(env, "RSMPIA", {**{p + s: env.num(0.0) for p in "RC" for s in ("0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ")},
                                                              "RNIS": "2", "CNIS": "2", "TNIS": "4", "RSSIZ": env.num(100.0), "CSSIZ": env.num(100.0)})]
    m = env.no_raise(lambda: RSMSensorModelBuilder(doc(*ts)).build(), "builder")
    env.require(m is None, "no RSM model from incomplete records")


# --------------------------------------------------------------------------------------------------- corners and chipping
def cscrna(env, flip):
    F, want = {}, []
    W, H = env.int("w", 1, 30000), env.int("h", 1, 30000)
    k = env.num(PI) / 180
    for c, (x, y) in zip(("UL", "UR", "LR", "LL"), ((0, 0), (W, 0), (W, H), (0, H))):
        la, lo, ht = env.real(f"{c}la", -90, 90), env.real(f"{c}lo", -180, 180), env.real(f"{c}h", -100, 9000)
        F[f"{c}CNR_LAT"], F[f"{c}CNR_LONG"], F[f"{c}CNR_HT"] = la, lo, ht
        want.append((x, y, lo * k, la * k))
    got = []
    orig = ProjectiveSensorModel

    class Rec(orig):
        def __init__(self, world_coordinates, image_coordinates):
            got.append((world_coordinates, image_coordinates))

    env.patch.obj(orig, Rec)
    env.no_raise(lambda: ProjectiveSensorModelBuilder(doc(tre(env, "CSCRNA", F, (), flip)), W, H).build(), "builder")
    env.require(len(got) == 1 and len(got[0][0]) == 4 and len(got[0][1]) == 4, "four corner correspondences")
    _pairs(env, [(i.x, i.y, w.longitude, w.latitude) for w, i in zip(*got[0])], want, "corner")


def incomplete(env, which):
    """corner records with a missing or unreadable field give no model"""
    F = {f"{c}CNR_{n}": env.real(f"{c}{n}", -90, 90) for c in ("UL", "UR", "LR", "LL") for n in ("LAT", "LONG", "HT")}
    k = env.choice("field", list(F))
    if which == "missing":
        del F[k]
    else:
        F[k] = env.choice("text", ["", "-", "N/A"])
    m = env.no_raise(lambda: ProjectiveSensorModelBuilder(doc(tre(env, "CSCRNA", F)), env.int("w", 1, 30000), env.int("h", 1, 30000)).build(), "builder")
    env.require(m is None, "no model from incomplete corner coordinates")


def singular(env, how):
    """geotransforms without an inverse give no model"""
    a, b = env.int("a", -100, 100), env.int("b", -100, 100)
    t = [env.real("x0", -100, 100), a, b, env.real("y0", -100, 100), a * 2, b * 2] if how == "rows" else [env.real("x0", -100, 100), 0, 0, env.real("y0", -100, 100), 0, 0]
    if how == "none":
        t = None
    m = env.no_raise(lambda: GDALAffineSensorModelBuilder(t, None).build(), "builder")
    env.require(m is None, "no model from a geotransform without an inverse")


def _pairs(env, got, want, what):
    """same correspondences in any order"""
    for w in want:
        env.require(env.Or(*[env.And(*[env.And(a - b <= 1e-7, b - a <= 1e-7) for a, b in zip(g, w)]) for g in got]), f"every {what} is paired with its own position")


def ichipb(env, flip, which):
    F, want = {}, []
    for p in ("11", "12", "21", "22"):
        v = [env.real(n + p, 0.5, 20000) for n in ("OPC", "OPR", "FIC", "FIR")]
        F[f"OP_COL_{p}"], F[f"OP_ROW_{p}"], F[f"FI_COL_{p}"], F[f"FI_ROW_{p}"] = v
        want.append((v[0], v[1], v[2], v[3]))
    fc, fr = env.int("FI_COL", 1, 30000), env.int("FI_ROW", 1, 30000)
    F["FI_COL"], F["FI_ROW"] = fc, fr
    ts = [tre(env, "ICHIPB", F, (), flip)]
    k = env.num(PI) / 180
    if which == "rpc":
        R, C = rpc_fields(env, None)
        ts.append(tre(env, "RPC00B", R, list(C.items())))
    else:
        R = {}
        for j, c in enumerate(("UL", "UR", "LR", "LL")):
            R[f"{c}CNR_LAT"], R[f"{c}CNR_LONG"], R[f"{c}CNR_HT"] = env.num(10.0 + (j < 2)), env.num(20.0 + (j in (1, 2))), env.num(5.0)
        ts.append(tre(env, "CSCRNA", R))
    chips, projs = [], []

    class Rec(ChippedImageSensorModel):
        def __init__(self, original_image_coordinates, chipped_image_coordinates, full_image_sensor_model):
            chips.append((original_image_coordinates, chipped_image_coordinates, full_image_sensor_model))

    class Proj(ProjectiveSensorModel):
        def __init__(self, world_coordinates, image_coordinates):
            projs.append((world_coordinates, image_coordinates))

    env.patch.obj(ChippedImageSensorModel, Rec)
    env.patch.obj(ProjectiveSensorModel, Proj)
    m = env.no_raise(lambda: SensorModelFactory(700, 500, xml_tres=doc(*ts)).build(), "factory")
    env.require(isinstance(m, Rec) and len(chips) == 1, "the full image model is wrapped for the chip")
    full, chip, inner = chips[0]
    _pairs(env, [(c.x, c.y, f.x, f.y) for f, c in zip(full, chip)], want, "chip corner")
    if which == "rpc":
        env.require(isinstance(inner, RPCSensorModel), "the wrapped model is the full image's RPC model")
    else:
        env.require(isinstance(inner, Proj) and len(projs) == 1, "the wrapped model is the full image's projective model")
        _pairs(env, [(i.x, i.y, w.longitude, w.latitude) for w, i in zip(*projs[0])],
               [(0, 0, 20.0 * k, 11.0 * k), (fc, 0, 21.0 * k, 11.0 * k), (fc, fr, 21.0 * k, 10.0 * k), (0, fr, 20.0 * k, 10.0 * k)], "full image corner")


def cases(tier):
    q = tier == "quick"
    cs = [dict(name=f"rpc-{s}", body=rpc, params=dict(symbolic=s, flip=i % 2 == 1)) for i, s in enumerate(("fields",) + RPOLY)]
    cs.append(dict(name="rpc-bad", body=rpc_bad))
    for i, (f, g, s) in enumerate((("G", 0, "fields"), ("G", 1, "coef"), ("H", 1, "fields"), ("R", 0, "coef"), ("R", 1, None))):
        cs.append(dict(name=f"rsm-{f}{g}-{s}", body=rsm, params=dict(form=f, grp=bool(g), sym=s, flip=i % 2 == 1)))
    for a in "XYZ":
        cs.append(dict(name=f"rsm-G-no{a}", body=rsm, params=dict(form="G", grp=a, sym=None, flip=False)))
    for p in ((1, 2) if q else (0, 1, 2)):
        for nr, nc in (((2, 3),) if q else ((2, 3), (3, 2), (1, 2), (4, 1))):
            cs.append(dict(name=f"sections-{nr}x{nc}-{p}", body=sections, params=dict(nr=nr, nc=nc, perm=p)))
    cs.append(dict(name="rsm-bad", body=rsm_bad))
    for fl in (False, True):
        cs.append(dict(name=f"cscrna-{int(fl)}", body=cscrna, params=dict(flip=fl)))
        if not fl:
            cs += [dict(name=f"cscrna-{w}", body=incomplete, params=dict(which=w)) for w in ("missing", "unreadable")]
            cs += [dict(name=f"affine-{w}", body=singular, params=dict(how=w)) for w in ("zero", "rows", "none")]
        cs += [dict(name=f"ichipb-{w}-{int(fl)}", body=ichipb, params=dict(flip=fl, which=w)) for w in ("rpc", "cscrna")]
    return cs
