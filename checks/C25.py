"""C25 - chipping SICD / SIDD imagery records the chip's place in the full image, whatever was chipped before."""
from xsdata.formats.dataclass.parsers import XmlParser
from xsdata.formats.dataclass.serializers import XmlSerializer
from xsdata.formats.dataclass.serializers.config import SerializerConfig

import aws.osml.formats.sicd.models.sicd_v1_2_1  # noqa
import aws.osml.formats.sicd.models.sicd_v1_3_0 as s130
import aws.osml.formats.sidd.models.sidd_v1_0_0 as d1
import aws.osml.formats.sidd.models.sidd_v2_0_0 as d2
import aws.osml.formats.sidd.models.sidd_v3_0_0 as d3
from aws.osml.image_processing.sicd_updater import SICDUpdater
from aws.osml.image_processing.sidd_updater import SIDDUpdater

from .C18 import doc

BOUNDS = ("any chip bounds, first row/column, original chip geometry (four arbitrary corners) and output size; histories of 1..3 chips from the same updater, "
          "image originally full or already a chip; SICD 1.2.1, SIDD 1.0, 2.0, 3.0 documents")
OUTSIDE = "XML text (xsdata; used unpatched in replays of SICD and SIDD 2.0); chips of one row or column as source; fields other than chip geometry"


def through_xml(env, d):
    """the updater's document: parsed from text on the real code, handed over directly in symbolic runs"""
    if env.symbolic:
        return handed(env, d)
    return XmlSerializer(config=SerializerConfig(pretty_print=False)).render(d)


def handed(env, d):
    env.patch.attr(XmlParser, "from_string", lambda self, *a, **k: d)
    return "<xml/>"


def encoded(env, u):
    if not env.symbolic:
        return XmlParser().from_string(env.no_raise(lambda: u.encode_current_xml(), "encode_current_xml"))
    out = []
    env.patch.attr(XmlSerializer, "render", lambda self, obj, *a, **k: out.append(obj) or "<xml/>")
    env.no_raise(lambda: u.encode_current_xml(), "encode_current_xml")
    return out[-1]


def bounds(env, k, wmin=1):
    return [env.int(f"x{k}", 0, 9000), env.int(f"y{k}", 0, 9000), env.int(f"w{k}", wmin, 5000), env.int(f"h{k}", wmin, 5000)]


def sicd(env, n, base, outs):
    d = doc(base)
    fr, fc = env.int("fr", 0, 9000), env.int("fc", 0, 9000)
    d.image_data.first_row, d.image_data.first_col = fr, fc
    full, scp = (d.image_data.full_image.num_rows, d.image_data.full_image.num_cols), (d.image_data.scppixel.row, d.image_data.scppixel.col)
    u = env.no_raise(lambda: SICDUpdater(through_xml(env, d)), "constructor")
    for k in range(n):
        b = bounds(env, k)
        o = (b[2], b[3]) if outs else None
        given = list(b)
        env.no_raise(lambda: u.update_image_data_for_chip(given, o), "update_image_data_for_chip")
        e = encoded(env, u).image_data
        env.require(env.And(env.eqb(e.first_row, fr + b[1]), env.eqb(e.first_col, fc + b[0])), "first row/column of the chip in the full image")
        env.require(env.And(env.eqb(e.num_rows, b[3]), env.eqb(e.num_cols, b[2])), "chip size")
        env.require((e.full_image.num_rows, e.full_image.num_cols) == full and (e.scppixel.row, e.scppixel.col) == scp, "full image size and scene centre stay")
        env.require(env.And(*[env.eqb(x, y) for x, y in zip(given, b)]), "the caller's bounds are not changed")


def sicd_scaled(env):
    d = doc("example.sicd121.rma.xml")
    u = env.no_raise(lambda: SICDUpdater(through_xml(env, d)), "constructor")
    b = bounds(env, 0)
    ow, oh = env.int("ow", 1, 5000), env.int("oh", 1, 5000)
    env.assume(env.Or(env.Not(env.eqb(ow, b[2])), env.Not(env.eqb(oh, b[3]))))
    r, e = env.call(lambda: u.update_image_data_for_chip(list(b), (ow, oh)))
    env.require(isinstance(e, ValueError), "scaled SICD chips are refused")


CORNERS = ("upper_left", "upper_right", "lower_right", "lower_left")


def chip(ns, size, corners):
    rc = lambda c: ns.RowColDoubleType(row=c[1], col=c[0])  # noqa
    return ns.GeometricChipType(chip_size=ns.RowColIntType(row=size[1], col=size[0]), **{f"original_{n}_coordinate": rc(c) for n, c in zip(CORNERS, corners)})


def sidd(env, n, ver, already, outs):
    ns = {1: d1, 2: d2, 3: d3}[ver]
    d = doc("example.sidd.xml") if ver == 2 else ns.SIDD()
    d.downstream_reprocessing = None
    if already == "empty":
        d.downstream_reprocessing = ns.DownstreamReprocessingType()
    elif already:
        ow, oh = env.int("ow", 2, 5000), env.int("oh", 2, 5000)
        if already == "skew":
            Q = [(env.real(f"qx{i}", -100, 9000), env.real(f"qy{i}", -100, 9000)) for i in range(4)]
        else:
            x, y = env.int("ox", 0, 9000), env.int("oy", 0, 9000)
            Q = [(x, y), (x + ow - 1, y), (x + ow - 1, y + oh - 1), (x, y + oh - 1)]
        d.downstream_reprocessing = ns.DownstreamReprocessingType(geometric_chip=chip(ns, (ow, oh), Q))
    u = env.no_raise(lambda: SIDDUpdater(through_xml(env, d) if ver == 2 else handed(env, d)), "constructor")
    for k in range(n):
        b = bounds(env, k)
        o = (env.int(f"sw{k}", 1, 5000), env.int(f"sh{k}", 1, 5000)) if outs else None
        given = list(b)
        env.no_raise(lambda: u.update_image_data_for_chip(given, o), "update_image_data_for_chip")
        g = (encoded(env, u) if ver == 2 else u.sidd).downstream_reprocessing.geometric_chip
        env.require(type(g) is ns.GeometricChipType and type(g.chip_size) is ns.RowColIntType and type(g.original_upper_left_coordinate) is ns.RowColDoubleType,
                    "chip geometry in the document's own SIDD version")
        want = o or (b[2], b[3])
        env.require(env.And(env.eqb(g.chip_size.col, want[0]), env.eqb(g.chip_size.row, want[1])), "chip size is the output size")
        for i, (nm, dx, dy) in enumerate(zip(CORNERS, (0, 1, 1, 0), (0, 0, 1, 1))):
            x, y = b[0] + dx * (b[2] - 1), b[1] + dy * (b[3] - 1)
            if already and already != "empty":
                s, t = x / (ow - env.num(1)), y / (oh - env.num(1))
                x, y = [(1 - t) * ((1 - s) * Q[0][a] + s * Q[1][a]) + t * ((1 - s) * Q[3][a] + s * Q[2][a]) for a in (0, 1)]
            c = getattr(g, f"original_{nm}_coordinate")
            env.require(env.And(c.col - x <= 1e-3, x - c.col <= 1e-3), f"corner column in the original full image ({nm})")
            env.require(env.And(c.row - y <= 1e-3, y - c.row <= 1e-3), f"corner row in the original full image ({nm})")
        env.require(env.And(*[env.eqb(p, q) for p, q in zip(given, b)]), "the caller's bounds are not changed")


def cases(tier):
    q = tier == "quick"
    N = (1, 2, 3) if q else (1, 2, 3, 4)
    cs = [dict(name=f"sicd-{n}-{i}", body=sicd, params=dict(n=n, base=b, outs=bool((n + i) % 2)))
          for n in N for i, b in enumerate(("example.sicd121.rma.xml", "example.sicd121.pfa.xml", "example.sicd121.capella.xml"))]
    cs.append(dict(name="sicd-scaled", body=sicd_scaled))
    for n in N:
        for a in (None, "empty", "chip", "skew"):
            for v in ((2,) if n > 1 and q else (1, 2, 3)):
                for o in (0, 1):
                    cs.append(dict(name=f"sidd{v}-{n}-{a}-{o}", body=sidd, params=dict(n=n, ver=v, already=a, outs=bool(o))))
    return cs
