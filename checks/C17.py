"""C17 - SICD sensor model: pixel <-> ground around the R/Rdot projections (SICD Volume 3, Sections 2, 6.1)."""
import numpy as np

from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SARImageCoordConverter, SICDSensorModel, WorldCoordinate
from aws.osml.photogrammetry.elevation_model import ElevationModel, ElevationRegionSummary
from aws.osml.photogrammetry.sicd_sensor_model import DEMRRDotSurfaceProjection, GroundPlaneRRDotSurfaceProjection

from .common import ecef, warm_image
from .sarcommon import FRAMES, dot, sub

BOUNDS = ("every pixel, first pixel, scene centre pixel and sample spacing; scene points up to 3 km from the scene centre in (and off) the ground "
          "plane; the R/Rdot projection is replaced by straight lines tilted against the slant plane normal, so the iteration takes up to 6 steps")
OUTSIDE = "the R/Rdot projection itself (C15, C16); convergence for other imaging geometries; float rounding beyond 1e-6"

SCP = [1428702.688, 4898409.216, 3826882.2]
UP = [0.224, 0.768, 0.6]  # about the local vertical
EAST = [-0.96, 0.28, 0.0]
NORTH = [-0.168, -0.576, 0.8]


def lin(*t):
    r = [sum(k * v[j] for k, v in t) for j in range(3)]
    return [round(x, 9) if isinstance(x, float) else x for x in r]  # decimal constants stay short


# image plane row/column directions, slant plane normal and the actual projection direction
GEO = [dict(row=lin((0.8, EAST), (0.6, UP)), col=NORTH, spn=lin((-0.6, EAST), (0.8, UP)), tilt=lin((0.03, EAST), (-0.02, NORTH))),
       dict(row=lin((0.96, NORTH), (-0.28, UP)), col=lin((-1, EAST)), spn=lin((0.28, NORTH), (0.96, UP)), tilt=lin((0.15, EAST), (0.1, NORTH))),
       dict(row=lin((0.8, EAST), (0.6, UP)), col=lin((0.6, NORTH), (0.48, EAST), (-0.64, UP)), spn=lin((-0.6, EAST), (0.8, UP)), tilt=lin((-0.05, EAST)))]


class Straight:
    """contour = the image grid position itself"""

    def __init__(self, env):
        self.env, self.calls = env, []

    def precise_rrdot_computation(self, xy):
        self.calls.append([xy[0], xy[1]])
        e = self.env
        return xy[0], xy[1], e.num(0.5), e.arr([1e7, 2e7, 3e7]), e.arr([1.0, 2.0, 3.0])


def _model(env, g, side="L", gpn=UP):
    G = GEO[g]
    sp = [env.real("scp_r", 0, 5000), env.real("scp_c", 0, 5000)]
    ss = [env.real("row_ss", 0.2, 3), env.real("col_ss", 0.2, 3)]
    fp = [env.real("first_r", 0, 4000), env.real("first_c", 0, 4000)]
    cv = SARImageCoordConverter(ImageCoordinate([sp[1], sp[0]]), WorldCoordinate(env.arr(SCP)), env.arr(G["row"]), env.arr(G["col"]), ss[0], ss[1],
                                ImageCoordinate([fp[1], fp[0]]))
    ps = Straight(env)
    m = env.no_raise(lambda: SICDSensorModel(cv, ps, env.arr(G["spn"]), side, env.arr(gpn)), "constructor")
    return m, ps, sp, ss, fp


def _hit(G, xr, yc, ref, n):
    i = lin((1, SCP), (xr, G["row"]), (yc, G["col"]))
    d = lin((1, G["spn"]), (1, G["tilt"]))
    t = dot(sub(ref, i), n) / dot(d, n)
    return lin((1, i), (t, d))


def _geo(env, fwd, P):
    """geodetic coordinate of an ECEF position"""
    if env.symbolic:
        return fwd.stub.inv(list(P))
    from aws.osml.photogrammetry.coordinates import geocentric_to_geodetic
    r = geocentric_to_geodetic(WorldCoordinate([float(v) for v in P]))
    return [r.longitude, r.latitude, r.elevation]


def w2i(env, g, off, box, warm=False):
    fwd = ecef(env)
    G = GEO[g]
    m, ps, sp, ss, fp = _model(env, g)

    def fake(self, r, rd, arp, varp):
        env.require(env.And(env.eqb(arp[0], 1e7), env.eqb(varp[0], 1)), "platform state is passed on")
        return env.arr([_hit(G, r, rd, list(self.ref_ecf.coordinate), list(self.u_gpn))])

    env.patch.attr(GroundPlaneRRDotSurfaceProjection, "rrdot_to_ground", fake)
    k = env.real("dh", *off) if off else 0
    S = lin((1, SCP), (env.real("e", -box, box), EAST), (env.real("n", -box, box), NORTH), (k, UP))
    lon, lat, h = _geo(env, fwd, S)
    w = GeodeticWorldCoordinate([lon, lat, h])
    if warm:
        e0 = lin((1, SCP), (500.0, EAST), (-700.0, NORTH))
        env.no_raise(lambda: m.world_to_image(GeodeticWorldCoordinate(_geo(env, fwd, e0))), "an earlier world_to_image")
        warm_image(env, m)
        del ps.calls[:]
    c = env.no_raise(lambda: m.world_to_image(w), "world_to_image")
    xr, yc = (c.y + fp[0] - sp[0]) * ss[0], (c.x + fp[1] - sp[1]) * ss[1]
    P = _hit(G, xr, yc, S, UP)
    d = sub(P, S)
    env.require(dot(d, d) <= 0.0101 ** 2, "the pixel's contour meets the ground plane through the point within 1 cm of the point")
    env.require(env.And(env.eqb(w.longitude, lon), env.eqb(w.latitude, lat), env.eqb(w.elevation, h)), "argument is not modified")
    env.require(len(ps.calls) <= 10, "bounded number of iterations")
    env.observe("pixel", [c.x, c.y])


class El(ElevationModel):
    def set_elevation(self, c):
        c.elevation = 120.0

    def describe_region(self, c):
        return ElevationRegionSummary(100.0, 200.0, -9999, 30.0)


def i2w(env, g, kind, side, warm=False):
    fwd = ecef(env)
    G = GEO[g]
    m, ps, sp, ss, fp = _model(env, g, side)
    calls = []

    def flat(self, r, rd, arp, varp):
        calls.append(("plane", self, r, rd, arp, varp))
        return env.arr([_hit(G, r, rd, list(self.ref_ecf.coordinate), list(self.u_gpn))])

    def dem(self, r, rd, arp, varp):
        calls.append(("dem", self, r, rd, arp, varp))
        return env.arr([_hit(G, r, rd, lin((1, SCP), (-50.0, UP)), UP), _hit(G, r, rd, lin((1, SCP), (50.0, UP)), UP)])

    env.patch.attr(GroundPlaneRRDotSurfaceProjection, "rrdot_to_ground", flat)
    env.patch.attr(DEMRRDotSurfaceProjection, "rrdot_to_ground", dem)
    x, y = env.real("x", -1000, 9000), env.real("y", -1000, 9000)
    el = El() if kind == "dem" else None
    ic = ImageCoordinate([x, y])
    if warm:
        for e in (El(), None):
            warm_image(env, m, elevation_model=e)
    w = env.no_raise(lambda: m.image_to_world(ic, el) if el is not None else m.image_to_world(ic), "image_to_world")
    xr, yc = (y + fp[0] - sp[0]) * ss[0], (x + fp[1] - sp[1]) * ss[1]
    env.require(len(calls) >= 1 and calls[-1][0] == ("dem" if el is not None else "plane"), "the elevation model decides the surface")
    k, surf, r, rd, arp, varp = calls[-1]
    env.require_all_eq(ps.calls[-1], [xr, yc], "grid position is the pixel offset by the first pixel, relative to the scene centre")
    env.require(env.And(env.eqb(r, ps.calls[-1][0]), env.eqb(rd, ps.calls[-1][1])), "contour of that grid position")
    env.require(env.And(env.eqb(arp[1], 2e7), env.eqb(varp[2], 3)), "platform state is passed on")
    if el is not None:
        env.require(surf.elevation_model is el, "the elevation model is the surface")
        env.require(surf.look == (1 if side == "L" else -1), "side of track is respected")
        P = _hit(G, xr, yc, lin((1, SCP), (-50.0, UP)), UP)
    else:
        env.require_all_eq(surf.ref_ecf.coordinate, SCP, "default surface goes through the scene centre")
        env.require_all_eq(surf.u_gpn, UP, "default surface has the ground plane normal")
        P = _hit(G, xr, yc, SCP, UP)
    if env.symbolic:
        env.require_all_eq(fwd(w.longitude, w.latitude, w.elevation), P, "the (lowest) intersection is returned", 1e-3)
    else:
        env.require_all_eq(fwd(w.longitude, w.latitude, w.elevation), P, "the (lowest) intersection is returned", 1e-2)
    env.require(env.And(env.eqb(ic.x, x), env.eqb(ic.y, y)), "argument is not modified")


def spn(env, side):
    """slant plane and ground plane normals"""
    P = [env.real(f"p{k}", -9, 9) for k in range(3)]
    S = [env.real(f"s{k}", 1, 9) for k in range(3)]
    V = [env.real(f"v{k}", -9, 9) for k in range(3)]
    d = sub(S, P)
    c = [V[1] * d[2] - V[2] * d[1], V[2] * d[0] - V[0] * d[2], V[0] * d[1] - V[1] * d[0]]
    n2 = dot(c, c)
    env.assume(n2 > 0.01)
    n = env.sqrt(n2, nonneg=True)
    u = env.no_raise(lambda: SICDSensorModel.compute_u_spn(WorldCoordinate(env.arr(S)), env.arr(P), env.arr(V), side), "compute_u_spn")
    sg = -1 if side == "R" else 1
    env.require_all_eq([n * v for v in u], [sg * v for v in c], "slant plane normal is the unit vector along look x (velocity, line of sight)")
    # ground plane normal of a product plane
    r, q = V, d
    env.assume(env.Or(dot(c, S) > 1e-3, dot(c, S) < -1e-3))
    g = env.no_raise(lambda: SICDSensorModel.compute_u_gpn(WorldCoordinate(env.arr(S)), env.arr(r), env.arr(q)), "compute_u_gpn")
    sg = 1 if env.fork(dot(c, S) > 0) else -1
    env.require_all_eq([n * v for v in g], [sg * v for v in c], "ground plane normal points away from the earth centre")


def cases(tier):
    o = dict(query_timeout=60)
    cs = []
    gs = (0, 1, 2) if tier == "thorough" else (0, 1)
    for g in gs:
        cs.append(dict(name=f"w2i-{g}", body=w2i, params=dict(g=g, off=None, box=3000), opts=o))
        for k in ("plane", "dem"):
            for s in "LR":
                cs.append(dict(name=f"i2w-{g}-{k}-{s}", body=i2w, params=dict(g=g, kind=k, side=s), opts=o))
    for k in ("plane", "dem"):
        cs.append(dict(name=f"i2w-0-{k}-again", body=i2w, params=dict(g=0, kind=k, side="L", warm=True), opts=o))
    cs.append(dict(name="w2i-again", body=w2i, params=dict(g=0, off=None, box=3000, warm=True), opts=o))
    cs.append(dict(name="w2i-off-plane", body=w2i, params=dict(g=0, off=(20, 500), box=1000), opts=dict(max_paths=12, **o)))
    cs += [dict(name=f"normals-{s}", body=spn, params=dict(side=s), opts=o) for s in "LR"]
    return cs
