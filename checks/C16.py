"""C16 - R/Rdot contour intersected with a plane, a constant height surface and a DEM (SICD Volume 3, Sections 5, 9, 10)."""
import math

import numpy as np

from aws.osml.photogrammetry import GeodeticWorldCoordinate, WorldCoordinate
from aws.osml.photogrammetry.elevation_model import ElevationModel, ElevationRegionSummary
from aws.osml.photogrammetry.sicd_sensor_model import (DEMRRDotSurfaceProjection, GroundPlaneRRDotSurfaceProjection,
                                                       HAERRDotSurfaceProjection)

from .common import ecef
from .sarcommon import COS, FRAMES, SIN, cross, dot, sub, vec

BOUNDS = ("plane: rational orthonormal frames (normal, track direction), symbolic reference point, platform position, velocity, range and "
          "range rate, scaled plane normals; constant height: ground plane intersections are arbitrary points (up to 5 iterations), PROJ "
          "uninterpreted but invertible; DEM: fixed platform geometries, every combination of DEM heights along the contour (up to 6 samples)")
OUTSIDE = "reference point exactly on the ground track; platform below the plane; convergence of the height iteration; float rounding beyond 1e-5"
NT = GroundPlaneRRDotSurfaceProjection.GroundPlaneNormalType


def plane(env, frame, side, scaled, warm=False):
    F = [[env.num(x) for x in r] for r in FRAMES[frame]]
    ux, uy, uz = F[0], F[1], F[2]
    if frame_det(FRAMES[frame]) < 0:
        uy = [-v for v in uy]
    ref = vec(env, "ref", -50, 50)
    # platform in the plane's own frame, relative to the reference point
    a, b, h = env.real("a", -300, 300), env.real("b", 1, 500), env.real("h", 10, 500)
    b = b * side  # cross track offset of the platform: reference point lies on the other side
    arp = [ref[k] + a * ux[k] + b * uy[k] + h * uz[k] for k in range(3)]
    vx, vz = env.real("vx", 1, 50), env.real("vz", -20, 20)
    vel = [vx * ux[k] + vz * uz[k] for k in range(3)]
    R = env.real("R", 1, 2000)
    rd = env.real("rd", -60, 60)
    env.assume(R - h > 0.01) if env.symbolic else None
    sc = env.real("sc", 0.1, 10) if scaled else 1
    g = env.no_raise(lambda: GroundPlaneRRDotSurfaceProjection(WorldCoordinate(ref), env.arr([sc * v for v in uz])), "constructor")
    G = env.sqrt(R * R - h * h, nonneg=True)
    num = vz * h - rd * R  # vx * (along track ground offset)
    if warm:  # another contour before
        arp0 = [ref[k] + 20.0 * ux[k] - 80.0 * side * uy[k] + 60.0 * uz[k] for k in range(3)]
        env.call(lambda: g.rrdot_to_ground(env.num(110.0), env.num(3.0), env.arr(arp0), env.arr([5.0 * v for v in ux])))
    P, e = env.call(lambda: g.rrdot_to_ground(R, rd, env.arr(arp), env.arr(vel)))
    # there is a solution iff |num| <= vx*G
    edge = env.sqrt(num * num) - vx * G if not env.symbolic else None
    if e is not None:
        env.require(isinstance(e, ValueError), "no intersection is reported as a ValueError")
        if env.symbolic:
            env.require(num * num >= vx * vx * (R * R - h * h), "a ValueError means that there is no intersection")
        else:
            env.require(edge >= -1e-6 * vx * G, "a ValueError means that there is no intersection")
        return
    P = P[0]
    d = sub(P, ref)
    los = sub(arp, P)
    env.require(env.eq(dot(d, uz), 0, 1e-4), "the point lies in the ground plane")
    env.require(env.eq(dot(los, los), R * R, 1e-3, 1e-6), "the point is at the contour's range")
    env.require(env.eq(dot(vel, los), rd * R, 1e-3, 1e-6), "the point has the contour's range rate")
    off = dot(sub(P, arp), uy)
    env.require(env.Or(env.eqb(off, 0), (off < 0) if side > 0 else (off > 0)) if env.symbolic else (off * side <= 1e-6),
                "the point lies on the reference point's side of the ground track")
    env.observe("P", [P[0], P[1], P[2]])


def frame_det(F):
    return dot(F[0], cross(F[1], F[2]))


def nosol(env):
    uz = FRAMES[1][2]
    ref = vec(env, "ref", -50, 50)
    R, more = env.real("R", 1, 100), env.real("more", 0.01, 100)
    h = R + more
    arp = [ref[k] + h * uz[k] + 3 * FRAMES[1][1][k] for k in range(3)]
    g = env.no_raise(lambda: GroundPlaneRRDotSurfaceProjection(WorldCoordinate(ref), env.arr(uz)), "constructor")
    rd = env.real("rd", -60, 60)
    _, e = env.call(lambda: g.rrdot_to_ground(R, rd, env.arr(arp), env.arr([20 * v for v in FRAMES[1][0]])))
    env.require(isinstance(e, ValueError), "platform farther from the plane than the range: ValueError")


def normals(env, kind):
    fwd = ecef(env)
    lon, lat, h = env.real("lon", -3, 3), env.real("lat", -1.4, 1.4), env.real("h", -100, 3000)
    p = fwd(lon, lat, h)
    up = _up(env, lon, lat)
    if kind == "geodetic":
        g = env.no_raise(lambda: GroundPlaneRRDotSurfaceProjection(WorldCoordinate(p), None), "constructor")
        env.require_all_eq(g.u_gpn, up, "default plane normal is the geodetic normal at the reference point")
    else:
        q = vec(env, "q", 10, 100)
        g = env.no_raise(lambda: GroundPlaneRRDotSurfaceProjection(WorldCoordinate(q), None, NT.SPHERICAL_EARTH), "constructor")
        n = env.sqrt(dot(q, q), nonneg=True)
        env.require_all_eq([n * v for v in g.u_gpn], q, "spherical plane normal points away from the earth centre")
        n3 = vec(env, "n", 0.1, 5)
        g = env.no_raise(lambda: GroundPlaneRRDotSurfaceProjection(WorldCoordinate(q), env.arr(n3), NT.SPHERICAL_EARTH), "constructor")
        m = env.sqrt(dot(n3, n3), nonneg=True)
        env.require_all_eq([m * v for v in g.u_gpn], n3, "a given plane normal is used (normalised)")


def _up(env, lon, lat):
    return [COS(env, lat) * COS(env, lon), COS(env, lat) * SIN(env, lon), SIN(env, lat)]


def hae(env, side, nlim):
    """rrdot_to_ground of the ground plane returns arbitrary points; everything around it is the real code"""
    fwd = ecef(env)
    s = dict(lon=env.real("slon", 0.2, 0.3), lat=env.real("slat", 0.4, 0.5), h=env.real("sh", 0, 500))
    scp = fwd(s["lon"], s["lat"], s["h"])
    H = env.real("hae", -100, 1000)
    thr = 1.0 if nlim is None else env.real("thr", 0.5, 5)
    pts = [dict(lon=env.real(f"lon{k}", 0.2, 0.3), lat=env.real(f"lat{k}", 0.4, 0.5), h=env.real(f"h{k}", -50, 2000)) for k in range((nlim or 3) + 1)]
    calls = []

    def fake(self, r, rd, arp, varp):
        calls.append((list(self.ref_ecf.coordinate), list(self.u_gpn), r, rd, arp, varp))
        k = min(len(calls), len(pts)) - 1
        return env.arr([fwd(pts[k]["lon"], pts[k]["lat"], pts[k]["h"])])

    env.patch.attr(GroundPlaneRRDotSurfaceProjection, "rrdot_to_ground", fake)
    kw = {} if nlim is None else dict(height_threshold=thr, max_number_iterations=nlim)
    g = env.no_raise(lambda: HAERRDotSurfaceProjection(WorldCoordinate(scp), side, H, **kw), "constructor")
    R, rd = env.real("R", 1e5, 1e6), env.real("rd", -100, 100)
    arp = [env.num(v) for v in (6.5e6, 2.0e6, 3.6e6)]
    vel = [env.real("v0", 1, 50), env.real("v1", 1, 50), env.real("v2", 1, 50)]
    out = env.no_raise(lambda: g.rrdot_to_ground(R, rd, env.arr(arp), env.arr(vel)), "projection")
    n = len(calls)
    lim = nlim or 3
    env.require(1 <= n <= lim, "at most the configured number of ground planes")
    ref, nrm = scp, _up(env, s["lon"], s["lat"])
    want = [ref[k] + (H - s["h"]) * nrm[k] for k in range(3)]
    for k in range(n):
        rf, un, r_, rd_, a_, v_ = calls[k]
        env.require_all_eq(rf, want, "ground plane reference point is at the requested height", 1e-3)
        env.require_all_eq(un, nrm, "ground plane normal is the geodetic normal", 1e-7)
        env.require(env.And(env.eqb(r_, R), env.eqb(rd_, rd)), "contour is passed on unchanged")
        p = pts[k]
        pe = fwd(p["lon"], p["lat"], p["h"])
        d = p["h"] - H
        nrm = _up(env, p["lon"], p["lat"])
        want = [pe[j] - d * nrm[j] for j in range(3)]
        if k < n - 1:
            env.require(d > thr - 1e-6, "another plane is only tried while the point is above the height threshold")
        elif n < lim:
            env.require(d <= thr + 1e-6, "iteration stops only within the height threshold")
    # slant plane correction: move perpendicular to the slant plane until the height has changed by d
    P = out[0]
    los = sub(pe, arp)
    if env.symbolic:
        q, geo = fwd.log[-1]
        env.require(env.eq(dot(sub(q, pe), vel), 0), "the slant plane correction is perpendicular to the velocity")
        env.require(env.eq(dot(sub(q, pe), los), 0), "the slant plane correction is perpendicular to the line of sight")
        env.require(env.eq(dot(nrm, sub(pe, q)), d), "the slant plane correction removes the height difference")
        env.require_all_eq(P, fwd(geo[0], geo[1], H), "the corrected position is put at exactly the requested height")
    else:
        spn = cross(vel, los)
        q = [pe[j] - d / dot(nrm, spn) * spn[j] for j in range(3)]
        geo = _inv(q)
        env.require_all_eq(P, fwd(geo[0], geo[1], H), "the point is where the slant plane normal meets the surface, at exactly the requested height", 1e-2)


def _inv(q):
    from aws.osml.photogrammetry.coordinates import geocentric_to_geodetic
    r = geocentric_to_geodetic(WorldCoordinate(q))
    return [r.longitude, r.latitude, r.elevation]


class Surface(ElevationModel):
    """surface over the sampled contour: height(k, contour height) for the k-th distinct position asked for"""

    def __init__(self, env, height, summary, arp=None, R=None):
        super().__init__()
        self.env, self.height, self.summary, self.arp, self.R = env, height, summary, arp, R
        self.seen = []
        self.hs = []

    def set_elevation(self, c):
        key = (float(c.longitude), float(c.latitude))
        for k, (p, h) in enumerate(self.seen):
            if abs(p[0] - key[0]) < 1e-12 and abs(p[1] - key[1]) < 1e-12:
                c.elevation = self.hs[k]
                return
        lo, hi = -5000.0, 9000.0  # height of the contour over this position
        for _ in range(60):
            mid = (lo + hi) / 2
            if np.linalg.norm(_fwd(key[0], key[1], mid) - self.arp) > self.R:
                lo = mid
            else:
                hi = mid
        if abs(float(c.elevation) - lo) < 1e-3:
            lo = float(c.elevation)  # same number, without the last digits of noise
        self.seen.append((key, lo))
        self.hs.append(self.height(len(self.hs), self.env.num(lo)))
        c.elevation = self.hs[-1]

    def describe_region(self, c):
        return self.summary


GEOM = [  # scene lon, lat (rad), ground range m, altitude m, velocity (east, north, up), side
    (0.3, 0.5, 20000.0, 15000.0, (20.0, 200.0, 1.0), 1),
    (-1.2, -0.4, 20000.0, 15000.0, (-150.0, 30.0, -2.0), -1),
    (2.0, 0.9, 30000.0, 12000.0, (60.0, -180.0, 0.0), 1)]


def _scene(i):
    from aws.osml.photogrammetry.coordinates import geodetic_to_geocentric
    lon, lat, rng, alt, v, left = GEOM[i]
    e = np.array([-math.sin(lon), math.cos(lon), 0.0])
    n = np.array([-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat)])
    u = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    scp = np.array([float(x) for x in geodetic_to_geocentric(GeodeticWorldCoordinate([lon, lat, 200.0])).coordinate])
    vel = v[0] * e + v[1] * n + v[2] * u
    vh = v[0] * e + v[1] * n
    vh /= np.linalg.norm(vh)
    leftdir = np.cross(u, vh)
    arp = scp - left * rng * leftdir + alt * u + 500.0 * vh
    return scp, arp, vel, ("L" if left > 0 else "R")


def _dem(env, geom, step, post, height):
    scp, arp, vel, side = _scene(geom)
    hmin, hmax = 150.0, 320.0
    los = arp - scp
    R = float(np.linalg.norm(los))
    rd = float(np.dot(vel, los) / R)
    el = Surface(env, height, ElevationRegionSummary(hmin, hmax, -32768, post), arp, R)
    kw = {} if step is None else dict(max_adjacent_point_distance=step)
    pr = env.no_raise(lambda: DEMRRDotSurfaceProjection(WorldCoordinate(scp), side, el, **kw), "constructor")
    out = env.no_raise(lambda: pr.rrdot_to_ground(R, rd, env.arr(arp), env.arr(vel)), "projection")
    n = len(el.seen)
    P = [_fwd(p[0], p[1], h) for p, h in el.seen]
    hs = [h for _, h in el.seen]
    env.require(n >= 2, "the contour is sampled")
    for p in P:
        env.require(abs(np.linalg.norm(p - arp) - R) < 1e-3 and abs(np.dot(vel, arp - p) / R - rd) < 1e-3, "samples lie on the contour")
    env.require(abs(hs[0] - hmin) < 1.0, "sampling starts at the lowest DEM height")
    env.require(hs[-1] > hmax - 1.0, "sampling ends above the highest DEM height")
    for k in range(n - 1):
        env.require(hs[k + 1] > hs[k], "samples are in order of increasing height")
        env.require(np.linalg.norm(P[k + 1] - P[k]) <= 1.3 * (step or 10.0), "samples are no farther apart than the requested distance")
        hd = P[k + 1] - P[k]
        uu = P[k] / np.linalg.norm(P[k])
        env.require(np.linalg.norm(hd - np.dot(hd, uu) * uu) <= 1.3 * 0.5 * post, "samples are no farther apart horizontally than half a DEM post")
    return out, el, P, hs, arp, vel, R, rd


LIM = 0.001


def dem(env, geom, step, post):
    """arbitrary DEM height under every sample"""
    def height(k, h):
        x = env.real(f"dem{k}", 140, 330)
        for b in (LIM, -LIM):
            env.assume(env.Or(h - x > b + 1e-6, h - x < b - 1e-6))
        return x

    out, el, P, hs, arp, vel, R, rd = _dem(env, geom, step, post, height)
    exp = []
    prev = None
    for k in range(len(P)):
        d = hs[k] - el.hs[k]
        sg = 0 if env.fork(env.And(d < LIM, d > -LIM)) else (1 if env.fork(d > 0) else -1)
        if sg == 0:
            exp.append(k)
        elif prev is not None and prev * sg == -1:
            exp.append(None)
        prev = sg
    env.require(len(out) == len(exp), "one point per intersection of the contour with the surface, in order along the contour")
    for o, k in zip(out, exp):
        if k is not None:
            env.require_all_eq(o, list(P[k]), "a sample on the surface is returned", 1e-2)


def demcross(env, geom, step, post, at, up):
    """one crossing at a symbolic fraction f of the way from sample at-1 to sample at"""
    f = env.real("f", 0.02, 0.98)
    s = 1 if up else -1

    def height(k, h):
        if k < at - 1:
            return h + s * 30.0
        if k == at - 1:
            return h + s * 20.0
        if k == at:
            return h - s * (20.0 / f - 20.0)
        return h - s * 40.0

    out, el, P, hs, arp, vel, R, rd = _dem(env, geom, step, post, height)
    env.assume(len(P) > at)
    env.require(len(out) == 1, "exactly one intersection")
    o = out[0]
    a, b = P[at - 1], P[at]
    uv = vel / np.linalg.norm(vel)
    rry = np.cross(arp / np.linalg.norm(arp), uv)
    ux = np.cross(rry / np.linalg.norm(rry), uv)  # points are equally spaced in the cosine of the contour angle, measured from this axis
    al = dot([o[j] - float(a[j]) for j in range(3)], [float(v) for v in ux]) / float(np.dot(b - a, ux))
    env.require(env.eq(al, f, 5e-3), "a crossing is interpolated by height difference")
    w = [o[j] - float(arp[j]) for j in range(3)]
    env.require(env.eq(dot(w, w), R * R, 1.0, 1e-6), "a crossing lies on the contour (range)")
    env.require(env.eq(dot([float(v) for v in vel], w), -rd * R, 1.0, 1e-5), "a crossing lies on the contour (range rate)")
    env.observe("o", [o[0], o[1], o[2]])


def _fwd(lon, lat, h):
    a, e2 = 6378137.0, 6.69437999014132e-3
    n = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    return np.array([(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - e2) + h) * math.sin(lat)])


def cases(tier):
    o = dict(query_timeout=60)
    q = tier == "quick"
    cs = []
    for f in ((2,) if q else (2, 1, 3)):
        for s in (1, -1):
            cs.append(dict(name=f"plane-{f}-{'left' if s > 0 else 'right'}", body=plane, params=dict(frame=f, side=s, scaled=False), opts=o))
    cs.append(dict(name="plane-scaled", body=plane, params=dict(frame=2, side=1, scaled=True), opts=o))
    cs.append(dict(name="plane-again", body=plane, params=dict(frame=2, side=1, scaled=False, warm=True), opts=o))
    cs.append(dict(name="no-solution", body=nosol, opts=o))
    cs += [dict(name=f"normal-{k}", body=normals, params=dict(kind=k), opts=o) for k in ("geodetic", "other")]
    cs += [dict(name=f"hae-{s}", body=hae, params=dict(side=s, nlim=None), opts=o) for s in "LR"]
    cs += [dict(name=f"hae-limit{n}", body=hae, params=dict(side="L", nlim=n), opts=o) for n in ((1, 2) if q else (1, 2, 4, 5))]
    for g in range(len(GEOM)):
        for st, po in ((80.0, 1e5), (1e4, 130.0)):
            nm = f"{g}-{'rrc' if st < 1e3 else 'dem'}"
            cs.append(dict(name=f"dem-{nm}", body=dem, params=dict(geom=g, step=st, post=po), opts=dict(max_paths=4000, **o)))
            for at, up in ((1, True), (2, False)):
                cs.append(dict(name=f"cross-{nm}-{at}-{int(up)}", body=demcross, params=dict(geom=g, step=st, post=po, at=at, up=up), opts=o))
    return cs
