"""C10 - projective transforms / projective sensor models fit their tie points and are their own inverse."""
import numpy as np

from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, ProjectiveSensorModel
from aws.osml.photogrammetry.transforms import ProjectiveTransform

from .common import PlaneElevation, warm_image, warm_world

BOUNDS = ("all real transform parameters and points (round trip); four tie points: one corner of the quadrilateral symbolic in "
          "both spaces plus symbolic placement, scale and rotation/shear of the rest, images from 0.5 to 340 degrees wide; pixel coordinates to 1e4")
OUTSIDE = "least-squares accuracy of over-determined noisy tie points; singular configurations; float rounding of lstsq"


def transform_roundtrip(env, n):
    p = [env.real(f"p{i}", -3, 3) for i in range(8)]
    t = ProjectiveTransform(p)
    pts = [[env.real(f"x{i}", -2, 2), env.real(f"y{i}", -2, 2)] for i in range(n)]
    a0, a1, a2, b0, b1, b2, c0, c1 = p
    for x, y in pts:  # keep replays away from the singular set; the identity below does not depend on it
        env.assume(1 + c0 * x + c1 * y > 0.2)
    det = a1 * (b2 - b0 * c1) - a2 * (b1 - b0 * c0) + a0 * (b1 * c1 - b2 * c0)
    env.assume(env.Or(det > 0.2, det < -0.2))
    out = env.no_raise(lambda: t.forward(env.arr(pts)), "forward")
    env.require(out.shape == (n, 2), "forward keeps the array shape")
    for i, (x, y) in enumerate(pts):
        den = 1 + c0 * x + c1 * y
        env.require(env.eq(out[i, 0], (a0 + a1 * x + a2 * y) / den), "forward x")
        env.require(env.eq(out[i, 1], (b0 + b1 * x + b2 * y) / den), "forward y")
    back = env.no_raise(lambda: t.inverse(out), "inverse")
    env.require(back.shape == (n, 2), "inverse keeps the array shape")
    for i, (x, y) in enumerate(pts):
        env.require(env.eq(back[i, 0], x, 1e-4, 1e-4), "inverse(forward(p)) == p, x")
        env.require(env.eq(back[i, 1], y, 1e-4, 1e-4), "inverse(forward(p)) == p, y")
    env.observe("fwd", [out[0, 0], out[0, 1]])


def _quads(env, variant):
    """A world quadrilateral near (lon0, lat0) and its image quadrilateral."""
    lon0, lat0 = env.real("lon0", -3, 3), env.real("lat0", -1, 1)
    d = env.real("d", 0.01, 0.05)
    if variant == "wide":  # more than half way around the earth
        lon0, d = env.real("lonw", -3.1, -3), env.real("dw", 3.3, 6)
    dx, dy = 0.0, 0.0
    if variant == "world":
        dx, dy = env.real("dx", -0.2, 0.2) * d, env.real("dy", -0.2, 0.2) * d
    v = d / 8 if variant == "wide" else d
    world = [[lon0, lat0], [lon0 + d, lat0], [lon0 + d + dx, lat0 - v + dy], [lon0, lat0 - v]]
    W, H = env.real("W", 100, 10000), env.real("H", 100, 10000)
    ex, ey = 0, 0
    if variant == "image":
        ex, ey = env.real("ex", -0.2, 0.2) * W, env.real("ey", -0.2, 0.2) * H
    image = [[0, 0], [W, 0], [W + ex, H + ey], [0, H]]
    return world, image, (lon0, lat0, d, W, H)


def fit(env, variant):
    world, image, (lon0, lat0, d, W, H) = _quads(env, variant)
    m = env.no_raise(lambda: ProjectiveSensorModel([GeodeticWorldCoordinate([w[0], w[1], 0.0]) for w in world],
                                                   [ImageCoordinate(i) for i in image]), "constructor")
    h = env.real("h", -100, 5000)
    for k, (w, i) in enumerate(zip(world, image)):
        q = env.no_raise(lambda: m.world_to_image(GeodeticWorldCoordinate([w[0], w[1], h])), "world_to_image")
        env.require(env.eq(q.x, i[0], 1e-2, 1e-5), f"tie point {k} maps to its pixel, x")
        env.require(env.eq(q.y, i[1], 1e-2, 1e-5), f"tie point {k} maps to its pixel, y")
        g = env.no_raise(lambda: m.image_to_world(ImageCoordinate([i[0], i[1]])), "image_to_world")
        env.require(env.eq(g.longitude, w[0], 1e-6), f"pixel {k} maps to its tie point, longitude")
        env.require(env.eq(g.latitude, w[1], 1e-6), f"pixel {k} maps to its tie point, latitude")
        env.require(env.eq(g.elevation, 0.0), "elevation is 0 without an elevation model")


def roundtrip(env, variant, warm=False):
    world, image, (lon0, lat0, d, W, H) = _quads(env, variant)
    m = ProjectiveSensorModel([GeodeticWorldCoordinate([w[0], w[1], 7.0]) for w in world], [ImageCoordinate(i) for i in image])
    px, py = env.real("px", 0, 1) * W, env.real("py", 0, 1) * H
    ic = ImageCoordinate([px, py])
    el = PlaneElevation(env.real("h0", -100, 3000), env.real("hx", -10, 10), env.real("hy", -10, 10))
    if warm:
        warm_image(env, m, elevation_model=el)
        warm_world(env, m)
    g = env.no_raise(lambda: m.image_to_world(ic, elevation_model=el), "image_to_world")
    g0 = env.no_raise(lambda: m.image_to_world(ic), "image_to_world")
    env.require(env.eq(g.longitude, g0.longitude), "elevation model does not move the point, longitude")
    env.require(env.eq(g.latitude, g0.latitude), "elevation model does not move the point, latitude")
    env.require(env.eq(g.elevation, el.at(g.longitude, g.latitude)), "elevation comes from the elevation model at the point")
    q = env.no_raise(lambda: m.world_to_image(g), "world_to_image")
    env.require(env.eq(q.x, px, 1e-2, 1e-5), "round trip x")
    env.require(env.eq(q.y, py, 1e-2, 1e-5), "round trip y")
    env.require(env.And(env.eqb(ic.x, px), env.eqb(ic.y, py)), "input coordinate is not modified")


def cases(tier):
    cs = [dict(name=f"transform-roundtrip-{n}", body=transform_roundtrip, params=dict(n=n)) for n in ((1, 2) if tier == "quick" else (1, 2, 4))]
    for v in ("rect", "world", "image", "wide"):
        cs.append(dict(name=f"fit-{v}", body=fit, params=dict(variant=v)))
        cs.append(dict(name=f"roundtrip-{v}", body=roundtrip, params=dict(variant=v)))
    cs.append(dict(name="roundtrip-rect-again", body=roundtrip, params=dict(variant="rect", warm=True)))
    return cs
