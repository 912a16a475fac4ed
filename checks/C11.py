"""C11 - a chipped-image sensor model composes the chip <-> full image mapping with the full image model."""
from aws.osml.photogrammetry import ChippedImageSensorModel, GeodeticWorldCoordinate, ImageCoordinate

from .common import PlaneElevation, RecordingModel, affine2, warm_image, warm_world

BOUNDS = ("chips with symbolic size, offset and independent x/y scale (axis aligned, mirrored or rotated by 90 degrees) of a full "
          "image model with a symbolic affine mapping; any chip pixel / world point, alone or after other queries")
OUTSIDE = "non-affine chip correspondences; float rounding of lstsq"


def _chip(env, orient):
    W, H = env.real("W", 64, 4096), env.real("H", 64, 4096)
    ox, oy = env.real("ox", 0, 20000), env.real("oy", 0, 20000)
    sx, sy = env.real("sx", 0.5, 4), env.real("sy", 0.5, 4)
    full = {"plain": lambda x, y: [ox + sx * x, oy + sy * y],
            "mirror": lambda x, y: [ox + sx * (W - x), oy + sy * y],
            "turn": lambda x, y: [ox + sy * y, oy + sx * (W - x)]}[orient]
    inv = {"plain": lambda X, Y: [(X - ox) / sx, (Y - oy) / sy],
           "mirror": lambda X, Y: [W - (X - ox) / sx, (Y - oy) / sy],
           "turn": lambda X, Y: [W - (Y - oy) / sx, (X - ox) / sy]}[orient]
    corners = [(0, 0), (W, 0), (W, H), (0, H)]
    return W, H, full, inv, corners


def body(env, orient, what, warm=False):
    W, H, full, inv, corners = _chip(env, orient)
    w2i = affine2(env, "a", 0, 100)
    i2w2 = affine2(env, "b", -0.0001, 0.0001)
    i2w = lambda x, y: i2w2(x, y) + [12.5]
    fm = RecordingModel("full", w2i, i2w)
    m = env.no_raise(lambda: ChippedImageSensorModel([ImageCoordinate(full(*c)) for c in corners],
                                                     [ImageCoordinate(list(c)) for c in corners], fm), "constructor")
    if warm:
        warm_image(env, m)
        warm_world(env, m)
    if what == "i2w":
        px, py = env.real("px", 0, 1) * W, env.real("py", 0, 1) * H
        ic = ImageCoordinate([px, py])
        el = PlaneElevation(3.0)
        opts = {"initial_guess": [0.1, 0.2], "k": 1}
        g = env.no_raise(lambda: m.image_to_world(ic, elevation_model=el, options=opts), "image_to_world")
        X, Y = full(px, py)
        ref = i2w(X, Y)
        c = [c for c in fm.calls if c[0] == "i2w"]
        env.require(len(c) >= 1, "the full image model is used")
        env.require(env.eq(c[-1][1], X, 1e-3, 1e-6), "full image model is asked for the full image column")
        env.require(env.eq(c[-1][2], Y, 1e-3, 1e-6), "full image model is asked for the full image row")
        env.require(c[-1][3] is el, "elevation model is passed on")
        env.require(c[-1][4] is not None and c[-1][4].get("k") == 1 and c[-1][4].get("initial_guess") == [0.1, 0.2], "options are passed on")
        for nm, a, b in (("longitude", g.longitude, ref[0]), ("latitude", g.latitude, ref[1]), ("elevation", g.elevation, ref[2])):
            env.require(env.eq(a, b, 1e-5), f"world coordinate is the full image model's, {nm}")
        env.require(env.And(env.eqb(ic.x, px), env.eqb(ic.y, py)), "input coordinate is not modified")
    else:
        lon, lat, h = env.real("lon", -3, 3), env.real("lat", -1.5, 1.5), env.real("h", -100, 5000)
        wc = GeodeticWorldCoordinate([lon, lat, h])
        q = env.no_raise(lambda: m.world_to_image(wc), "world_to_image")
        X, Y = w2i(lon, lat, h)
        ref = inv(X, Y)
        env.require(env.eq(q.x, ref[0], 1e-2, 1e-5), "chip column of the full image pixel")
        env.require(env.eq(q.y, ref[1], 1e-2, 1e-5), "chip row of the full image pixel")
        c = [c for c in fm.calls if c[0] == "w2i"][-1]
        env.require(env.And(env.eqb(c[1], lon), env.eqb(c[2], lat), env.eqb(c[3], h)), "world coordinate is passed on unchanged")


def cases(tier):
    return [dict(name=f"{w}-{o}", body=body, params=dict(orient=o, what=w)) for o in ("plain", "mirror", "turn") for w in ("i2w", "w2i")] + [
        dict(name=f"{w}-plain-again", body=body, params=dict(orient="plain", what=w, warm=True)) for w in ("i2w", "w2i")]
