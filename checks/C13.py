"""C13 - a composite sensor model answers with the precise model and hands it the approximate model's guess."""
from aws.osml.photogrammetry import CompositeSensorModel, GeodeticWorldCoordinate, ImageCoordinate, SensorModelOptions

from .common import PlaneElevation, RecordingModel, affine2, warm_world

BOUNDS = "any pixel / world point, two models with symbolic affine answers, option dictionaries None / empty / with and without own hints; 1..3 calls"
OUTSIDE = "the search distance only has to be positive"


def i2w(env, optkind, calls):
    a, p = affine2(env, "a", -0.01, 0.01), affine2(env, "p", -0.01, 0.01)
    ap = RecordingModel("approx", affine2(env, "aw"), lambda x, y: a(x, y) + [1.0])
    pr = RecordingModel("precise", affine2(env, "pw"), lambda x, y: p(x, y) + [2.0])
    m = CompositeSensorModel(approximate_sensor_model=ap, precision_sensor_model=pr)
    el = PlaneElevation(3.0)
    g0 = env.real("g0", -3, 3)
    opts = {"none": None, "empty": {}, "other": {"speed": 3}, "own": {SensorModelOptions.INITIAL_GUESS: [g0, 0.1], SensorModelOptions.INITIAL_SEARCH_DISTANCE: 0.5, "k": "v"}}[optkind]
    before = dict(opts) if opts is not None else None
    for k in range(calls):
        x, y = env.real(f"x{k}", -100, 10000), env.real(f"y{k}", -100, 10000)
        ic = ImageCoordinate([x, y])
        n0 = len([c for c in pr.calls if c[0] == "i2w"])
        g = env.no_raise(lambda: m.image_to_world(ic, elevation_model=el, options=opts), "image_to_world")
        ref = p(x, y)
        env.require(env.eq(g.longitude, ref[0]), "answer is the precise model's, longitude")
        env.require(env.eq(g.latitude, ref[1]), "answer is the precise model's, latitude")
        env.require(env.eq(g.elevation, 2.0), "answer is the precise model's, elevation")
        cs = [c for c in pr.calls if c[0] == "i2w"][n0:]
        env.require(len(cs) >= 1, "precise model is used")
        c = cs[-1]
        env.require(env.And(env.eqb(c[1], x), env.eqb(c[2], y)), "precise model gets the image coordinate")
        env.require(c[3] is el, "precise model gets the elevation model")
        o = c[4] or {}
        gs = o.get(SensorModelOptions.INITIAL_GUESS)
        env.require(gs is not None and len(gs) >= 2, "precise model gets an initial guess")
        ag = a(x, y)
        env.require(env.eq(gs[0], ag[0]), "guess is the approximate model's longitude")
        env.require(env.eq(gs[1], ag[1]), "guess is the approximate model's latitude")
        sd = o.get(SensorModelOptions.INITIAL_SEARCH_DISTANCE)
        env.require(sd is not None and sd > 0, "precise model gets a positive search distance")
        for kk in ("speed", "k"):
            if before and kk in before:
                env.require(o.get(kk) == before[kk], "other options are passed on")
        if before is not None:
            same = set(opts) == set(before) and all(opts[z] is before[z] for z in before)
            env.require(same, "the caller's option dictionary is not changed")
        ca = [c for c in ap.calls if c[0] == "i2w"][-1]
        env.require(env.And(env.eqb(ca[1], x), env.eqb(ca[2], y)), "approximate model gets the image coordinate")
        env.require(ca[3] is el, "approximate model gets the elevation model")
        env.require(env.And(env.eqb(ic.x, x), env.eqb(ic.y, y)), "input coordinate is not modified")


def w2i(env):
    pw, aw = affine2(env, "pw"), affine2(env, "aw")
    pr = RecordingModel("precise", pw, lambda x, y: [0, 0, 0])
    ap = RecordingModel("approx", aw, lambda x, y: [0, 0, 0])
    m = CompositeSensorModel(ap, pr)
    lon, lat, h = env.real("lon", -3, 3), env.real("lat", -1.5, 1.5), env.real("h", -100, 5000)
    warm_world(env, m)
    q = env.no_raise(lambda: m.world_to_image(GeodeticWorldCoordinate([lon, lat, h])), "world_to_image")
    ref = pw(lon, lat, h)
    env.require(env.eq(q.x, ref[0]), "world_to_image is the precise model's, x")
    env.require(env.eq(q.y, ref[1]), "world_to_image is the precise model's, y")
    c = [c for c in pr.calls if c[0] == "w2i"][-1]
    env.require(env.And(env.eqb(c[1], lon), env.eqb(c[2], lat), env.eqb(c[3], h)), "world coordinate is passed on unchanged")


def cases(tier):
    cs = [dict(name=f"i2w-{o}", body=i2w, params=dict(optkind=o, calls=2 if tier == "quick" else 3)) for o in ("none", "empty", "other", "own")]
    return cs + [dict(name="w2i", body=w2i)]
