"""C08 - a sectioned RSM model answers with the section whose image area holds the (approximate) pixel."""
from aws.osml.photogrammetry import (GeodeticWorldCoordinate, ImageCoordinate, RSMContext, RSMGroundDomain, RSMGroundDomainForm, RSMImageDomain,
                                     RSMLowOrderPolynomial, RSMSectionedPolynomialSensorModel, WorldCoordinate)

from .common import PlaneElevation, RecordingModel, warm_image, warm_world

BOUNDS = ("grids of 1x1 to 3x4 sections (quick: 2x3, 3x2, 1x1), symbolic section sizes and image domain minimum, symbolic low order "
          "polynomials (constant and linear terms), every pixel / world point inside and outside the image domain, alone or after another query")
OUTSIDE = "pixels within 1e-6 of a section boundary may be served by either neighbour"
PI = 3.141592653589793


def _setup(env, nr, nc, form="G"):
    F = {"G": RSMGroundDomainForm.GEODETIC, "H": RSMGroundDomainForm.GEODETIC_2PI}[form]
    gd = RSMGroundDomain(F, [WorldCoordinate([0.1 * (i % 2), 0.1 * (i // 2 % 2), 100.0 * (i // 4)]) for i in range(8)])
    r0, c0 = env.int("r0", -50, 200), env.int("c0", -50, 200)
    rs, cs = env.real("rs", 10, 500), env.real("cs", 10, 500)
    ctx = RSMContext(gd, RSMImageDomain(r0, r0 + 2000, c0, c0 + 2000))
    models = [[RecordingModel((i, j), lambda lon, lat, h, i=i, j=j: [100.0 * i + lon, 100.0 * j + lat],
                              lambda x, y, i=i, j=j: [0.001 * i + 1e-6 * x, 0.001 * j + 1e-6 * y, 5.0]) for j in range(nc)] for i in range(nr)]
    return ctx, r0, c0, rs, cs, models


def _mk(ctx, nr, nc, rs, cs, rp, cp, models):
    return RSMSectionedPolynomialSensorModel(context=ctx, row_num_image_sections=nr, column_num_image_sections=nc, row_section_size=rs,
                                             column_section_size=cs, row_polynomial=rp, column_polynomial=cp, section_sensor_models=models)


def _owner(env, models, what, off, size, pos, n, idx):
    """section idx (of n) owns position pos"""
    t = pos - off
    eps = 1e-6
    if idx > 0:
        env.require(t >= idx * size - eps, f"{what}: pixel is not before the chosen section")
    if idx < n - 1:
        env.require(t <= (idx + 1) * size + eps, f"{what}: pixel is not behind the chosen section")


def i2w(env, nr, nc, warm=False):
    ctx, r0, c0, rs, cs, models = _setup(env, nr, nc)
    z = RSMLowOrderPolynomial([0.0] * 10)
    m = _mk(ctx, nr, nc, rs, cs, z, z, models)
    x, y = env.real("x", -2000, 4000), env.real("y", -2000, 4000)
    ic, el, opts = ImageCoordinate([x, y]), PlaneElevation(1.0), {"k": 1}
    if warm:
        warm_image(env, m, -2000, 4000)
        for q in (q for row in models for q in row):
            del q.calls[:]
    w = env.no_raise(lambda: m.image_to_world(ic, elevation_model=el, options=opts), "image_to_world")
    used = [q for row in models for q in row if q.calls]
    env.require(len(used) == 1, "exactly one section model answers")
    i, j = used[0].name
    c = used[0].calls[-1]
    env.require(c[0] == "i2w" and c[3] is el and c[5] is not None and c[4] == {"k": 1}, "elevation model and options are passed on")
    env.require(env.And(env.eqb(c[1], x), env.eqb(c[2], y)), "image coordinate is passed on unchanged")
    env.require(env.eq(w.longitude, 0.001 * i + 1e-6 * x, 1e-12), "answer is the section's, longitude")
    env.require(env.eq(w.latitude, 0.001 * j + 1e-6 * y, 1e-12), "answer is the section's, latitude")
    _owner(env, models, "row", r0, rs, y, nr, i)
    _owner(env, models, "column", c0, cs, x, nc, j)


def w2i(env, nr, nc, form, warm=False):
    ctx, r0, c0, rs, cs, models = _setup(env, nr, nc, form)
    a = [env.real(f"a{i}", *b) for i, b in enumerate([(-500, 1500), (-100, 100), (-300, 300), (-0.05, 0.05)])]
    b = [env.real(f"b{i}", *q) for i, q in enumerate([(-500, 1500), (-300, 300), (-100, 100), (-0.05, 0.05)])]
    z = [0.0] * 6
    if warm:  # fixed section polynomials, any two points
        a, b = a[:1] + [env.num(v) for v in (20.0, -200.0, 0.01)], b[:1] + [env.num(v) for v in (150.0, 30.0, -0.02)]
    m = _mk(ctx, nr, nc, rs, cs, RSMLowOrderPolynomial(a + z), RSMLowOrderPolynomial(b + z), models)
    lon, lat, h = env.real("lon", -3.1, 3.1), env.real("lat", -1.5, 1.5), env.real("h", -100, 5000)
    g = GeodeticWorldCoordinate([lon, lat, h])
    X = lon
    if form == "H":
        X = lon + 2 * env.num(PI) if env.fork(lon < 0) else lon
    if warm:
        warm_world(env, m)
        for q in (q for row in models for q in row):
            del q.calls[:]
    p = env.no_raise(lambda: m.world_to_image(g), "world_to_image")
    used = [q for row in models for q in row if q.calls]
    env.require(len(used) == 1, "exactly one section model answers")
    i, j = used[0].name
    c = used[0].calls[-1]
    env.require(env.And(env.eqb(c[1], lon), env.eqb(c[2], lat), env.eqb(c[3], h)), "world coordinate is passed on unchanged")
    env.require(env.eq(p.x, 100.0 * i + lon), "answer is the section's, x")
    env.require(env.eq(p.y, 100.0 * j + lat), "answer is the section's, y")
    row, col = a[0] + a[1] * X + a[2] * lat + a[3] * h, b[0] + b[1] * X + b[2] * lat + b[3] * h
    _owner(env, models, "row", r0, rs, row, nr, i)
    _owner(env, models, "column", c0, cs, col, nc, j)


def cases(tier):
    g = [(2, 3), (3, 2), (1, 1)] if tier == "quick" else [(r, c) for r in (1, 2, 3) for c in (1, 2, 3, 4)]
    cs = [dict(name=f"i2w-{r}x{c}", body=i2w, params=dict(nr=r, nc=c)) for r, c in g]
    cs += [dict(name=f"w2i-{f}-{r}x{c}", body=w2i, params=dict(nr=r, nc=c, form=f)) for r, c in g for f in ("GH" if (r, c) == (2, 3) else "G")]
    g = [(1, 2), (2, 1)] if tier == "quick" else [(2, 2), (1, 3)]
    cs += [dict(name=f"i2w-{r}x{c}-again", body=i2w, params=dict(nr=r, nc=c, warm=True)) for r, c in g]
    cs += [dict(name=f"w2i-{r}x{c}-again", body=w2i, params=dict(nr=r, nc=c, form="G", warm=True)) for r, c in g]
    return cs
