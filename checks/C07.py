"""C07 - RSM polynomials and the RSM polynomial model's world_to_image."""
from aws.osml.photogrammetry import (GeodeticWorldCoordinate, ImageCoordinate, RSMContext, RSMGroundDomain, RSMGroundDomainForm, RSMImageDomain,
                                     RSMLowOrderPolynomial, RSMPolynomial, RSMPolynomialSensorModel, WorldCoordinate)

from .common import warm_world

BOUNDS = ("all coefficients and coordinates symbolic; maximum powers up to 2 per axis plus (5,1,0),(0,5,1),(1,0,5) (thorough: up to 3 per axis "
          "and the single-axis 5s); full model with all symbolic offsets and scales and first-order symbolic polynomials; longitudes -pi..pi; a query alone or after two others")
OUTSIDE = "vanishing denominators; float rounding beyond 1e-6 relative"
PI = 3.141592653589793


def general(env, px, py, pz):
    n = (px + 1) * (py + 1) * (pz + 1)
    c = [env.real(f"c{i}", -5, 5) for i in range(n)]
    x, y, z = env.real("x", -2, 2), env.real("y", -2, 2), env.real("z", -2, 2)
    p = env.no_raise(lambda: RSMPolynomial(px, py, pz, list(c)), "constructor")
    ref, i = 0, 0
    for k in range(pz + 1):
        for j in range(py + 1):
            for l in range(px + 1):
                t = c[i]
                for _ in range(l):
                    t = t * x
                for _ in range(j):
                    t = t * y
                for _ in range(k):
                    t = t * z
                ref = ref + t
                i += 1
    w = WorldCoordinate([x, y, z])
    env.require(env.eq(env.no_raise(lambda: p.evaluate(w), "evaluate"), ref), "polynomial value, x power fastest, then y, then z")
    env.require(env.eq(env.no_raise(lambda: p(w), "call"), ref), "polynomial value (callable)")
    for m in (n - 1, n + 1):
        _, e = env.call(lambda: RSMPolynomial(px, py, pz, [0.5] * m))
        env.require(isinstance(e, ValueError), "wrong number of coefficients is rejected with ValueError")


def low(env):
    c = [env.real(f"c{i}", -5, 5) for i in range(10)]
    x, y, z = env.real("x", -20, 20), env.real("y", -20, 20), env.real("z", -20, 20)
    t = [1, x, y, z, x * x, x * y, x * z, y * y, y * z, z * z]
    ref = 0
    for a, b in zip(c, t):
        ref = ref + a * b
    p = RSMLowOrderPolynomial(list(c))
    env.require(env.eq(env.no_raise(lambda: p.evaluate(WorldCoordinate([x, y, z])), "evaluate"), ref), "low order polynomial value")
    env.require(env.eq(env.no_raise(lambda: p(WorldCoordinate([x, y, z])), "call"), ref), "low order polynomial value (callable)")
    for m in (9, 11):
        _, e = env.call(lambda: RSMLowOrderPolynomial([0.5] * m))
        env.require(isinstance(e, ValueError), "wrong number of coefficients is rejected with ValueError")


def model(env, form, warm=False):
    F = {"G": RSMGroundDomainForm.GEODETIC, "H": RSMGroundDomainForm.GEODETIC_2PI}[form]
    gd = RSMGroundDomain(F, [WorldCoordinate([0.1 * (i % 2), 0.1 * (i // 2 % 2), 100.0 * (i // 4)]) for i in range(8)])
    ctx = RSMContext(gd, RSMImageDomain(0, 1000, 0, 2000))
    o = {k: env.real(k, lo, hi) for k, lo, hi in (("ro", 0, 5000), ("co", 0, 5000), ("xo", -3, 3), ("yo", -1, 1), ("zo", -100, 1000))}
    s = {k: env.real(k, lo, hi) for k, lo, hi in (("rs", 10, 5000), ("cs", 10, 5000), ("xs", 0.01, 1), ("ys", 0.01, 1), ("zs", 10, 500))}
    names = ("rn", "rd", "cn", "cd")
    C = {}
    for n in names:
        den = n[1] == "d"
        C[n] = [env.real(f"{n}{i}", (1 if i == 0 else -0.01) if den else -2, (2 if i == 0 else 0.01) if den else 2) for i in range(4)]
    P = {n: RSMPolynomial(1, 1, 1, [C[n][0], C[n][1], C[n][2], 0.0, C[n][3], 0.0, 0.0, 0.0]) for n in names}
    m = RSMPolynomialSensorModel(context=ctx, section_row=1, section_col=1, row_norm_offset=o["ro"], column_norm_offset=o["co"],
                                 x_norm_offset=o["xo"], y_norm_offset=o["yo"], z_norm_offset=o["zo"], row_norm_scale=s["rs"],
                                 column_norm_scale=s["cs"], x_norm_scale=s["xs"], y_norm_scale=s["ys"], z_norm_scale=s["zs"],
                                 row_numerator_poly=P["rn"], row_denominator_poly=P["rd"], column_numerator_poly=P["cn"],
                                 column_denominator_poly=P["cd"])
    lon, lat, h = env.real("lon", -3.1, 3.1), env.real("lat", -1.5, 1.5), env.real("h", -100, 5000)
    x, y, z = lon, lat, h
    if form == "H":
        x = env.ite(lon < 0, lon + 2 * env.num(PI), lon)
        env.fork(lon < 0)
    X, Y, Z = (x - o["xo"]) / s["xs"], (y - o["yo"]) / s["ys"], (z - o["zo"]) / s["zs"]
    v = lambda n: C[n][0] + C[n][1] * X + C[n][2] * Y + C[n][3] * Z
    for n in ("rd", "cd"):
        env.assume(v(n) > 0.3)
    g = GeodeticWorldCoordinate([lon, lat, h])
    if warm:
        warm_world(env, m)
        m.world_to_image(GeodeticWorldCoordinate([lon, lat, env.real("warm_hh", -100, 5000)]))
    q = env.no_raise(lambda: m.world_to_image(g), "world_to_image")
    env.require(env.eq(q.x, v("cn") / v("cd") * s["cs"] + o["co"], 1e-4, 1e-6), "column is the denormalised column ratio")
    env.require(env.eq(q.y, v("rn") / v("rd") * s["rs"] + o["ro"], 1e-4, 1e-6), "row is the denormalised row ratio")
    env.require(env.And(env.eqb(g.longitude, lon), env.eqb(g.latitude, lat), env.eqb(g.elevation, h)), "input is not modified")
    # normalisation helpers are inverse to each other
    w = WorldCoordinate([lon, lat, h])
    nw = m.denormalize_world_coordinate(m.normalize_world_coordinate(w))
    for a, b in zip((nw.x, nw.y, nw.z), (lon, lat, h)):
        env.require(env.eq(a, b, 1e-5), "denormalise(normalise(world)) is the identity")
    px, py = env.real("px", -100, 9000), env.real("py", -100, 9000)
    ni = m.normalize_image_coordinate(ImageCoordinate([px, py]))
    env.require(env.eq(ni.x, (px - o["co"]) / s["cs"]), "normalised column")
    env.require(env.eq(ni.y, (py - o["ro"]) / s["rs"]), "normalised row")
    ri = m.denormalize_image_coordinate(ni)
    env.require(env.eq(ri.x, px, 1e-5), "denormalise(normalise(image)) is the identity, x")
    env.require(env.eq(ri.y, py, 1e-5), "denormalise(normalise(image)) is the identity, y")


def cases(tier):
    r = 2 if tier == "quick" else 3
    pw = [(a, b, c) for a in range(r + 1) for b in range(r + 1) for c in range(r + 1)] + [(5, 1, 0), (0, 5, 1), (1, 0, 5)]
    if tier == "thorough":
        pw += [(5, 0, 0), (0, 5, 0), (0, 0, 5), (4, 2, 1), (2, 4, 0), (5, 2, 2)]
    cs = [dict(name=f"poly-{a}{b}{c}", body=general, params=dict(px=a, py=b, pz=c)) for a, b, c in pw]
    cs.append(dict(name="low-order", body=low))
    return cs + [dict(name=f"model-{f}", body=model, params=dict(form=f)) for f in "GH"] + [dict(name="model-again", body=model, params=dict(form="G", warm=True))]
