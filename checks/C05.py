"""C05 - RPC world_to_image is the RPC00B rational polynomial."""
from aws.osml.photogrammetry import GeodeticWorldCoordinate, RPCPolynomial, RPCSensorModel, WorldCoordinate

from .common import warm_world

BOUNDS = ("polynomial: all 20 coefficients and all normalised coordinates symbolic; full model: symbolic offsets, all coefficient "
          "positions (batches of symbolic coefficients, the rest at distinct fixed values), scales symbolic or fixed; a query alone or after two other queries of the same model")
OUTSIDE = "vanishing denominators; float rounding beyond 1e-6 relative"
PI = 3.141592653589793


def terms(L, P, H):
    return [1, L, P, H, L * P, L * H, P * H, L * L, P * P, H * H, P * L * H, L * L * L, L * P * P, L * H * H, L * L * P,
            P * P * P, P * H * H, L * L * H, P * P * H, H * H * H]


def poly(c, t):
    r = 0
    for a, b in zip(c, t):
        r = r + a * b
    return r


def polynomial(env):
    c = [env.real(f"c{i}", -10, 10) for i in range(20)]
    L, P, H = env.real("L", -2, 2), env.real("P", -2, 2), env.real("H", -2, 2)
    p = RPCPolynomial(list(c))
    w = WorldCoordinate([L, P, H])
    env.require(env.eq(env.no_raise(lambda: p.evaluate(w), "evaluate"), poly(c, terms(L, P, H))), "RPC00B polynomial")
    env.require(env.eq(env.no_raise(lambda: p(w), "call"), poly(c, terms(L, P, H))), "RPC00B polynomial (callable)")
    env.observe("v", p(w))


def model(env, symbolic, scales, warm=False):
    """symbolic: names of the polynomials with symbolic coefficients."""
    C = {}
    for k, nm in enumerate(("ln", "ld", "sn", "sd")):
        den = nm.endswith("d")
        base = [(0.001 * (i + 1) * (1 if (i + k) % 2 else -1)) if den else (0.1 + 0.013 * i + 0.001 * k) for i in range(20)]
        if den:
            base[0] = 1.0
        if nm == symbolic:
            r = 0.02 if den else 2
            base = [env.real(f"{nm}{i}", (1 if den and i == 0 else -r), (2 if den and i == 0 else r)) for i in range(20)]
        C[nm] = base
    if scales:
        s = {n: env.real(n, lo, hi) for n, lo, hi in (("ls", 100, 5000), ("ss", 100, 5000), ("las", 0.05, 1), ("los", 0.05, 1), ("hs", 100, 1000))}
    else:
        s = dict(ls=2048.5, ss=1024.25, las=0.125, los=0.25, hs=500.0)
    o = {n: env.real(n, lo, hi) for n, lo, hi in (("lo", 0, 9000), ("so", 0, 9000), ("lao", -80, 80), ("loo", -179, 179), ("ho", -100, 3000))}
    m = RPCSensorModel(err_bias=0.5, err_rand=0.25, line_off=o["lo"], samp_off=o["so"], lat_off=o["lao"], long_off=o["loo"], height_off=o["ho"],
                       line_scale=s["ls"], samp_scale=s["ss"], lat_scale=s["las"], long_scale=s["los"], height_scale=s["hs"],
                       line_num_poly=RPCPolynomial(C["ln"]), line_den_poly=RPCPolynomial(C["ld"]),
                       samp_num_poly=RPCPolynomial(C["sn"]), samp_den_poly=RPCPolynomial(C["sd"]))
    L, P, H = env.real("L", -1, 1), env.real("P", -1, 1), env.real("H", -1, 1)
    k = env.num(PI) / 180
    lon, lat, h = (L * s["los"] + o["loo"]) * k, (P * s["las"] + o["lao"]) * k, H * s["hs"] + o["ho"]
    g = GeodeticWorldCoordinate([lon, lat, h])
    if warm:
        warm_world(env, m)
        m.world_to_image(GeodeticWorldCoordinate([lon, lat, env.real("warm_hh", -100, 5000)]))
    q = env.no_raise(lambda: m.world_to_image(g), "world_to_image")
    t = terms(L, P, H)
    env.require(env.eq(q.x, poly(C["sn"], t) / poly(C["sd"], t) * s["ss"] + o["so"], 1e-4, 1e-6), "column is the denormalised sample ratio")
    env.require(env.eq(q.y, poly(C["ln"], t) / poly(C["ld"], t) * s["ls"] + o["lo"], 1e-4, 1e-6), "row is the denormalised line ratio")
    env.require(env.And(env.eqb(g.longitude, lon), env.eqb(g.latitude, lat), env.eqb(g.elevation, h)), "input is not modified")
    env.observe("q", [q.x, q.y])


def cases(tier):
    cs = [dict(name="polynomial", body=polynomial)]
    for n in ("ln", "ld", "sn", "sd"):
        cs.append(dict(name=f"model-{n}", body=model, params=dict(symbolic=n, scales=False)))
    cs.append(dict(name="model-scales", body=model, params=dict(symbolic=None, scales=True)))
    cs.append(dict(name="model-again", body=model, params=dict(symbolic="ln", scales=False, warm=True)))
    if tier == "thorough":
        for n in ("ln", "ld", "sn", "sd"):
            cs.append(dict(name=f"model-scales-{n}", body=model, params=dict(symbolic=n, scales=True)))
    return cs
