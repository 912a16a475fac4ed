"""C06 - image_to_world of RPC and RSM polynomial models: what is searched for, from where, and what is returned."""
from aws.osml.photogrammetry import (GeodeticWorldCoordinate, ImageCoordinate, RPCPolynomial, RPCSensorModel, RSMContext, RSMGroundDomain,
                                     RSMGroundDomainForm, RSMImageDomain, RSMPolynomial, RSMPolynomialSensorModel,
                                     SensorModelOptions, WorldCoordinate)

from .common import check_search, elevation_kind, stub_minimize, warm_image, warm_world

BOUNDS = ("any target pixel, any point the optimiser may probe or settle on, symbolic initial guess / search distance / model offsets "
          "and vertices; hints given or absent; with, without and outside an elevation model; a query alone or after other queries of the same model")
OUTSIDE = "convergence of scipy's Nelder-Mead (the optimiser is a stand-in that settles anywhere); projection model with fixed first-order coefficients"
PI = 3.141592653589793


def _opts(env, hints):
    o, g, d = None, None, None
    if hints == "empty":
        o = {}
    if hints in ("guess", "both"):
        g = [env.real("gx", -3, 3), env.real("gy", -1.5, 1.5)]
        o = {SensorModelOptions.INITIAL_GUESS: list(g)}
    if hints in ("distance", "both"):
        d = env.real("gd", 1e-5, 0.1)
        o = o or {}
        o[SensorModelOptions.INITIAL_SEARCH_DISTANCE] = d
    return o, g, d


def _run(env, m, hints, elev, default_guess, default_dist, default_h, w2i, bounds, warm=False):
    ans = [env.real("ax", -3.1, 3.1), env.real("ay", -1.5, 1.5)]
    log = []
    stub_minimize(env, ans, log)
    el, at = elevation_kind(env, elev)
    o, g, d = _opts(env, hints)
    if warm:
        final, ans[:] = list(ans), [env.real("ax0", -3.1, 3.1), env.real("ay0", -1.5, 1.5)]
        warm_image(env, m, elevation_model=elevation_kind(env, "plane", "w")[0] if warm == "other" else el, options=_opts(env, hints)[0])
        warm_world(env, m)
        ans[:] = final
        del log[:]
    before = {k: (list(v) if isinstance(v, list) else v) for k, v in o.items()} if o is not None else None
    tx, ty = env.real("tx", -500, 9000), env.real("ty", -500, 9000)
    ic = ImageCoordinate([tx, ty])
    w = env.no_raise(lambda: m.image_to_world(ic, elevation_model=el, options=o), "image_to_world")
    env.require(len(log) >= 1, "an optimiser search is made")
    if not log:
        return
    env.require(env.eq(w.longitude, ans[0]), "result is the location the search settled on, longitude")
    env.require(env.eq(w.latitude, ans[1]), "result is the location the search settled on, latitude")
    env.require(env.eq(w.elevation, at(ans[0], ans[1]) if at else default_h, 1e-5),
                "result elevation is the elevation model's at that location, else the model's reference height")
    probe = [env.real("qx", -3.1, 3.1), env.real("qy", -1.5, 1.5)]
    check_search(env, log[-1], w2i, (tx, ty), default_h, at, g or default_guess, d if d is not None else default_dist(), probe)
    b = log[-1]["bounds"]
    if bounds is not None and b is not None:
        for k in range(2):
            env.require(env.eq(b[k][0], bounds[k][0]), "search stays inside the ground domain (lower bound)")
            env.require(env.eq(b[k][1], bounds[k][1]), "search stays inside the ground domain (upper bound)")
    elif bounds is None:
        env.require(b is None, "RPC search is not bounded")
    env.require(env.And(env.eqb(ic.x, tx), env.eqb(ic.y, ty)), "input coordinate is not modified")
    if before is not None:
        env.require(set(o) == set(before), "caller's options are not changed")
        if g:
            for k in range(2):
                env.require(env.eq(o[SensorModelOptions.INITIAL_GUESS][k], g[k]), "caller's guess is not changed")


def rpc(env, hints, elev, warm=False):
    loo, lao, ho = env.real("loo", -179, 179), env.real("lao", -80, 80), env.real("ho", -100, 3000)
    z = [0.0] * 20
    cn, cr, one = list(z), list(z), list(z)
    cn[0], cn[1], cn[3] = 0.1, 1.0, 0.05
    cr[0], cr[2], cr[3] = -0.1, -1.0, 0.02
    one[0] = 1.0
    m = RPCSensorModel(0.0, 0.0, 1000.0, 2000.0, lao, loo, ho, 1000.0, 2000.0, 0.5, 0.25, 500.0, RPCPolynomial(cr), RPCPolynomial(one),
                       RPCPolynomial(cn), RPCPolynomial(one))
    k = 180 / env.num(PI)

    def w2i(lon, lat, h):
        L, P, H = (lon * k - loo) / 0.25, (lat * k - lao) / 0.5, (h - ho) / 500
        return [(0.1 + L + 0.05 * H) * 2000 + 2000, (-0.1 - P + 0.02 * H) * 1000 + 1000]

    _run(env, m, hints, elev, [loo / k, lao / k], lambda: 0.5 / k, ho, w2i, None, warm)


def rsm(env, hints, elev, grp, warm=False):
    lon0, lat0 = env.real("vx", -3, 3), env.real("vy", -1.3, 1.3)
    dl, db = env.real("dl", 0.001, 0.1), env.real("db", 0.001, 0.1)
    z1, z2 = env.real("z1", -100, 1000), env.real("z2", 1000, 3000)
    sk = env.real("sk", -0.0005, 0.0005)
    v = [[lon0, lat0, z1], [lon0 + dl, lat0 + sk, z1], [lon0 - sk, lat0 + db, z1], [lon0 + dl, lat0 + db, z1],
         [lon0, lat0, z2], [lon0 + dl, lat0, z2], [lon0, lat0 + db, z2], [lon0 + dl, lat0 + db, z2]]
    ref = [lon0, lat0, env.real("rz", -100, 4000)] if grp else None
    gd = RSMGroundDomain(RSMGroundDomainForm.GEODETIC, [WorldCoordinate(x) for x in v], ground_reference_point=WorldCoordinate(ref) if ref else None)
    ctx = RSMContext(gd, RSMImageDomain(0, 1000, 0, 2000))
    P = lambda a, b, c, d: RSMPolynomial(1, 1, 1, [a, b, c, 0.0, d, 0.0, 0.0, 0.0])
    m = RSMPolynomialSensorModel(ctx, 1, 1, 500.0, 1000.0, 0.5, 0.25, 10.0, 500.0, 1000.0, 0.1, 0.2, 100.0, P(0.1, 0.0, -1.0, 0.01), P(1.0, 0, 0, 0),
                                 P(0.2, 1.0, 0.0, 0.02), P(1.0, 0, 0, 0))

    def w2i(lon, lat, h):
        X, Y, Z = (lon - 0.5) / 0.1, (lat - 0.25) / 0.2, (h - 10) / 100
        return [(0.2 + X + 0.02 * Z) * 1000 + 1000, (0.1 - Y + 0.01 * Z) * 500 + 500]

    lons, lats = [x[0] for x in v], [x[1] for x in v]
    bnd = []
    for c in (lons, lats):
        lo = hi = c[0]
        for x in c[1:]:
            lo, hi = env.ite(x < lo, x, lo), env.ite(x > hi, x, hi)
        bnd.append((lo, hi))
    h = ref[2] if grp else (z1 + z2) / 2
    _run(env, m, hints, elev, [lon0 + dl / 2, lat0 + db / 2], lambda: env.sqrt(dl * dl + db * db), h, w2i, bnd, warm)


def cases(tier):
    cs = []
    combos = [("none", "none"), ("none", "plane"), ("guess", "plane"), ("distance", "none"), ("both", "hole"), ("empty", "hole")]
    if tier == "thorough":
        combos = [(h, e) for h in ("none", "empty", "guess", "distance", "both") for e in ("none", "plane", "hole")]
    for h, e in combos:
        cs.append(dict(name=f"rpc-{h}-{e}", body=rpc, params=dict(hints=h, elev=e)))
        for g in (0, 1):
            cs.append(dict(name=f"rsm-{h}-{e}-grp{g}", body=rsm, params=dict(hints=h, elev=e, grp=g)))
    for h, e, w in [("none", "none", "other"), ("none", "plane", "other"), ("distance", "none", "same")] + (
            [] if tier == "quick" else [("both", "plane", "same"), ("none", "hole", "other")]):
        cs.append(dict(name=f"rpc-{h}-{e}-again", body=rpc, params=dict(hints=h, elev=e, warm=w)))
        cs.append(dict(name=f"rsm-{h}-{e}-again", body=rsm, params=dict(hints=h, elev=e, grp=1, warm=w)))
    return cs
