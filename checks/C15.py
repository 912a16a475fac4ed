"""C15 - SICD image grid to R/Rdot contour (SICD Volume 3, Section 4)."""
from aws.osml.photogrammetry import (INCAProjectionSet, PFAProjectionSet, PlaneProjectionSet, Polynomial2D, PolynomialXYZ,
                                     RGAZCOMPProjectionSet, WorldCoordinate)

from .sarcommon import FRAMES, dot, horner, poly, sub, vec
from .sarcommon import COS, SIN

BOUNDS = ("every grid position, time-of-COA polynomial (up to 2x2, thorough 3x2), platform position polynomial (degree 1, thorough 2), "
          "algorithm parameters and adjustable parameter offsets symbolic; positions up to a few km (the equations are homogeneous)")
OUTSIDE = "higher polynomial degrees; degenerate geometry (platform at the scene point); float rounding beyond 1e-6 relative"


def _p2(c, x, y):
    r, px = 0, 1
    for row in c:
        r = r + px * horner(row, y)
        px = px * x
    return r


def _common(env, nt, mt, d, num=False):
    """num: fixed platform polynomial (the time polynomial is symbolic); otherwise a symbolic platform polynomial at a symbolic time"""
    T = [[env.real(f"t{i}{j}", -0.1 if i + j else 0.5, 0.1 if i + j else 2) for j in range(mt)] for i in range(nt)]
    if num:
        A = [[env.num(v) for v in c[:d + 1]] for c in ([700.0, 12.0, -0.5], [450.0, -4.0, 0.25], [1200.0, 3.0, 0.75])]
    else:
        A = [[env.real(f"a{ax}{k}", -20 if k else 200, 20 if k else 2000) for k in range(d + 1)] for ax in "xyz"]
    off = env.bool("offsets")
    kw = {}
    da, dv, rb = [0, 0, 0], [0, 0, 0], 0
    if off:
        da, dv, rb = vec(env, "da", -5, 5), vec(env, "dv", -5, 5), env.real("rb", -5, 5)
        kw = dict(delta_arp=env.arr(da), delta_varp=env.arr(dv), range_bias=rb)
    kw.update(coa_time_poly=Polynomial2D(env.arr(T)), arp_poly=PolynomialXYZ(*[poly(env, c) for c in A]))
    x, y = env.real("x", -10, 10), env.real("y", -10, 10)
    t = _p2(T, x, y)
    arp = [horner(c, t) for c in A]
    varp = [horner([c[k] * k for k in range(1, d + 1)], t) for c in A]
    return kw, x, y, t, arp, varp, da, dv, rb, A


def _earlier(env, ps):
    xy = env.arr([env.real("x0", -10, 10), env.real("y0", -10, 10)])
    env.call(lambda: ps.precise_rrdot_computation(xy))  # of another grid position


def _check(env, ps, x, y, t, arp, varp, da, dv, rb, R, Rdot, rep=True, obs=True):
    if rep:
        _earlier(env, ps)
    for k in range(2 if rep else 1):  # a second evaluation gives the same answer
        xy = env.arr([x, y])
        r, rd, tc, p, v = env.no_raise(lambda: ps.precise_rrdot_computation(xy), "R/Rdot computation")
        env.require(env.eq(tc, t), "centre of aperture time")
        env.require_all_eq(p, [a + b for a, b in zip(arp, da)], "platform position at the centre of aperture time")
        env.require_all_eq(v, [a + b for a, b in zip(varp, dv)], "platform velocity at the centre of aperture time")
        env.require(env.eq(r, R + rb, 1e-5), "range to the target")
        env.require(env.eq(rd, Rdot, 1e-5), "range rate to the target")
        env.require(env.And(env.eqb(xy[0], x), env.eqb(xy[1], y)), "grid position is not modified")
    if obs:
        env.observe("r", [r, rd, tc])


def pfa(env, nt, mt, d, q, num=False):
    kw, x, y, t, arp, varp, da, dv, rb, A = _common(env, nt, mt, d, num)
    scp = vec(env, "s", -50, 50)
    pa = [env.real(f"pa{k}", -0.5, 0.5) for k in range(q + 1)]
    sf = [env.real(f"sf{k}", -0.5 if k else 0.5, 1.5) for k in range(q + 1)]
    ps = env.no_raise(lambda: PFAProjectionSet(scp_ecf=WorldCoordinate(scp), polar_ang_poly=poly(env, pa), spatial_freq_sf_poly=poly(env, sf), **kw), "constructor")
    los = sub(arp, scp)
    rs = env.sqrt(dot(los, los), nonneg=True)
    th = horner(pa, t)
    dth = horner([pa[k] * k for k in range(1, q + 1)], t)
    ksf = horner(sf, th)
    dksf = horner([sf[k] * k for k in range(1, q + 1)], th)
    c, s = COS(env, th), SIN(env, th)
    ka, kc = x * c + y * s, y * c - x * s
    _check(env, ps, x, y, t, arp, varp, da, dv, rb, rs + ksf * ka, dot(varp, los) / rs + (dksf * ka + ksf * kc) * dth, obs=False)


def rgazcomp(env, nt, mt, d, num=False):
    kw, x, y, t, arp, varp, da, dv, rb, A = _common(env, nt, mt, d, num)
    scp = vec(env, "s", -50, 50)
    az = env.real("azsf", -0.1, 0.1)
    ps = env.no_raise(lambda: RGAZCOMPProjectionSet(scp_ecf=WorldCoordinate(scp), az_scale_factor=az, **kw), "constructor")
    los = sub(arp, scp)
    rs = env.sqrt(dot(los, los), nonneg=True)
    _check(env, ps, x, y, t, arp, varp, da, dv, rb, rs + x, dot(varp, los) / rs - env.sqrt(dot(varp, varp), nonneg=True) * az * y)


def inca(env, nt, mt, d, q, num=False):
    kw, x, y, t, arp, varp, da, dv, rb, A = _common(env, nt, mt, d, num)
    rca = env.real("rca", 500, 5000)
    ca = [env.real(f"ca{k}", -0.1 if k else -2, 0.1 if k else 2) for k in range(q + 1)]
    D = [[env.real(f"d{i}{j}", -0.01 if i + j else 0.5, 0.01 if i + j else 1.5) for j in range(mt)] for i in range(nt)]
    ps = env.no_raise(lambda: INCAProjectionSet(r_ca_scp=rca, inca_time_coa_poly=poly(env, ca), drate_sf_poly=Polynomial2D(env.arr(D)), **kw), "constructor")
    tca = horner(ca, y)
    vca = [horner([c[k] * k for k in range(1, d + 1)], tca) for c in A]
    v2 = dot(vca, vca)
    dr = _p2(D, x, y)
    dt = t - tca
    rad = (rca + x) * (rca + x) + dr * v2 * dt * dt
    env.assume(rad > 1)
    S = env.sqrt(rad, nonneg=True)
    # stated on the squares: R^2 and R*Rdot, with R > 0
    xy = env.arr([x, y])
    r, rd, tc, p, v = env.no_raise(lambda: ps.precise_rrdot_computation(xy), "R/Rdot computation")
    R = r - rb
    env.require(env.eq(tc, t), "centre of aperture time")
    env.require_all_eq(p, [a + b for a, b in zip(arp, da)], "platform position at the centre of aperture time")
    env.require_all_eq(v, [a + b for a, b in zip(varp, dv)], "platform velocity at the centre of aperture time")
    env.require(env.eq(R, S, 1e-5), "range to the target")
    env.require(env.eq(rd * S, dr * v2 * dt, 1e-4), "range rate to the target")
    env.observe("r", [r, rd, tc])


def plane(env, nt, mt, d, frame, num=False):
    kw, x, y, t, arp, varp, da, dv, rb, A = _common(env, nt, mt, d, num)
    scp = vec(env, "s", -50, 50)
    ur, uc = FRAMES[frame][0], FRAMES[frame][1]
    ps = env.no_raise(lambda: PlaneProjectionSet(scp_ecf=WorldCoordinate(scp), image_plane_urow=env.arr(ur), image_plane_ucol=env.arr(uc), **kw), "constructor")
    ipp = [scp[k] + x * ur[k] + y * uc[k] for k in range(3)]
    los = sub(arp, ipp)
    R = env.sqrt(dot(los, los), nonneg=True)
    _check(env, ps, x, y, t, arp, varp, da, dv, rb, R, dot(varp, los) / R)


def cases(tier):
    o = dict(query_timeout=60)
    cs = []
    for fn, kw in ((pfa, dict(q=2)), (rgazcomp, {}), (inca, dict(q=1)), (plane, dict(frame=1))):
        cs.append(dict(name=fn.__name__, body=fn, params=dict(nt=1, mt=1, d=1, **kw), opts=o))
        cs.append(dict(name=fn.__name__ + "-time", body=fn, params=dict(nt=2, mt=2, d=1, num=True, **kw), opts=o))
        cs.append(dict(name=fn.__name__ + "-d2", body=fn, params=dict(nt=1, mt=1, d=2, num=True, **kw), opts=o))
        if tier == "thorough":
            cs.append(dict(name=fn.__name__ + "-sym2", body=fn, params=dict(nt=1, mt=1, d=2, **kw), opts=o))
            cs.append(dict(name=fn.__name__ + "-time32", body=fn, params=dict(nt=3, mt=2, d=2, num=True, **kw), opts=o))
    cs.append(dict(name="plane-0", body=plane, params=dict(nt=1, mt=1, d=1, frame=0), opts=o))
    return cs
