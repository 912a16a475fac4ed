"""C14 - SAR image grid: pixel <-> SCP centred metres <-> image plane point, and metadata polynomials."""
import numpy as np

from aws.osml.photogrammetry import ImageCoordinate, Polynomial2D, PolynomialXYZ, SARImageCoordConverter, WorldCoordinate

from .sarcommon import FRAMES, cross, dot, horner, poly

BOUNDS = ("every pixel, SCP pixel / position, sample spacing (symbolic); image plane axes: rational unit frames with a symbolic skew angle "
          "between row and column axis; polynomials with symbolic coefficients up to degree 3 (quick) / 5 (thorough)")
OUTSIDE = "nearly parallel row/column axes (|cos| > 0.9); float rounding beyond 1e-6"


def _conv(env, frame, skew, small=False):
    R = FRAMES[frame]
    if skew:
        c, s = env.real("cs", -0.9, 0.9), env.real("sn", 0.3, 1)
        env.assume(env.eqb(c * c + s * s, 1)) if env.symbolic else None
        if not env.symbolic:
            s = (1 - c * c) ** 0.5
        ucol = [c * R[0][k] + s * R[1][k] for k in range(3)]
    else:
        ucol = [env.num(x) for x in R[1]]
    urow = [env.num(x) for x in R[0]]
    scp = [env.real(f"scp{k}", -100, 100) for k in range(3)]
    sr, sc = env.real("sr", -100, 20000), env.real("sc", -100, 20000)
    rss, css = env.real("rss", 0.1, 10), env.real("css", 0.1, 10)
    cv = env.no_raise(lambda: SARImageCoordConverter(scp_pixel=ImageCoordinate([sc, sr]), scp_ecf=WorldCoordinate(scp), u_row=env.arr(urow), u_col=env.arr(ucol),
                                                     row_ss=rss, col_ss=css), "constructor")
    return cv, scp, sr, sc, rss, css, urow, ucol


def grid(env):
    cv, scp, sr, sc, rss, css, urow, ucol = _conv(env, 1, False)
    r, c = env.real("r", -1000, 20000), env.real("c", -1000, 20000)
    a, b = env.real("r0", -1000, 20000), env.real("c0", -1000, 20000)
    cv.rowcol_to_xrowycol(env.arr([a, b]))  # earlier conversions make no difference
    cv.xrowycol_to_rowcol(env.arr([b, a]))
    xy = env.no_raise(lambda: cv.rowcol_to_xrowycol(env.arr([r, c])), "rowcol_to_xrowycol")
    env.require(env.eq(xy[0], (r - sr) * rss), "row offset from the SCP in metres")
    env.require(env.eq(xy[1], (c - sc) * css), "column offset from the SCP in metres")
    b = env.no_raise(lambda: cv.xrowycol_to_rowcol(xy), "xrowycol_to_rowcol")
    env.require(env.eq(b[0], r, 1e-5), "round trip row")
    env.require(env.eq(b[1], c, 1e-5), "round trip column")
    x, y = env.real("x", -9000, 9000), env.real("y", -9000, 9000)
    rc = env.no_raise(lambda: cv.xrowycol_to_rowcol(env.arr([x, y])), "xrowycol_to_rowcol")
    env.require(env.eq(rc[0], sr + x / rss, 1e-5), "row of a metre offset")
    env.require(env.eq(rc[1], sc + y / css, 1e-5), "column of a metre offset")


def plane(env, frame, skew):
    cv, scp, sr, sc, rss, css, urow, ucol = _conv(env, frame, skew)
    x, y = env.real("x", -100, 100), env.real("y", -100, 100)
    cv.ipp_to_xrowycol(cv.xrowycol_to_ipp(env.arr([env.real("x0", -100, 100), env.real("y0", -100, 100)])))
    p = env.no_raise(lambda: cv.xrowycol_to_ipp(env.arr([x, y])), "xrowycol_to_ipp")
    for k in range(3):
        env.require(env.eq(p[k], scp[k] + x * urow[k] + y * ucol[k]), "image plane point along row and column axes from the SCP")
    b = env.no_raise(lambda: cv.ipp_to_xrowycol(p), "ipp_to_xrowycol")
    env.require(env.eq(b[0], x, 1e-5), "round trip xrow")
    env.require(env.eq(b[1], y, 1e-5), "round trip ycol")
    n = cv.uvect_ipn
    w = cross(urow, ucol)
    env.require(env.eq(dot(n, n), 1), "image plane normal is a unit vector")
    env.require(env.eq(dot(n, urow), 0), "image plane normal is perpendicular to the rows")
    env.require(env.eq(dot(n, ucol), 0), "image plane normal is perpendicular to the columns")
    env.require(dot(n, w) > 0, "image plane normal is right handed (row x column)")


def poly2d(env, n, m):
    c = [[env.real(f"c{i}_{j}", -5, 5) for j in range(m)] for i in range(n)]
    p = env.no_raise(lambda: Polynomial2D(env.arr(c)), "Polynomial2D")
    x, y = env.real("x", -3, 3), env.real("y", -3, 3)
    ref = 0
    for i in range(n):
        ref = ref + horner(c[i], y) * (1 if i == 0 else _pw(x, i))
    env.require(env.eq(env.no_raise(lambda: p(x, y), "evaluate"), ref), "two dimensional polynomial: coefficient [i][j] belongs to x^i y^j")
    _, e = env.call(lambda: Polynomial2D(env.arr([1.0, 2.0])))
    env.require(isinstance(e, ValueError), "coefficients that are not two dimensional are rejected")


def _pw(x, k):
    r = x
    for _ in range(k - 1):
        r = r * x
    return r


def xyz(env, d):
    c = [[env.real(f"{a}{i}", -5, 5) for i in range(d + 1)] for a in "xyz"]
    p = PolynomialXYZ(*[poly(env, q) for q in c])
    t = env.real("t", -3, 3)
    v = env.no_raise(lambda: p(t), "evaluate")
    env.require_all_eq(v, [horner(q, t) for q in c], "position polynomial")
    dv = env.no_raise(lambda: p.deriv(), "derivative")
    w = env.no_raise(lambda: dv(t), "evaluate")
    env.require_all_eq(w, [horner([q[k] * k for k in range(1, d + 1)], t) for q in c], "velocity is the time derivative of the position")
    w = env.no_raise(lambda: p.deriv(m=2)(t), "second derivative")
    env.require_all_eq(w, [horner([q[k] * k * (k - 1) for k in range(2, d + 1)] or [0], t) for q in c], "second derivative")


def cases(tier):
    cs = [dict(name="grid", body=grid)]
    fr = range(2) if tier == "quick" else range(len(FRAMES))
    cs += [dict(name=f"plane-{f}-skew{int(s)}", body=plane, params=dict(frame=f, skew=s)) for f in fr for s in (False, True)]
    d = 3 if tier == "quick" else 5
    cs += [dict(name=f"poly2d-{n}x{m}", body=poly2d, params=dict(n=n, m=m)) for n, m in [(1, 1), (1, d), (d, 1), (2, 3), (3, 2)] + ([(4, 4), (3, 5)] if tier != "quick" else [])]
    cs += [dict(name=f"xyz-{k}", body=xyz, params=dict(d=k)) for k in range(1, d + 1)]
    return cs
