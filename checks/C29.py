"""C29 - SAR image operations: complex values, power and 8 bit visualisations of SAR pixels."""
import math

import numpy as np

from aws.osml.image_processing import histogram_stretch, quarter_power_image
from aws.osml.image_processing import sar_complex_imageop as ops

from symx import core as _core

BOUNDS = ("images of two bands (I/Q or amplitude/phase) with up to 2x2 (thorough 2x3) symbolic pixels of UInt8, Int8, Int16, UInt16, Int32, Float32 and Float64; amplitude tables of 4 symbolic "
          "entries given as list or array; symbolic scale factors and precomputed means; arrays with NaN and infinite pixels; integer magnitudes of the quarter power stretch from three values per pixel")
OUTSIDE = "rounding of float32 pixels; images in which no pixel is finite"
RNG = {"uint8": (0, 255), "int8": (-128, 127), "int16": (-32768, 32767), "uint16": (0, 65535), "int32": (-10**6, 10**6), "float32": (-5000, 5000), "float64": (-5000, 5000)}
TAU = 2 * math.pi


def pixels(env, typ, shape, name="p", lo=None, hi=None):
    a, z = RNG[typ]
    a, z = (a if lo is None else lo), (z if hi is None else hi)
    mk = env.real if typ.startswith("float") else env.int
    flat = [mk(f"{name}{i}", a, z) for i in range(math.prod(shape))]
    n = len(flat)

    def nest(s, o, step):
        if len(s) == 1:
            return flat[o:o + s[0]]
        step //= s[0]
        return [nest(s[1:], o + i * step, step) for i in range(s[0])]

    v = nest(shape, 0, n)
    return v, env.arr(v, dtype=typ)


def trig(env, x):
    if env.symbolic:
        return _core.cos(x), _core.sin(x)
    return math.cos(x), math.sin(x)


def at(a, *i):
    for k in i:
        a = a[k]
    return a


def cplx(env, table, kind, H=1, W=2):
    """AMP8I_PHS8I pixels"""
    n = 4
    amp, _ = pixels(env, "uint8", (H, W), "a", 0, n - 1 if table else 255)
    ph, _ = pixels(env, "uint8", (H, W), "h")
    lut = None
    T = None
    if table:
        T = [env.real(f"t{i}", 0, 1000) for i in range(n)]
        lut = {"list": lambda: list(T), "tuple": lambda: tuple(T), "array": lambda: env.arr(T)}[kind]()
    img = env.arr([amp, ph], dtype="uint8")
    o = env.no_raise(lambda: ops.image_pixels_to_complex(img, pixel_type="AMP8I_PHS8I", **({"amplitude_table": lut} if table else {})), "conversion")
    env.require(tuple(o.shape) == (2, H, W), "real and imaginary part of every pixel")
    for r in range(H):
        for c in range(W):
            a = amp[r][c]
            if table:
                a = env.ite(a == 0, T[0], env.ite(a == 1, T[1], env.ite(a == 2, T[2], T[3])))
            k, s = trig(env, env.num(TAU) * (ph[r][c] / env.num(256.0)))
            env.require(env.eq(o[0, r, c], a * k, 1e-9), "real part: amplitude times the cosine of the phase in 256ths of a cycle")
            env.require(env.eq(o[1, r, c], a * s, 1e-9), "imaginary part: amplitude times the sine of the phase in 256ths of a cycle")
    pw = env.no_raise(lambda: ops.complex_to_power_value(o), "power")
    for r in range(H):
        for c in range(W):
            if not table:
                env.require(env.eq(pw[r, c], amp[r][c] * amp[r][c], 1e-6), "power is the squared amplitude, whatever the phase")


def stored(env, typ, pt):
    v, img = pixels(env, typ, (2, 1, 2))
    o = env.no_raise(lambda: ops.image_pixels_to_complex(img, **({} if pt is None else {"pixel_type": pt})), "conversion")
    for b in range(2):
        for c in range(2):
            env.require(env.eq(o[b, 0, c], v[b][0][c], 1e-6), "I/Q pixels are the complex values")


def unknown(env):
    v, img = pixels(env, "uint8", (2, 1, 1))
    for pt in ("", "AMP8I", "RE32F", "amp8i_phs8i"):
        r, e = env.call(lambda: ops.image_pixels_to_complex(img, pixel_type=pt))
        env.require(isinstance(e, ValueError), "unknown pixel types are refused")


def power(env, typ, H, W):
    v, img = pixels(env, typ, (2, H, W))
    o = env.no_raise(lambda: ops.complex_to_power_value(img), "power")
    env.require(tuple(o.shape) == (H, W), "one power per pixel")
    for r in range(H):
        for c in range(W):
            x = v[0][r][c] * v[0][r][c] + v[1][r][c] * v[1][r][c]
            t = 1e-6 if typ == "float32" else 1e-9
            env.require(env.And(o[r, c] - x <= t * x + t, x - o[r, c] <= t * x + t), "power is I squared plus Q squared")
    env.require(env.And(*[env.eq(img[b, r, c], v[b][r][c]) for b in range(2) for r in range(H) for c in range(W)]), "the pixels are not changed")


def decibels(env):
    p = [env.real(f"p{i}", 0.001, 1e6) for i in range(2)]
    o = env.no_raise(lambda: ops.power_value_in_decibels(env.arr(p)), "decibels")
    for i in range(2):
        lg = _core.mono_uf("log10", _core.Sym.const(p[i]), math.log10) if env.symbolic else math.log10(p[i])
        env.require(env.eq(o[i], lg * 10, 1e-9), "ten times the decimal logarithm")
    k = env.choice("k", [(1.0, 0.0), (10.0, 10.0), (1000.0, 30.0), (0.01, -20.0)])
    o = ops.power_value_in_decibels(env.arr([k[0]]))
    env.require(env.eq(o[0], k[1], 1e-9), "known values")


def linear(env, typ, H, W):
    v, img = pixels(env, typ, (H, W), lo=0)
    flat = [x for r in v for x in r]
    o = env.no_raise(lambda: ops.linear_mapping(img), "linear_mapping")
    env.require(tuple(o.shape) == (H, W), "one value per pixel")
    lo, hi = flat[0], flat[0]
    for x in flat[1:]:
        lo, hi = env.ite(x < lo, x, lo), env.ite(x > hi, x, hi)
    if env.fork(lo == hi):
        env.require(env.And(*[env.And(o[r, c] >= 0, o[r, c] <= 1) for r in range(H) for c in range(W)]), "values from 0 to 1 for a constant image")
        return
    env.assume(hi - lo >= (1e-3 if typ.startswith("f") else 1))
    for r in range(H):
        for c in range(W):
            env.require(env.eq(o[r, c] * (hi - lo), v[r][c] - lo, 1e-3 if typ.startswith("f") else 1e-6), "the smallest value maps to 0, the largest to 1, linear in between")
            env.require(env.And(o[r, c] >= 0, o[r, c] <= 1), "values from 0 to 1")
    b = env.no_raise(lambda: ops.get_value_bounds(img), "get_value_bounds")
    env.require(env.And(env.eq(b[0], lo), env.eq(b[1], hi)), "bounds are the smallest and largest value")


def close(env, o, x):
    """8 bit grey level clipped to the range, compared without dividing twice"""
    x = env.ite(x < 0, env.num(0.0), env.ite(x > 255, env.num(255.0), x))
    return env.And(o - x <= 1e-6, x - o <= 1e-6)


def mags(env, fn, typ, holes, scale, pre):
    """stretch of magnitudes relative to their mean"""
    n = 3
    if fn == "quarter" and not typ.startswith("f"):
        v = [env.choice(f"p{i}", [0, (1, 9, 37)[i], RNG[typ][1]]) for i in range(n)]  # roots of symbolic integers are undecidable within reach
        env.assume(any(v))
    else:
        v, _ = pixels(env, typ, (n,), lo=0)
        env.assume(env.Or(*[x > 0 for x in v]))
    if typ.startswith("f"):
        env.assume(env.And(*[env.Or(x == 0, x >= 1e-3) for x in v]))
    full = [list(v)]
    if holes:
        full = [[v[0], float("nan"), v[1]], [float("inf"), v[2], float("-inf") if fn == "hist" else float("inf")]]
    img = env.arr(full, dtype=typ)
    kw = {}
    s = 8.0 if fn == "hist" else 3.0
    if scale:
        s = env.real("scale", 0.5, 20)
        kw["scale_factor"] = s
    q = [env.sqrt(x, nonneg=True) for x in v] if fn == "quarter" else v
    mean = (q[0] + q[1] + q[2]) / 3
    if pre:
        mean = env.real("mean", 0.1, 1000)
        kw["precomputed_mean"] = mean
    f = ops.histogram_stretch_mag_values if fn == "hist" else ops.quarter_power_mag_values
    o = env.no_raise(lambda: f(img, **kw), "stretch")
    env.require(tuple(o.shape) == tuple(img.shape), "one value per pixel")
    where = [(0, 0), (0, 2), (1, 1)] if holes else [(0, 0), (0, 1), (0, 2)]
    for (r, c), x in zip(where, q):
        y = o[r, c]
        # 255 x / (s mean) without division
        env.require(env.And(y >= 0, y <= 255), "values from 0 to 255")
        d = y * s * mean - 255 * x
        t = 1.0 if typ == "uint8" and fn == "quarter" and not env.symbolic else 1e-3 if typ == "float32" and not env.symbolic else 1e-5  # NumPy computes roots of 8 bit numbers in half precision
        env.require(env.Or(env.And(d <= t * s * mean, -d <= t * s * mean), env.And(255 * x >= 255 * s * mean, y >= 255 - max(t, 1e-6))),
                    "brightness is relative to the scaled mean of the finite pixels, clipped at white")
    if holes:
        env.require(env.And(o[1, 0] >= 255 - 1e-6, o[1, 0] <= 255), "infinite pixels are white")


def black(env, fn, typ, whole):
    """an image without any signal"""
    img = env.arr([[[0, 0], [0, 0]]] * 2 if whole else [[0, 0], [0, 0]], dtype=typ)
    s = env.real("scale", 0.5, 20)
    f = {("hist", True): histogram_stretch, ("quarter", True): quarter_power_image, ("hist", False): ops.histogram_stretch_mag_values, ("quarter", False): ops.quarter_power_mag_values}[fn, whole]
    o = env.no_raise(lambda: f(img, scale_factor=s), "stretch")
    env.require(tuple(o.shape) == (2, 2), "one value per pixel")
    for r in range(2):
        for c in range(2):
            x = o[r, c]
            env.require(env.And(x >= 0, x <= 0), "pixels without signal are black")


def image(env, fn, typ, pt, table, pre):
    """from pixels to grey levels"""
    W = 2
    if pt == "AMP8I_PHS8I":
        amp, _ = pixels(env, "uint8", (1, W), "a", 0, 3 if table else 255)
        ph = [[env.choice(f"h{c}", [0, 64, 200]) for c in range(W)]]
        img = env.arr([amp, ph], dtype="uint8")
        T = [0.0, 2.5, 7.0, 40.0]
        A = [env.ite(a == 0, T[0], env.ite(a == 1, T[1], env.ite(a == 2, T[2], T[3]))) if table else a * env.num(1.0) for a in amp[0]]
        P = [a * a for a in A]
    else:
        v, img = pixels(env, typ, (2, 1, W))
        P = [v[0][0][c] * v[0][0][c] + v[1][0][c] * v[1][0][c] for c in range(W)]
    for p in P:
        env.assume(env.Or(p == 0, p >= 1e-2))
    env.assume(env.Or(*[p >= 1e-2 for p in P]))
    kw = {}
    if pt is not None:
        kw["pixel_type"] = pt
    if table:
        kw["amplitude_table"] = T
    # with a scale of two no pixel of two exceeds white, which keeps the integer types decidable
    s = env.real("scale", 2 if typ == "int16" and fn == "quarter" else 0.5, 20)
    kw["scale_factor"] = s
    q = [env.sqrt(p, nonneg=True) for p in P] if fn == "quarter" else P
    mean = (q[0] + q[1]) / 2
    if pre:
        mean = env.real("mean", 0.1, 1000)
        kw["precomputed_mean"] = mean
    o = env.no_raise(lambda: (histogram_stretch if fn == "hist" else quarter_power_image)(img, **kw), "image")
    env.require(tuple(o.shape) == (1, W), "one grey level per pixel")
    for c in range(W):
        y, x = o[0, c], q[c]
        d = y * s * mean - 255 * x
        tol = 1e-4 * s * mean
        env.require(env.Or(env.And(d <= tol, -d <= tol), env.And(x >= s * mean * (1 - 1e-6), y >= 255 - 1e-3)), "brightness is relative to the scaled mean, clipped at white")
        env.require(env.And(y >= 0, y <= 255), "values from 0 to 255")


def cases(tier):
    q = tier == "quick"
    cs = []

    def add(body, name, **k):
        cs.append(dict(name=name, body=body, params=k))

    add(cplx, "amp-phase", table=False, kind=None)
    for k in ("list", "array") if q else ("list", "tuple", "array"):
        add(cplx, "amp-phase-" + k, table=True, kind=k)
    add(stored, "iq-none", typ="float32", pt=None)
    add(stored, "iq-re16", typ="int16", pt="RE16I_IM16I")
    add(stored, "iq-re32", typ="float32", pt="RE32F_IM32F")
    add(unknown, "unknown-type")
    for t in RNG:
        add(power, "power-" + t, typ=t, H=1 if q else 2, W=2 if q else 3)
    add(decibels, "decibels")
    for t in ("uint8", "int32", "float64") if q else RNG:
        add(linear, "linear-" + t, typ=t, H=1, W=3)
    for fn in ("hist", "quarter"):
        for t in ("uint8", "float64") if q else ("uint8", "uint16", "int32", "float32", "float64"):
            for sc in (0, 1):
                for pre in (0, 1) if fn == "quarter" else (0,):
                    add(mags, f"{fn}-mag-{t}-{sc}{pre}", fn=fn, typ=t, holes=False, scale=bool(sc), pre=bool(pre))
        add(mags, f"{fn}-mag-holes", fn=fn, typ="float64", holes=True, scale=True, pre=False)
        for t in ("uint8", "float32"):
            for w in (True, False):
                add(black, f"{fn}-black-{t}-{int(w)}", fn=fn, typ=t, whole=w)
        for t, pt in (("int16", "RE16I_IM16I"), ("float32", "RE32F_IM32F"), ("int16", None), ("uint8", None)):
            add(image, f"{fn}-image-{t}-{pt}", fn=fn, typ=t, pt=pt, table=False, pre=False)
        for tb in (False, True):
            add(image, f"{fn}-image-amp-{int(tb)}", fn=fn, typ="uint8", pt="AMP8I_PHS8I", table=tb, pre=False)
    add(image, "quarter-image-pre", fn="quarter", typ="int16", pt=None, table=False, pre=True)
    return cs
