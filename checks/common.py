"""Stand-ins shared by the harnesses; they behave the same in symbolic and concrete (replay) mode."""
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
from aws.osml.photogrammetry.elevation_model import ElevationModel
from aws.osml.photogrammetry.sensor_model import SensorModel


class PlaneElevation(ElevationModel):
    """elevation = h0 + hx*lon + hy*lat ; records the positions it was asked for"""

    def __init__(self, h0, hx=0, hy=0, summary=None):
        super().__init__()
        self.h0, self.hx, self.hy, self.summary = h0, hx, hy, summary
        self.calls = []

    def at(self, lon, lat):
        return self.h0 + self.hx * lon + self.hy * lat

    def set_elevation(self, c):
        self.calls.append((c.longitude, c.latitude))
        c.elevation = self.at(c.longitude, c.latitude)

    def describe_region(self, c):
        return self.summary


class RecordingModel(SensorModel):
    """image = M*(lon,lat)+t ; world = given affine; records calls"""

    def __init__(self, name, w2i, i2w):
        super().__init__()
        self.name, self.w2i, self.i2w = name, w2i, i2w
        self.calls = []

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        self.calls.append(("i2w", image_coordinate.x, image_coordinate.y, elevation_model,
                           dict(options) if options is not None else None, options))
        return GeodeticWorldCoordinate(self.i2w(image_coordinate.x, image_coordinate.y))

    def world_to_image(self, world_coordinate):
        self.calls.append(("w2i", world_coordinate.longitude, world_coordinate.latitude, world_coordinate.elevation))
        return ImageCoordinate(self.w2i(world_coordinate.longitude, world_coordinate.latitude, world_coordinate.elevation))


def warm_world(env, m, n=1):
    """n unrelated world_to_image queries first: a model's answer depends on the query alone"""
    for k in range(n):
        g = GeodeticWorldCoordinate([env.real(f"warm_lon{k}", -3.1, 3.1), env.real(f"warm_lat{k}", -1.5, 1.5), env.real(f"warm_h{k}", -100, 5000)])
        env.no_raise(lambda: m.world_to_image(g), "an earlier world_to_image")


def warm_image(env, m, lo=-100, hi=9000, **kw):
    """an unrelated image_to_world query first"""
    c = ImageCoordinate([env.real("warm_x", lo, hi), env.real("warm_y", lo, hi)])
    env.no_raise(lambda: m.image_to_world(c, **kw), "an earlier image_to_world")


def affine2(env, tag, lo=-3, hi=3, nz=None):
    """symbolic 2x3 affine map"""
    k = [env.real(f"{tag}{i}", lo, hi) for i in range(6)]
    return lambda x, y, *_: [k[0] + k[1] * x + k[2] * y, k[3] + k[4] * x + k[5] * y]


# ------------------------------------------------------------------------------------------- PROJ geodetic <-> geocentric
import math as _math

import numpy as _np
import pyproj as _pyproj

from symx import core as _core


class EcefStub:
    """Uninterpreted geodetic -> geocentric map and its inverse (mutually inverse on every point used)."""

    def __init__(self, env):
        self.env, self.done = env, set()
        self.pair, self.keep = {}, []  # images already computed (the maps are mutually inverse)
        self.log = []  # positions converted to geodetic

    def _f(self, n, a):
        return _core.uf(n, *a)

    def _key(self, a):
        es = [_core.som(_core.Sym.const(x).expr()) for x in a]
        self.keep.append(es)  # z3 uses the ids of dropped terms again
        return tuple(e.get_id() for e in es)

    def fwd(self, a):
        hit = self.pair.get(("f",) + self._key(a))
        if hit is not None:
            return list(hit)
        out = self._fwd(a)
        self.pair[("i",) + self._key(out)] = [_core.Sym.const(x) for x in a]
        self.keep.append((a, out))
        return out

    def inv(self, a):
        hit = self.pair.get(("i",) + self._key(a))
        if hit is not None:
            return list(hit)
        out = self._inv(a)
        self.pair[("f",) + self._key(out)] = [_core.Sym.const(x) for x in a]
        self.keep.append((a, out))
        return out

    def _fwd(self, a):
        out = [self._f(f"ecef{i}", a) for i in range(3)]
        self._ax("ecef", "geod", a, out)
        return out

    def _inv(self, a):
        out = [self._f(f"geod{i}", a) for i in range(3)]
        self._ax("geod", "ecef", a, out)
        return out

    def _ax(self, f, g, a, out):
        key = (f,) + tuple(o.expr().get_id() for o in out)
        if key in self.done:
            return
        self.done.add(key)
        for i in range(3):
            b = self._f(f"{g}{i}", out)
            _core.ctx().cons.append(_core.bexpr(b == _core.Sym.const(a[i])))


_REAL_TRANSFORM = _pyproj.Transformer.transform
_KINDS = {}


def _ecef_formula(lon, lat, h):
    a, e2 = 6378137.0, 6.69437999014132e-3
    n = a / _math.sqrt(1 - e2 * _math.sin(lat) ** 2)
    return [(n + h) * _math.cos(lat) * _math.cos(lon), (n + h) * _math.cos(lat) * _math.sin(lon),
            (n * (1 - e2) + h) * _math.sin(lat)]


def transformer_kind(t):
    """What a PROJ transformer computes, found by asking it: (kind, longitude first?, forward is geographic -> projected?)"""
    hit = _KINDS.get(id(t))
    if hit is not None:
        return hit[1]

    def close(a, b):
        return len(a) == len(b) and all(abs(x - y) <= 1e-6 + 1e-9 * abs(y) for x, y in zip(a, b))

    def ask(*a):
        try:
            return list(_REAL_TRANSFORM(t, *a, radians=True))
        except Exception:  # noqa
            return []

    lon, lat, h, r = 0.3, 0.4, 100.0, None
    e, m = _ecef_formula(lon, lat, h), [6378137.0 * lon, 6378137.0 * _math.asinh(_math.tan(lat))]
    if close(ask(lon, lat, h), e):
        r = ("ecef", True, True)
    elif close(ask(lat, lon, h), e):
        r = ("ecef", False, True)
    elif close(ask(*e), [lon, lat, h]):
        r = ("ecef", True, False)
    elif close(ask(*e), [lat, lon, h]):
        r = ("ecef", False, False)
    elif close(ask(lon, lat), m):
        r = ("merc", True, True)
    elif close(ask(lat, lon), m):
        r = ("merc", False, True)
    elif close(ask(*m), [lon, lat]):
        r = ("merc", True, False)
    elif close(ask(*m), [lat, lon]):
        r = ("merc", False, False)
    _KINDS[id(t)] = (t, r)
    return r


def transformers(env, **stubs):
    """Answer every PROJ transformer of a kind by the stand-in for that kind; stubs: ecef(forward, [lon, lat, h]) or merc(forward, ...)"""

    def transform(self, xx, yy, zz=None, tt=None, radians=False, errcheck=False, direction="FORWARD", inplace=False):
        kind = transformer_kind(self)
        if kind is None or kind[0] not in stubs:
            return _REAL_TRANSFORM(self, xx, yy, *[v for v in (zz, tt) if v is not None], radians=radians, errcheck=errcheck,
                                   direction=direction)
        direction = getattr(direction, "value", direction).upper()
        if any(isinstance(v, (list, tuple, _np.ndarray)) for v in (xx, yy, zz)):
            many = lambda c: isinstance(c, (list, tuple, _np.ndarray))  # noqa
            rows = [transform(self, *[c[i] if many(c) else c for c in (xx, yy, zz)], radians=radians, direction=direction) for i in range(len(xx))]
            out = tuple(list(c) for c in zip(*rows))
            return tuple(env.arr(c) for c in out) if isinstance(xx, _np.ndarray) else out
        if direction not in ("FORWARD", "INVERSE"):
            raise _core.Unsupported("transform direction")
        fwd = (direction == "FORWARD") == kind[2]
        k = 1 if radians else env.num(_math.pi) / 180
        a = [xx, yy] + ([zz] if zz is not None else [])
        if kind[0] == "ecef" and len(a) == 2:
            a.append(0.0)
        if fwd:
            a = [(a[0] if kind[1] else a[1]) * k, (a[1] if kind[1] else a[0]) * k] + a[2:]
            return tuple(stubs[kind[0]](True, a))
        r = list(stubs[kind[0]](False, a))
        g = [r[0] / k, r[1] / k]
        return tuple((g if kind[1] else g[::-1]) + r[2:])

    def itransform(self, points, switch=False, time_3rd=False, radians=False, errcheck=False, direction="FORWARD"):
        if switch or time_3rd:
            raise _core.Unsupported("itransform options")
        for p in points:
            yield transform(self, *p, radians=radians, direction=direction)

    env.patch.attr(_pyproj.Transformer, "transform", transform)
    env.patch.attr(_pyproj.Transformer, "itransform", itransform)


def ecef(env):
    """Install the stand-in (symbolic mode); returns fwd(lon,lat,h) used by oracles."""
    if env.symbolic:
        st = EcefStub(env)

        def answer(forward, a):
            if forward:
                return st.fwd(a)
            r = st.inv(a)
            st.log.append((a, r))
            return r

        transformers(env, ecef=answer)
        g = lambda lon, lat, h: st.fwd([lon, lat, h])  # noqa
        g.log, g.stub = st.log, st
        return g

    def f(lon, lat, h):
        return _ecef_formula(lon, lat, h)

    f.log = None
    return f


# -------------------------------------------------------------------------------------------------------- optimiser stub
import types as _types

import scipy.optimize as _so


class HoleElevation(PlaneElevation):
    """an elevation model without coverage: leaves the coordinate alone"""

    def set_elevation(self, c):
        self.calls.append((c.longitude, c.latitude))


def stub_minimize(env, answer, log):
    """scipy.optimize.minimize that records how it was called and settles on `answer`."""

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        log.append(dict(fun=fun, x0=x0, method=method, bounds=bounds, options=dict(options or {}), tol=tol, args=args))
        x = env.arr([answer[0], answer[1]])
        return _types.SimpleNamespace(x=x, fun=0.0, success=True, status=0, message="ok", nit=10, nfev=20)

    env.patch.obj(_so.minimize, minimize, owner=_so, attr="minimize")


def elevation_kind(env, kind, tag=""):
    if kind == "none":
        return None, None
    if kind == "plane":
        el = PlaneElevation(env.real(tag + "e0", -100, 3000), env.real(tag + "ex", -50, 50), env.real(tag + "ey", -50, 50))
        return el, el.at
    return HoleElevation(0.0), None


def check_search(env, rec, w2i, target, default_h, at, guess, dist, probe):
    """Claims about one recorded search."""
    env.require(env.eq(rec["x0"][0], guess[0]), "search starts at the guess, longitude")
    env.require(env.eq(rec["x0"][1], guess[1]), "search starts at the guess, latitude")
    o = rec["options"]
    sx = o.get("initial_simplex")
    if sx is not None:
        env.require(len(sx) == 3 and all(len(v) == 2 for v in sx), "initial simplex is a triangle")
        for k in range(2):
            env.require(env.eq((sx[0][k] + sx[1][k] + sx[2][k]) / 3, guess[k]), "initial simplex is centred on the guess")
        for a, b in ((0, 1), (1, 2), (0, 2)):
            d2 = (sx[a][0] - sx[b][0]) * (sx[a][0] - sx[b][0]) + (sx[a][1] - sx[b][1]) * (sx[a][1] - sx[b][1])
            env.require(env.eq(d2, dist * dist, 1e-9, 1e-5), "initial simplex has the search distance as side length")
    env.require(rec["tol"] is None or rec["tol"] <= 1e-6, "search tolerance at least as fine as 1e-6 degree and half a pixel")
    env.require(o.get("xatol", 1e-4) <= 1.7453293e-08, "position tolerance is at most 1e-6 degree")
    env.require(o.get("fatol", 1e-4) <= 0.5, "pixel tolerance is at most half a pixel")
    env.require(o.get("maxiter") is None or o["maxiter"] >= 400, "enough iterations")
    env.require(o.get("maxfev") is None or o["maxfev"] >= 400, "enough evaluations")
    lon, lat = probe
    v = env.no_raise(lambda: rec["fun"](env.arr([lon, lat]), *rec["args"]), "search objective")
    h = at(lon, lat) if at else default_h
    q = w2i(lon, lat, h)
    dx, dy = q[0] - target[0], q[1] - target[1]
    env.require(v >= 0, "search objective is a distance")
    env.require(env.eq(v * v, dx * dx + dy * dy, 1e-3, 1e-5), "search objective is the pixel distance at the terrain height")
