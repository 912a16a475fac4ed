"""Stand-ins for shapely geometries whose coordinates are symbolic (boundary: shapely / GEOS)."""
import json

import numpy as np
import shapely
import shapely.geometry
import shapely.ops
import z3

from symx import core
from symx.npshim import mkarr

INF = float("inf")


def _and(*bs):
    return core.mkbool(z3.And(*[core.bexpr(b) for b in bs]))


def _min(vs, sign=1):
    r = core.Sym.const(vs[0])
    for v in vs[1:]:
        d = (v - r) * sign
        less = d < 0
        r = core.ite(less, core.Sym.const(v), r) if isinstance(less, core.SymBool) else v if less else r
    return r


def _max(vs):
    return _min(vs, -1)


def _pt(c):
    if isinstance(c, Point):
        return c.pts[0]
    c = list(c)
    if len(c) not in (2, 3):
        raise ValueError("coordinates must have 2 or 3 numbers")
    return tuple(core.Sym.const(v) if not isinstance(v, core.Sym) else v for v in c)


class Coords(list):
    @property
    def xy(self):
        return [c[0] for c in self], [c[1] for c in self]

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return list(r) if isinstance(i, slice) else r


class Geometry:
    def points(self):
        return list(self.pts)

    @property
    def geom_type(self):
        return type(self).__name__

    type = geom_type

    @property
    def is_empty(self):
        return not self.points()

    @property
    def has_z(self):
        return any(len(p) == 3 for p in self.points())

    @property
    def bounds(self):
        p = self.points()
        if not p:
            return (float("nan"),) * 4
        return (_min([c[0] for c in p]), _min([c[1] for c in p]), _max([c[0] for c in p]), _max([c[1] for c in p]))

    @property
    def coords(self):
        if not hasattr(self, "pts"):
            raise NotImplementedError("Multi-part geometries do not provide a coordinate sequence")
        return Coords(self.pts)

    def weight(self):
        """dimension, weight, weighted centre"""
        raise core.Unsupported("centroid of " + self.geom_type)

    @property
    def centroid(self):
        w = self.parts()
        top = max(d for d, _, _ in w)
        w = [x for x in w if x[0] == top]
        tot = w[0][1]
        for x in w[1:]:
            tot = tot + x[1]
        cx, cy = w[0][2]
        for x in w[1:]:
            cx, cy = cx + x[2][0], cy + x[2][1]
        return Point((cx / tot, cy / tot))

    def __eq__(self, o):
        raise core.Unsupported("comparing geometries")

    __hash__ = object.__hash__

    @property
    def __geo_interface__(self):
        return mapping(self)

    @property
    def envelope(self):
        b = self.bounds
        return box(*b)

    def intersects(self, o):
        return intersects(self, o)

    def disjoint(self, o):
        return core.mknot(intersects(self, o))

    def distance(self, o):
        return distance(self, o)

    def dwithin(self, o, d):
        return distance(self, o) <= d

    def covers(self, o):
        a, b = rect(self), rect(o)
        return _and(a[0] <= b[0], a[1] <= b[1], b[2] <= a[2], b[3] <= a[3])

    def covered_by(self, o):
        return o.covers(self)


class Point(Geometry):
    def __init__(self, *a):
        self.pts = [_pt(a[0] if len(a) == 1 else a)]

    x = property(lambda s: s.pts[0][0])
    y = property(lambda s: s.pts[0][1])
    z = property(lambda s: s.pts[0][2])

    def parts(self):
        p = self.pts[0]
        return [(0, core.Sym.const(1), (p[0], p[1]))]


class LineString(Geometry):
    def __init__(self, coordinates=()):
        if isinstance(coordinates, Geometry):
            coordinates = coordinates.coords
        self.pts = [_pt(c) for c in coordinates]
        if len(self.pts) == 1:
            raise ValueError("a line needs two points")

    def parts(self):
        out = []
        for a, b in zip(self.pts, self.pts[1:]):
            dx, dy = b[0] - a[0], b[1] - a[1]
            n = core.sqrt(dx * dx + dy * dy)
            out.append((1, n, (n * (a[0] + b[0]) / 2, n * (a[1] + b[1]) / 2)))
        return out


class LinearRing(LineString):
    def __init__(self, coordinates=()):
        super().__init__(coordinates)
        if self.pts and not all(bool(u == v) for u, v in zip(self.pts[0], self.pts[-1])):
            self.pts.append(self.pts[0])
        if len(self.pts) < 4:
            raise ValueError("a ring needs four points")

    def area(self):
        s, cx, cy = core.Sym.const(0), core.Sym.const(0), core.Sym.const(0)
        for a, b in zip(self.pts, self.pts[1:]):
            k = a[0] * b[1] - b[0] * a[1]
            s, cx, cy = s + k, cx + (a[0] + b[0]) * k, cy + (a[1] + b[1]) * k
        return s / 2, cx / 6, cy / 6


class Polygon(Geometry):
    def __init__(self, shell=None, holes=None):
        self.exterior = shell if isinstance(shell, LinearRing) else LinearRing(shell)
        self.interiors = [LinearRing(h) for h in (holes or [])]

    def points(self):
        return list(self.exterior.pts)

    @property
    def coords(self):
        raise NotImplementedError("Component rings have coordinate sequences, but the polygon does not")

    def parts(self):
        out = []
        for k, r in enumerate([self.exterior] + self.interiors):
            s, cx, cy = r.area()
            neg = bool(s < 0) != (k > 0)
            out.append((2, -s if neg else s, (-cx, -cy) if neg else (cx, cy)))
        return out


class Multi(Geometry):
    part = None

    def __init__(self, parts=()):
        if isinstance(parts, Multi):
            parts = parts.geoms
        self.geoms = [p if isinstance(p, Geometry) else type(self).part(p) for p in parts]

    def points(self):
        return [q for p in self.geoms for q in p.points()]

    def parts(self):
        return [w for p in self.geoms for w in p.parts()]


class MultiPoint(Multi):
    part = Point


class MultiLineString(Multi):
    part = LineString


class MultiPolygon(Multi):
    part = Polygon

    def __init__(self, polygons=()):
        self.geoms = [p if isinstance(p, Polygon) else Polygon(p[0], p[1] if len(p) > 1 else None) for p in polygons]


class GeometryCollection(Multi):
    pass


def box(minx=None, miny=None, maxx=None, maxy=None, ccw=True, xmin=None, ymin=None, xmax=None, ymax=None):
    x0, y0, x1, y1 = [a if a is not None else b for a, b in zip((minx, miny, maxx, maxy), (xmin, ymin, xmax, ymax))]
    r = [(x1, y0), (x1, y1), (x0, y1), (x0, y0)]
    return Polygon((r if ccw else r[::-1]) + [r[0] if ccw else r[-1]])


def shape(c):
    if isinstance(c, Geometry):
        return c
    d = getattr(c, "__geo_interface__", c)
    t = d.get("type").lower()
    if t == "feature":
        return shape(d.get("geometry"))
    if t == "geometrycollection":
        return GeometryCollection([shape(g) for g in d.get("geometries", [])])
    co = d["coordinates"]
    if t == "polygon":
        return Polygon(co[0], co[1:])
    if t == "multipolygon":
        return MultiPolygon([Polygon(p[0], p[1:]) for p in co])
    for k in (Point, LineString, LinearRing, MultiPoint, MultiLineString):
        if k.__name__.lower() == t:
            return k(co)
    raise ValueError("Unknown geometry type: " + t)


def mapping(g):
    if not isinstance(g, Geometry):
        return g.__geo_interface__
    d = {"type": g.geom_type}
    if isinstance(g, GeometryCollection):
        d["geometries"] = [mapping(p) for p in g.geoms]
    elif isinstance(g, Point):
        d["coordinates"] = g.pts[0]
    elif isinstance(g, LineString):
        d["coordinates"] = tuple(g.pts)
    elif isinstance(g, Polygon):
        d["coordinates"] = tuple(tuple(r.pts) for r in [g.exterior] + g.interiors)
    else:
        d["coordinates"] = tuple(mapping(p)["coordinates"] for p in g.geoms)
    return d


class Token(str):
    """JSON text of a document with symbolic numbers"""


def _lists(v):
    if isinstance(v, dict):
        return {k: _lists(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_lists(x) for x in v]
    return v


def to_geojson(g, indent=None, **k):
    t = Token("{}")
    t.doc = mapping(g)
    if t.doc["type"] == "LinearRing":
        t.doc["type"] = "LineString"
    return t


_loads = json.loads


def _symbolic(v):
    if isinstance(v, dict):
        return any(_symbolic(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(_symbolic(x) for x in v)
    return isinstance(v, core.Sym)


_dumps = json.dumps


def dumps(v, *a, **k):
    if not _symbolic(v):
        return _dumps(v, *a, **k)
    t = Token("{}")
    t.doc = _lists(v)
    return t


def loads(s, *a, **k):
    return _lists(s.doc) if isinstance(s, Token) else _loads(s, *a, **k)


def rect(g):
    """axis-aligned box of a point or box"""
    if isinstance(g, Point):
        x, y = g.pts[0][:2]
        return x, y, x, y
    if isinstance(g, Polygon) and len(g.exterior.pts) == 5 and not g.interiors:
        return g.bounds
    raise core.Unsupported("spatial index of geometries other than points and boxes")


def intersects(a, b):
    a, b = rect(a), rect(b)
    return _and(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3])


def distance(a, b):
    a, b = rect(a), rect(b)
    z = core.Sym.const(0)
    dx = core.ite(a[0] > b[2], a[0] - b[2], core.ite(b[0] > a[2], b[0] - a[2], z))
    dy = core.ite(a[1] > b[3], a[1] - b[3], core.ite(b[1] > a[3], b[1] - a[3], z))
    for u, v in ((dx, dy), (dy, dx)):
        if not isinstance(u, core.Sym) or u.c is not None and u.c == 0:
            return v
    return core.sqrt(dx * dx + dy * dy)


def get_coordinates(g, include_z=False, return_index=False):
    if return_index:
        raise core.Unsupported("get_coordinates with indexes")
    if isinstance(g, (list, tuple)):
        return mkarr([list(c[:3 if include_z else 2]) for x in g for c in _all(x)])
    return mkarr([list(c[:3 if include_z else 2]) for c in _all(g)])


def _all(g):
    if isinstance(g, Polygon):
        return [c for r in [g.exterior] + g.interiors for c in r.pts]
    if isinstance(g, Multi):
        return [c for p in g.geoms for c in _all(p)]
    return list(g.pts)


def rebuild(g, f):
    """the same kind of geometry with other coordinates; f maps a list of positions to a list of positions"""
    if isinstance(g, Polygon):
        return Polygon(f(g.exterior.pts), [f(r.pts) for r in g.interiors])
    if isinstance(g, Multi):
        return type(g)([rebuild(p, f) for p in g.geoms])
    if isinstance(g, Point):
        return Point(f(g.pts)[0])
    return type(g)(f(g.pts))


def ops_transform(func, g):
    def f(pts):
        r = func(*[list(c) for c in zip(*pts)])
        return list(zip(*[list(c) for c in r]))

    def one(pts):
        return [func(*p) for p in pts]

    try:
        return rebuild(g, f)
    except TypeError:
        return rebuild(g, one)


def array_transform(g, func, include_z=False):
    def f(pts):
        return [tuple(r) for r in func(mkarr([list(p[:3 if include_z else 2]) for p in pts]))]

    return rebuild(g, f)


class STRtree:
    def __init__(self, geoms, node_capacity=10):
        self.geometries = list(geoms)
        if any(g is not None and not isinstance(g, Geometry) for g in self.geometries):
            raise TypeError("an index of geometries")

    def query(self, geometry, predicate=None, distance=None):
        if predicate not in _PRED or (distance is not None) != (predicate == "dwithin"):
            raise core.Unsupported("predicate " + str(predicate))
        hit = [i for i, g in enumerate(self.geometries) if g is not None and bool(_PRED[predicate](geometry, g, distance))]
        return np.array(hit, dtype=np.int64)

    def query_nearest(self, geometry, max_distance=None, return_distance=False, exclusive=False, all_matches=True):
        if exclusive:
            raise core.Unsupported("query_nearest options")
        if max_distance is not None and bool(max_distance <= 0):
            raise ValueError("max_distance must be greater than 0")
        d = [(i, distance(g, geometry)) for i, g in enumerate(self.geometries) if g is not None]
        if max_distance is not None:
            d = [(i, x) for i, x in d if bool(x <= max_distance)]
        best = [(i, x) for i, x in d if all(bool(x <= y) for j, y in d if j != i)]
        best = best if all_matches else best[:1]
        at = np.array([i for i, x in best], dtype=np.int64)
        return (at, mkarr([x for i, x in best])) if return_distance else at

    def nearest(self, geometry):
        at = self.query_nearest(geometry, all_matches=False)
        return at[0] if len(at) else None


_PRED = {None: lambda q, g, d: intersects(g, q), "intersects": lambda q, g, d: intersects(g, q), "dwithin": lambda q, g, d: distance(g, q) <= d,
         "covers": lambda q, g, d: q.covers(g), "covered_by": lambda q, g, d: g.covers(q)}


NAMES = dict(Point=Point, LineString=LineString, LinearRing=LinearRing, Polygon=Polygon, MultiPoint=MultiPoint, MultiLineString=MultiLineString,
             MultiPolygon=MultiPolygon, GeometryCollection=GeometryCollection, box=box, shape=shape, mapping=mapping, to_geojson=to_geojson, STRtree=STRtree, Geometry=Geometry,
             intersects=intersects, distance=distance, get_coordinates=get_coordinates, transform=array_transform)


def install(env):
    """-> namespace with the geometry constructors to use in a harness"""
    class NS:
        pass

    ns = NS()
    for k, v in NAMES.items():
        setattr(ns, k, v if env.symbolic else getattr(shapely, k, None) or getattr(shapely.geometry, k))
    if env.symbolic:
        for k, v in NAMES.items():
            for o in (shapely, shapely.geometry):
                if hasattr(o, k):
                    env.patch.obj(getattr(o, k), v, owner=o, attr=k)
        for o in (shapely.strtree,):
            env.patch.attr(o, "STRtree", STRtree)
        env.patch.attr(shapely.ops, "transform", ops_transform)
        env.patch.attr(json, "loads", loads)
        env.patch.attr(json, "dumps", dumps)
    return ns
