"""C24 - web mercator map tiles: bounds of a tile and the tile of a location."""
import math

from aws.osml.image_processing import MapTileId, MapTileSetFactory, WellKnownMapTileSet
from aws.osml.photogrammetry import GeodeticWorldCoordinate

from symx import core as _core

from .common import transformers

BOUNDS = ("both tile sets, zoom levels 0, 1, 2, 10, 21 (thorough 0..24), every tile of a level, every location of the covered area (west edge included), areas of up to 6 "
          "points; the mercator latitude map is any strictly increasing map with the right limits")
OUTSIDE = "PROJ itself; locations beyond the 85.05 degree limits; rows counted from the south as the tests fix it"
PI = math.pi
SHIFT = 20037508.342789244
LIM = 1.4844222297453322  # latitude of the square's edge


class Merc:
    """x is proportional to the longitude, y strictly increasing with the latitude; FORWARD takes (lat, lon), INVERSE (x, y)"""

    def __init__(self, env):
        self.env, self.pairs, self.seen, self.inv_seen, self.keep = env, [], {}, {}, []
        self._add(_core.Sym.const(LIM), _core.Sym.const(SHIFT))
        self._add(_core.Sym.const(-LIM), _core.Sym.const(-SHIFT))
        for s in (1, -1):  # the mercator map itself at the ends of the latitudes used below, 60 m off the edge of the map
            self._add(_core.Sym.const(s * 1.48442), _core.Sym.const(s * round(SHIFT / PI * math.asinh(math.tan(1.48442)), 3)))

    def _key(self, x):
        e = _core.som(_core.Sym.const(x).expr())
        self.keep.append(e)  # ids of dropped terms are used again
        return e.get_id()

    def _add(self, lat, y):
        for a, b in self.pairs:
            _core.ctx().cons.append(_core.bexpr(a < lat) == _core.bexpr(b < y))
            _core.ctx().cons.append(_core.bexpr(lat < a) == _core.bexpr(y < b))
        self.pairs.append((lat, y))
        self.seen[self._key(lat)], self.inv_seen[self._key(y)] = y, lat

    def y(self, lat):
        lat = _core.Sym.const(lat)
        if self._key(lat) not in self.seen:
            self._add(lat, _core.uf("merc", lat))
        return self.seen[self._key(lat)]

    def lat(self, y):
        y = _core.Sym.const(y)
        if self._key(y) not in self.inv_seen:
            self._add(_core.uf("mercinv", y), y)
        return self.inv_seen[self._key(y)]

    def answer(self, forward, a):
        r = self.env.num(SHIFT) / self.env.num(PI)
        if forward:
            return [a[0] * r, self.y(a[1])] + list(a[2:])
        return [a[0] / r, self.lat(a[1])] + list(a[2:])


def merc(env):
    if env.symbolic:
        m = Merc(env)
        transformers(env, merc=m.answer)
        return m.y
    return lambda lat: SHIFT / PI * math.asinh(math.tan(lat))


def tiles(env, x2):
    w = WellKnownMapTileSet.WEB_MERCATOR_QUAD_X2 if x2 else WellKnownMapTileSet.WEB_MERCATOR_QUAD
    t = MapTileSetFactory.get_for_id(w.value)
    env.require(t is not None and t.tile_matrix_set_id == w.value, "the tile set with that id")
    return t, (512 if x2 else 256)


def get_tile(env, z, x2):
    m = merc(env)
    ts, size = tiles(env, x2)
    n = 2**z
    c, r = env.int("col", 0, n - 1), env.int("row", 0, n - 1)
    i = MapTileId(tile_matrix=z, tile_row=r, tile_col=c)
    t = env.no_raise(lambda: ts.get_tile(i), "get_tile")
    env.require(t.id == i and tuple(t.size) == (size, size), "id and size of the tile")
    b = t.bounds
    w = 2 * env.num(PI) / n
    env.require(env.eq(b[0], -env.num(PI) + c * w, 1e-9, 1e-9), "west edge")
    env.require(env.eq(b[2], -env.num(PI) + (c + 1) * w, 1e-9, 1e-9), "east edge")
    h = 2 * env.num(SHIFT) / n
    env.require(env.eq(m(b[1]), -env.num(SHIFT) + r * h, 1e-2, 1e-8), "south edge: rows have equal height in the projection")
    env.require(env.eq(m(b[3]), -env.num(SHIFT) + (r + 1) * h, 1e-2, 1e-8), "north edge: rows have equal height in the projection")


def locate(env, z, x2, edge):
    merc(env)
    ts, size = tiles(env, x2)
    lon = env.num(-PI) if edge == "w" else (env.num(PI) - 1e-9 if env.symbolic else PI) if edge == "e" else env.real("lon", -3.14159, 3.14159)
    lat = env.real("lat", -1.48442, 1.48442)
    g = GeodeticWorldCoordinate([lon, lat, env.real("h", -100, 9000)])
    t = env.no_raise(lambda: ts.get_tile_for_location(g, z), "get_tile_for_location")
    b = t.bounds
    e = 1e-9
    env.require(t.id.tile_matrix == z, "zoom level of the tile")
    env.require(env.And(t.id.tile_col >= 0, t.id.tile_col <= 2**z - 1), "the column exists at that zoom level")
    env.require(env.And(t.id.tile_row >= 0, t.id.tile_row <= 2**z - 1), "the row exists at that zoom level")
    env.require(env.And(b[0] <= lon + e, lon <= b[2] + e), "the tile contains the location's longitude")
    env.require(env.And(b[1] <= lat + e, lat <= b[3] + e), "the tile contains the location's latitude")
    env.require(env.And(env.eqb(g.longitude, lon), env.eqb(g.latitude, lat)), "the location is not modified")
    u = env.no_raise(lambda: ts.get_tile(t.id), "get_tile")
    env.require_all_eq(list(u.bounds), list(b), "the tile is the one with that id", 1e-9)


def area(env, z, x2, n):
    merc(env)
    ts, size = tiles(env, x2)
    P = [GeodeticWorldCoordinate([env.real(f"lon{k}", -3.14, 3.14), env.real(f"lat{k}", -1.484, 1.484), 0]) for k in range(n)]
    r = env.no_raise(lambda: ts.get_tile_matrix_limits_for_area(P, z), "get_tile_matrix_limits_for_area")
    ids = [ts.get_tile_for_location(p, z).id for p in P]
    for got, vals, f in ((r[0], [i.tile_col for i in ids], 0), (r[1], [i.tile_row for i in ids], 0), (r[2], [i.tile_col for i in ids], 1), (r[3], [i.tile_row for i in ids], 1)):
        env.require(env.And(*[(v <= got if f else got <= v) for v in vals]), "all points lie within the tile limits (min col, min row, max col, max row)")
        env.require(env.Or(*[env.eqb(v, got) for v in vals]), "the tile limits are tight")


def ids(env):
    for w in WellKnownMapTileSet:
        t = MapTileSetFactory.get_for_id(w.value)
        env.require(t is not None and t.tile_matrix_set_id == w.value, "every well known tile set exists under its id")
    env.require(MapTileSetFactory.get_for_id("x" + env.choice("s", ["", "1"])) is None, "unknown ids have no tile set")


def cases(tier):
    q = tier == "quick"
    cs = [dict(name="ids", body=ids)]
    for i, z in enumerate((0, 1, 2, 10, 21) if q else range(25)):
        for x2 in ((i % 2,) if q else (0, 1)):
            cs.append(dict(name=f"tile-{z}-{x2}", body=get_tile, params=dict(z=z, x2=x2)))
            cs += [dict(name=f"locate-{z}-{x2}{e}", body=locate, params=dict(z=z, x2=x2, edge=e)) for e in ("", "w", "e")]
    for z in ((0, 3, 12) if q else (0, 1, 3, 6, 12, 18)):
        for n in ((1, 2, 3) if z == 3 else (2,)) if q else (1, 2, 3):
            cs.append(dict(name=f"area-{z}-{n}", body=area, params=dict(z=z, x2=z % 2, n=n)))
    for n in (4, 5, 6):
        cs.append(dict(name=f"area-1-{n}", body=area, params=dict(z=1, x2=0, n=n)))
    return cs
