"""C30 - image geometries of features: reading, writing and finding them."""
import copy

import geojson

from aws.osml.features import ImagedFeaturePropertyAccessor, STRFeature2DSpatialIndex

from . import geom

BOUNDS = ("points, lines, rings, polygons with up to one hole, multi geometries and collections with symbolic coordinates; every combination of the five image geometry properties; "
          "index of 3 (thorough 4) features with and without geometry, symbolic boxes and points as features and queries")
OUTSIDE = "shapely's own predicates and distances (stand-in: points and axis-aligned boxes); near ties (1e-6) of distances and touching edges"
PROPS = ("imageGeometry", "imageBBox", "geom_imcoords", "detection", "bounds_imcoords")


def near(env, a, b):
    return env.And(a - b <= 1e-6, b - a <= 1e-6)


def pts(env, name, n):
    return [[env.real(f"{name}x{i}", 0, 4000), env.real(f"{name}y{i}", 0, 4000)] for i in range(n)]


def rectangle(env, name):
    x, y = env.real(name + "x", 0, 4000), env.real(name + "y", 0, 4000)
    w, h = env.real(name + "w", 1, 200), env.real(name + "h", 1, 200)
    return x, y, x + w, y + h


def quad(env, name):
    """a ring with four different corners"""
    x0, y0, x1, y1 = rectangle(env, name)
    d = env.real(name + "d", 0, 0.5)
    return [[x0, y0 + d], [x1, y0], [x1 + d, y1], [x0, y1], [x0, y0 + d]]


def doc(env, kind, name="g"):
    """GeoJSON style geometry document"""
    if kind == "Point":
        return {"type": kind, "coordinates": pts(env, name, 1)[0]}
    if kind == "LineString":
        return {"type": kind, "coordinates": pts(env, name, 3)}
    if kind == "Polygon":
        return {"type": kind, "coordinates": [quad(env, name)]}
    if kind == "Hole":
        x, y, X, Y = rectangle(env, name)
        k = [[x + (X - x) * a, y + (Y - y) * b] for a, b in ((0.25, 0.25), (0.5, 0.5), (0.25, 0.5), (0.25, 0.25))]
        return {"type": "Polygon", "coordinates": [[[x, y], [X, y], [X, Y], [x, Y], [x, y]], k]}
    if kind == "MultiPoint":
        return {"type": kind, "coordinates": pts(env, name, 2)}
    if kind == "MultiLineString":
        return {"type": kind, "coordinates": [pts(env, name + "a", 2), pts(env, name + "b", 2)]}
    if kind == "MultiPolygon":
        return {"type": kind, "coordinates": [[quad(env, name + "a")], [quad(env, name + "b")]]}
    return {"type": "GeometryCollection", "geometries": [doc(env, "Point", name + "p"), doc(env, "LineString", name + "l")]}


def flat(x):
    """coordinates of a geometry or document as a flat list with the structure in between"""
    if x is None or isinstance(x, str):
        return [str(x)]
    if isinstance(x, dict) or hasattr(x, "geom_type"):
        d = x if isinstance(x, dict) else (geom.mapping(x) if isinstance(x, geom.Geometry) else x.__geo_interface__)
        if "geometries" in d:
            return [d["type"]] + [v for g in d["geometries"] for v in flat(g)]
        return [d["type"]] + flat(d["coordinates"])
    if isinstance(x, (list, tuple)):
        return ["["] + [v for e in x for v in flat(e)] + ["]"]
    return [x]


def same(env, a, b, msg):
    a, b = flat(a), flat(b)
    if not env.require(len(a) == len(b) and all(isinstance(u, str) == isinstance(v, str) and (u == v or not isinstance(u, str)) for u, v in zip(a, b)), msg + " (structure)"):
        return
    env.require(env.And(*[near(env, u, v) for u, v in zip(a, b) if not isinstance(u, str)]), msg)


def box_is(env, g, b, msg):
    """an axis-aligned box polygon"""
    ok = g is not None and g.geom_type == "Polygon" and not list(g.interiors)
    if env.require(ok, msg + ": a rectangle"):
        env.require(env.And(*[near(env, u, v) for u, v in zip(g.bounds, b)]), msg)


def setter(env, kind):
    ns = geom.install(env)
    d = doc(env, kind)
    g = ns.shape(d)
    f = geojson.Feature(geometry=None, properties={"name": "x", "imageBBox": [1, 2, 3, 4]})
    A = ImagedFeaturePropertyAccessor
    env.no_raise(lambda: A.set_image_geometry(f, g), "set_image_geometry")
    same(env, f.properties["imageGeometry"], d, "the geometry is stored as type and coordinates")
    same(env, A.get_image_geometry(f), d, "the geometry set is the geometry read")
    same(env, A().find_image_geometry(f), d, "the geometry set is the geometry found")
    env.require(f.properties["imageBBox"] == [1, 2, 3, 4] and f.properties["name"] == "x", "other properties stay")
    f = geojson.Feature(geometry=None, properties={"name": "x"})
    env.require(A.get_image_geometry(f) is None and A.get_image_bbox(f) is None and A().find_image_geometry(f) is None, "nothing to read before it is set")
    env.no_raise(lambda: A.set_image_bbox(f, g), "set_image_bbox")
    b = f.properties["imageBBox"]
    xy = g.bounds
    env.require(isinstance(b, list) and len(b) == 4, "a bounding box of four numbers")
    env.require(env.And(*[near(env, u, v) for u, v in zip(b, xy)]), "bounding box is min x, min y, max x, max y of the geometry")
    box_is(env, A.get_image_bbox(f), xy, "the bounding box read")
    box_is(env, A(allow_deprecated=False).find_image_geometry(f), xy, "the bounding box found")


def props(env, have):
    """a different place in every property"""
    P, want = {"other": 5}, {}
    if have & 1:
        P["imageGeometry"] = want["imageGeometry"] = doc(env, "Polygon", "g")
    if have & 2:
        want["imageBBox"] = rectangle(env, "b")
        P["imageBBox"] = list(want["imageBBox"])
    if have & 4:
        q = quad(env, "i")
        P["geom_imcoords"] = q
        want["geom_imcoords"] = {"type": "Polygon", "coordinates": [q]}
    if have & 8:
        c = doc(env, "LineString", "t")
        P["detection"] = {"type": c["type"], "pixelCoordinates": c["coordinates"], "ontology": "o"}
        want["detection"] = c
    if have & 16:
        want["bounds_imcoords"] = rectangle(env, "o")
        P["bounds_imcoords"] = list(want["bounds_imcoords"])
    if have & 32:
        P["detection"] = {"type": "Point"}  # not an image position
    return P, want


def finder(env):
    """every combination of properties"""
    ns = geom.install(env)  # noqa
    have = env.choice("have", [i for i in range(32)] + [32, 48, 34])
    dep = env.choice("deprecated", [True, False])
    P, want = props(env, have)
    keep = copy.deepcopy(P)
    f = geojson.Feature(geometry=None, properties=P)
    acc = ImagedFeaturePropertyAccessor() if dep else ImagedFeaturePropertyAccessor(allow_deprecated=False)
    g = env.no_raise(lambda: acc.find_image_geometry(f), "find_image_geometry")
    first = next((k for k in (PROPS if dep else PROPS[:2]) if k in want), None)
    if first is None:
        env.require(g is None, "no image geometry")
    elif isinstance(want[first], tuple):
        box_is(env, g, want[first], "the preferred property's bounding box")
    else:
        same(env, g, want[first], "the preferred property's geometry")
    same(env, [f.properties[k] for k in PROPS if k in keep and k != "detection"], [keep[k] for k in PROPS if k in keep and k != "detection"], "reading changes nothing")
    env.require(list(f.properties) == list(keep), "reading adds nothing")


def updater(env, kind):
    ns = geom.install(env)
    have = env.choice("have", [0, 1, 2, 8, 16, 27, 32, 31] if kind in ("Polygon", "Hole") else [1, 2, 8, 16, 27, 32])
    dep = env.choice("deprecated", [True, False])
    P, want = props(env, have)
    keep = copy.deepcopy(P)
    f = geojson.Feature(geometry=None, properties=P)
    d = doc(env, kind, "n")
    g = ns.shape(d)
    acc = ImagedFeaturePropertyAccessor(allow_deprecated=dep)
    env.no_raise(lambda: acc.update_existing_image_geometries(f, g), "update_existing_image_geometries")
    env.require(set(f.properties) == set(keep), "no property is added or removed")
    env.require(f.properties["other"] == 5, "other properties stay")
    for k in PROPS:
        if k not in keep:
            continue
        v = f.properties[k]
        if (k not in PROPS[:2] and not dep) or (k == "detection" and have & 32):
            if k == "detection":
                env.require(sorted(v) == sorted(keep[k]) and v["type"] == keep[k]["type"], "deprecated properties stay when they are not allowed")
                v, o = v.get("pixelCoordinates"), keep[k].get("pixelCoordinates")
            else:
                o = keep[k]
            same(env, v, o, "deprecated properties stay when they are not allowed")
        elif k == "imageGeometry":
            same(env, v, d, "the image geometry is replaced")
        elif k in ("imageBBox", "bounds_imcoords"):
            env.require(isinstance(v, list) and len(v) == 4, "bounding boxes are four numbers")
            env.require(env.And(*[near(env, a, b) for a, b in zip(v, g.bounds)]), "bounding boxes become the bounds of the new geometry")
        elif k == "detection":
            env.require(v["type"] == d["type"] and v.get("ontology") == "o", "the detection has the new type and its other members")
            same(env, v["pixelCoordinates"], d["coordinates"], "the detection has the new coordinates")
        else:
            same(env, v, d["coordinates"][0], "the deprecated boundary becomes the outer ring")


def gap2(env, a, b):
    dx = env.ite(a[0] > b[2], a[0] - b[2], env.ite(b[0] > a[2], b[0] - a[2], env.num(0.0)))
    dy = env.ite(a[1] > b[3], a[1] - b[3], env.ite(b[1] > a[3], b[1] - a[3], env.num(0.0)))
    return dx, dy


def place(env, name, point, axis):
    """min x, min y, max x, max y; with an axis all places lie beside each other along it"""
    if axis is None:
        if not point:
            return rectangle(env, name)
        x, y = env.real(name + "x", 0, 4000), env.real(name + "y", 0, 4000)
        return x, y, x, y
    a = env.real(name + "a", 0, 4000)
    b = a if point else a + env.real(name + "w", 1, 200)
    lo, hi = (env.num(100.0), env.num(100.0)) if point else (env.num(50.0), env.num(150.0))
    return (a, lo, b, hi) if axis == "x" else (lo, a, hi, b)


def members(env, n, image, holes, axis):
    fs, R = [], []
    for i in range(n):
        gone, point = i in holes, i % 2 == 1
        r = None if gone else place(env, f"f{i}", point, axis)
        g = None if gone else {"type": "Point", "coordinates": [r[0], r[1]]} if point else {"type": "Polygon", "coordinates": [[[r[0], r[1]], [r[2], r[1]], [r[2], r[3]], [r[0], r[3]], [r[0], r[1]]]]}
        far = {"type": "Point", "coordinates": [90000.0 + i, 0.0]}
        f = geojson.Feature(geometry=None, properties={"n": i})
        if image:
            f["geometry"] = far if i != n - 1 else None
            if g is not None and (point or i % 4 == 0):
                f.properties["imageGeometry"] = g
            elif g is not None:
                f.properties["imageBBox"] = list(r)
        else:
            f["geometry"] = g
            f.properties["imageGeometry"] = far
        fs.append(f)
        R.append(r)
    return geojson.FeatureCollection(features=fs), R


def index(env, image, holes, n, query, limit, axis):
    ns = geom.install(env)
    fc, R = members(env, n, image, holes, axis)
    ix = env.no_raise(lambda: STRFeature2DSpatialIndex(fc, use_image_geometries=image), "index")
    Q = place(env, "q", query == "point", axis)
    q = ns.Point(Q[0], Q[1]) if query == "point" else ns.box(*Q)
    D = [None if r is None else gap2(env, r, Q) for r in R]
    k = 1 if axis == "y" else 0
    for r in R:
        if r is not None:  # no touching
            env.assume(env.And(*[env.Or(u - v > 1e-6, v - u > 1e-6) for c in ((0, 1) if axis is None else (k,)) for u, v in ((r[c], Q[c + 2]), (r[c + 2], Q[c]))]))
    if limit == "all":
        got = env.no_raise(lambda: list(ix.find_intersects(q)), "find_intersects")
        ids = [f.properties["n"] for f in got]
        env.require(all(any(f is g for g in fc.features) for f in got), "features of the collection are returned")
        env.require(len(set(ids)) == len(ids), "every feature once")
        for i, d in enumerate(D):
            if d is None:
                env.require(i not in ids, "features without geometry are not found")
            else:
                hit = env.And(d[0] <= 0, d[1] <= 0)
                env.require(hit if i in ids else env.Not(hit), "exactly the features that intersect are found")
        return
    lim = env.real("limit", 1, 500) if limit == "given" else env.num(50.0 if image else 1.0)
    D = [None if d is None else d[k] for d in D]
    near = [x for x in D if x is not None]
    for i, u in enumerate(near):
        env.assume(env.Or(u - lim > 1e-3, lim - u > 1e-3))
        for v in near[:i]:
            env.assume(env.Or(env.And(u <= 0, v <= 0), u - v > 1e-3, v - u > 1e-3))
    got = env.no_raise(lambda: list(ix.find_nearest(q, lim) if limit == "given" else ix.find_nearest(q)), "find_nearest")
    ids = [f.properties["n"] for f in got]
    env.require(len(set(ids)) == len(ids), "every feature once")
    for i, d in enumerate(D):
        if d is None:
            env.require(i not in ids, "features without geometry are not found")
            continue
        hit = env.And(d <= lim, *[d <= o for o in near])
        env.require(hit if i in ids else env.Not(hit), "exactly the nearest features within the distance are found")


def cases(tier):
    q = tier == "quick"
    cs = []

    def add(body, name, **k):
        cs.append(dict(name=name, body=body, params=k))

    KINDS = ("Point", "LineString", "Polygon", "Hole", "MultiPoint", "MultiLineString", "MultiPolygon", "Collection")
    for k in KINDS:
        add(setter, "set-" + k, kind=k)
    add(finder, "find")
    for k in KINDS[:4] if q else KINDS[:7]:
        add(updater, "update-" + k, kind=k)
    n = 3 if q else 4
    for im in (True, False):
        for holes in ((), (0,), (1,)):
            for qu in ("point", "box"):
                for lim, ax in (("all", None), ("given", "x"), ("default", "y")):
                    add(index, f"index-{'image' if im else 'world'}-{len(holes) and holes[0] + 1}-{qu}-{lim}", image=im, holes=holes, n=n, query=qu, limit=lim, axis=ax)
    return cs
