"""C03 - DEM tile identifiers name the one-degree cell that contains the coordinate."""
import math

from aws.osml.photogrammetry import GeodeticWorldCoordinate, GenericDEMTileSet, SRTMTileSet

BOUNDS = ("every longitude in [-pi, 2pi) and latitude in [-pi/2, pi/2] (reals, relative rounding error up to 2^-53 on every "
          "float operation of the code); integer tile-set limits in [-90,90]/[-180,360]; 6 generic name formats; "
          "2 SRTM configurations")
OUTSIDE = "coordinates within 1e-9 degree of a cell edge may be assigned to either cell; fractional coverage limits"
PI = math.pi
TOL = 1e-9
FORMATS = ["%od%oh/%ld%lh.dt2", "%lh%ld%oh%od.tif", "%lH%ld_%oH%od", "%ld%lH%od%oH", "dem/%oh%od/%lh%ld.dt1", "%lh%ld%%%oh%od"]


def _coord(env):
    lon = env.real("lon", -PI, 2 * PI - 0.001)
    lat = env.real("lat", -PI / 2, PI / 2)
    with env.exact():
        k = 180 / env.num(PI)
        lond, latd = lon * k, lat * k
    return GeodeticWorldCoordinate([lon, lat, env.real("elev", -500, 9000)]), lond, latd


def _cell(env, deg, d, neg, what):
    """d = unsigned degrees of the cell's lower edge, neg = southern/western letter"""
    lo = -d if neg else d
    with env.exact():
        env.require(env.And(deg >= lo - TOL, deg <= lo + 1 + TOL), f"{what} lies in the named one-degree cell")
        if neg:
            env.require(d >= 1, f"{what}: a south/west cell has a non-zero degree number")


def _pure(env, c, lon, lat):
    pass


def srtm(env, prefix, version, ext):
    ts = SRTMTileSet(prefix=prefix, version=version, format_extension=ext)
    c, lond, latd = _coord(env)
    t = env.no_raise(lambda: ts.find_tile_id(c), "find_tile_id")
    with env.exact():
        if t is None:
            env.require(env.Or(latd >= 60 - TOL, latd <= -56 + TOL), "no tile only outside the SRTM coverage")
            return
        env.require(env.And(latd <= 60 + TOL, latd >= -56 - TOL), "a tile only inside the SRTM coverage")
    env.require(t.startswith(prefix) and t.endswith("_" + version + ext), "prefix, version and extension")
    m = t[len(prefix): len(t) - len("_" + version + ext)]
    env.require(len(m) == 8 and m[0] in "ns" and m[3] == "_" and m[4] in "ew", "layout nDD_eDDD")
    if len(m) != 8:
        return
    _cell(env, latd, env.parse_int(m[1:3]), m[0] == "s", "latitude")
    _cell(env, lond, env.parse_int(m[5:8]), m[4] == "w", "longitude")


def generic(env, fmt, limits):
    kw = {}
    if limits:
        la, lb = env.int("minlat", -90, 90), env.int("maxlat", -90, 90)
        lo, lp = env.int("minlon", -180, 360), env.int("maxlon", -180, 360)
        kw = dict(min_latitude_degrees=la, max_latitude_degrees=lb, min_longitude_degrees=lo, max_longitude_degrees=lp)
    else:
        la, lb, lo, lp = -90, 90, -180, 180
    ts = GenericDEMTileSet(format_spec=fmt, **kw) if fmt else GenericDEMTileSet(**kw)
    fmt = fmt or "%od%oh/%ld%lh.dt2"
    c, lond, latd = _coord(env)
    t = env.no_raise(lambda: ts.find_tile_id(c), "find_tile_id")
    with env.exact():
        if t is None:
            env.require(env.Or(latd >= lb + 1 - TOL, latd <= la + TOL, lond >= lp + 1 - TOL, lond <= lo + TOL),
                        "no tile only outside the configured limits")
            return
        env.require(env.And(latd <= lb + 1 + TOL, latd >= la - TOL, lond <= lp + 1 + TOL, lond >= lo - TOL),
                    "a tile only inside the configured limits")
    i, k, got = 0, 0, {}
    while k < len(fmt):
        if fmt[k] == "%" and fmt[k + 1] == "%":
            env.require(t[i:i + 1] == "%", "literal percent")
            i, k = i + 1, k + 2
        elif fmt[k] == "%":
            w = {"ld": 2, "od": 3}.get(fmt[k + 1:k + 3], 1)
            got[fmt[k + 1:k + 3].lower()] = t[i:i + w]
            if w == 1:
                env.require(t[i:i + 1].isupper() == fmt[k + 2].isupper(), "hemisphere letter case")
            i, k = i + w, k + 3
        else:
            env.require(t[i:i + 1] == fmt[k], "literal text")
            i, k = i + 1, k + 1
    env.require(i == len(t), "name length")
    if i != len(t):
        return
    env.require(got["lh"].lower() in "ns" and got["oh"].lower() in "ew", "hemisphere letters")
    _cell(env, latd, env.parse_int(got["ld"]), got["lh"].lower() == "s", "latitude")
    _cell(env, lond, env.parse_int(got["od"]), got["oh"].lower() == "w", "longitude")


def cases(tier):
    o = dict(fp_err="abs")
    cs = [dict(name="srtm-default", body=srtm, params=dict(prefix="", version="1arc_v3", ext=".tif"), opts=o),
          dict(name="srtm-3arc", body=srtm, params=dict(prefix="dem/srtm/", version="3arc_v2", ext=".dt1"), opts=o),
          dict(name="generic-default", body=generic, params=dict(fmt=None, limits=False), opts=o),
          dict(name="generic-limits", body=generic, params=dict(fmt=FORMATS[1], limits=True), opts=o)]
    for i, f in enumerate(FORMATS if tier == "thorough" else FORMATS[2:5]):
        cs.append(dict(name=f"generic-format-{f}", body=generic, params=dict(fmt=f, limits=False), opts=o))
    return cs
