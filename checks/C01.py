"""C01 - degrees/minutes/seconds text and % directives of geodetic coordinates."""
import math

from aws.osml.photogrammetry import GeodeticWorldCoordinate

BOUNDS = ("every longitude in [-pi, 2pi] rad and latitude in [-pi/2, pi/2] rad (real arithmetic with a relative error of up to "
          "2^-53 on every float operation of the code); format strings of up to 2 (quick) / 3 (thorough) items out of 20 items")
OUTSIDE = "longer format strings; text of decimal values (Python's str of a float); coordinates outside the ranges"
PI = math.pi
ITEMS = ["%ld", "%lm", "%ls", "%lh", "%lH", "%od", "%om", "%os", "%oh", "%oH", "%L", "%l", "%O", "%o", "%E", "%%", "%q", "/", "x7", "%"]


def _coord(env):
    lon = env.real("lon", -PI, 2 * PI)
    lat = env.real("lat", -PI / 2, PI / 2)
    elev = env.real("elev", -1000, 9000)
    return GeodeticWorldCoordinate([lon, lat, elev]), lon, lat, elev


def _dms(env, d, m, s, rad, what):
    deg = abs(rad) * (180 / env.num(PI))
    env.require(env.And(m >= 0, m <= 59), f"{what}: minutes field within 00..59")
    env.require(env.And(s >= 0, s <= 59), f"{what}: seconds field within 00..59")
    tot = d * 3600 + m * 60 + s
    env.require(env.And(tot <= deg * 3600 + 0.01, tot > deg * 3600 - 1.01),
                f"{what}: d/m/s is the magnitude of the angle to the whole second")
    env.observe(what, [d, m, s])


def dms(env, which):
    c, lon, lat, elev = _coord(env)
    if which == "dms":
        t = env.no_raise(c.to_dms_string, "to_dms_string")
        rest = t
    else:
        t = env.no_raise(lambda: f"{c}", "default format")
        env.require(len(t) > 17, "default format length")
        rest = t[:7] + t[8:16]
        env.require(t[7] == " " and t[16] == " ", "default format separates latitude, longitude, elevation by blanks")
        env.require(env.eq(env.parse_float(t[17:]), elev), "default format ends with the elevation")
    env.require(len(rest) == 15, "ddmmssXdddmmssY has 15 characters")
    if len(rest) != 15:
        return
    env.require(env.Implies(lat < 0, rest[6] == "S"), "southern latitude is S")
    env.require(env.Implies(lat > 0, rest[6] == "N"), "northern latitude is N")
    env.require(env.Implies(lon < 0, rest[14] == "W"), "western longitude is W")
    env.require(env.Implies(lon > 0, rest[14] == "E"), "eastern longitude is E")
    env.require(rest[6] in "NS" and rest[14] in "EW", "hemisphere letters")
    p = env.parse_int
    _dms(env, p(rest[0:2]), p(rest[2:4]), p(rest[4:6]), lat, "latitude")
    _dms(env, p(rest[7:10]), p(rest[10:12]), p(rest[12:14]), lon, "longitude")


def fields(env):
    """Every single directive shows the same field as the combined d/m/s text."""
    c, lon, lat, elev = _coord(env)
    t = c.to_dms_string()
    g = lambda spec: env.no_raise(lambda: format(c, spec), f"format {spec}")
    for spec, sl in (("%ld", slice(0, 2)), ("%lm", slice(2, 4)), ("%ls", slice(4, 6)), ("%lH", slice(6, 7)),
                     ("%od", slice(7, 10)), ("%om", slice(10, 12)), ("%os", slice(12, 14)), ("%oH", slice(14, 15))):
        env.require(env.text_eq(g(spec), t[sl]), f"{spec} shows its own field")
    env.require(g("%lh") == t[6].lower() and g("%oh") == t[14].lower(), "lower case hemispheres")
    deg = 180 / env.num(PI)
    env.require(env.eq(env.parse_float(g("%L")), lat, 1e-9), "%L is the latitude in radians")
    env.require(env.eq(env.parse_float(g("%O")), lon, 1e-9), "%O is the longitude in radians")
    env.require(env.eq(abs(env.parse_float(g("%l"))), abs(lat) * deg, 1e-9), "%l is the latitude magnitude in degrees")
    env.require(env.eq(abs(env.parse_float(g("%o"))), abs(lon) * deg, 1e-9), "%o is the longitude magnitude in degrees")
    env.require(env.eq(env.parse_float(g("%E")), elev, 1e-9), "%E is the elevation")
    env.require(g("%%") == "%", "%% is a percent sign")
    env.require(g("%q") == "", "unknown directives are ignored")
    env.require(g("abc") == "abc", "literals pass through")


def concat(env, first, n):
    """A format string is processed item by item: the text is the concatenation of the items' own texts."""
    c, lon, lat, elev = _coord(env)
    # one sign per case: sign handling is decided in the other harnesses
    seq = [first] + [env.choice(f"item{i}", ITEMS[:-1] if i < n - 1 else ITEMS) for i in range(1, n)]
    whole = env.no_raise(lambda: format(c, "".join(seq)), "format")
    parts = "".join(format(c, x) for x in seq)
    env.require(env.text_eq(whole, parts), "text of a format string is the concatenation of its items")


def concat_tail(env):
    c, lon, lat, elev = _coord(env)
    a = env.choice("a", ITEMS[:-1])
    env.require(env.text_eq(format(c, a + "%"), format(c, a) + "%"), "a trailing lone percent sign is literal")


def cases(tier):
    o = dict(fp_err=True)
    cs = [dict(name="to_dms_string", body=dms, params=dict(which="dms"), opts=o),
          dict(name="default-format", body=dms, params=dict(which="default"), opts=o),
          dict(name="single-directives", body=fields)]
    n = 2 if tier == "quick" else 3
    for f in ITEMS[:-1]:
        cs.append(dict(name=f"concat-{ITEMS.index(f)}", body=concat, params=dict(first=f, n=n),
                       opts=dict(max_paths=20000, witness_every=7)))
    return cs
