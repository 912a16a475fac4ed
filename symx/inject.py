"""Swap numpy / math / builtins / library stubs into the loaded aws.osml modules for the duration of a symbolic run."""
import builtins
import math
import sys
import types

import numpy as np

from . import core, npmore, npshim
from .core import Sym, SymBool, Unsupported
from .npshim import NP, SA


# ------------------------------------------------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or (isinstance(o, Sym) and not o.isint)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return npshim.cast(x, np.float64)
        if isinstance(x, SymBool):
            return npshim.cast(x._num(), np.float64)
        if isinstance(x, SA):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return npshim.cast(x.view(np.ndarray).reshape(-1)[0], np.float64)
        if isinstance(x, str) and core.tok_has(x):
            return npshim.cast(core.tok_number(x), np.float64)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class sfloat(metaclass=_FloatMeta):
    _symx_builtin = builtins.float
    dtype = np.dtype("float64")  # so that real arrays accept it as a dtype


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or (isinstance(o, Sym) and o.isint)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return core.trunc(x)
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, SA):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return core.trunc(x.view(np.ndarray).reshape(-1)[0])
        if isinstance(x, str) and core.tok_has(x):
            return core.tok_number(x, want_int=True)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class sint(metaclass=_IntMeta):
    _symx_builtin = builtins.int
    dtype = np.dtype("int64")  # so that real arrays accept it as a dtype


def _symargs(a):
    return any(isinstance(x, (Sym, SymBool)) for x in a)


def smin(*a, key=None, default=None):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is not None or not _symargs(xs) or any(isinstance(x, (tuple, list, str)) for x in xs):
        if len(a) == 1:
            return builtins.min(xs, key=key) if default is None else builtins.min(xs, key=key, default=default)
        return builtins.min(*a, key=key)
    r = xs[0]
    for x in xs[1:]:
        r = core.smin(r, x)
    return r


def smax(*a, key=None, default=None):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is not None or not _symargs(xs) or any(isinstance(x, (tuple, list, str)) for x in xs):
        if len(a) == 1:
            return builtins.max(xs, key=key) if default is None else builtins.max(xs, key=key, default=default)
        return builtins.max(*a, key=key)
    r = xs[0]
    for x in xs[1:]:
        r = core.smax(r, x)
    return r


def srange(*a):
    return builtins.range(*[int(x) if isinstance(x, Sym) else x for x in a])


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bool, SymBool))

    def __call__(cls, x=False):
        return builtins.bool(x)


class sbool(metaclass=_BoolMeta):
    _symx_builtin = builtins.bool
    dtype = np.dtype("bool")  # so that real arrays accept it as a dtype


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.type)

    def __call__(cls, o, *a, **k):
        if a or k:
            return builtins.type(o, *a, **k)
        if isinstance(o, Sym):
            return sint if o.isint else sfloat
        if isinstance(o, SymBool):
            return sbool
        if isinstance(o, SA):
            return np.ndarray
        t = builtins.type(o)
        return {builtins.float: sfloat, builtins.int: sint, builtins.bool: sbool}.get(t, t)


class stype(metaclass=_TypeMeta):
    _symx_builtin = builtins.type


def spow(a, b, *m):
    return a**b if not m else builtins.pow(a, b, *m)


def scomplex(re=0.0, im=0.0):
    if isinstance(re, (Sym, SymBool, core.SymC)) or isinstance(im, (Sym, SymBool, core.SymC)):
        return core.SymC.of(re) + core.SymC.of(im) * 1j
    return builtins.complex(re, im)


# ---------------------------------------------------------------------------------------------------------------- math
def _m(fn, real):
    def g(*a, **k):
        if any(isinstance(x, (Sym, SA, SymBool)) for x in (*a, *k.values())):
            a = [x.view(np.ndarray).reshape(-1)[0] if isinstance(x, SA) else x._num() if isinstance(x, SymBool) else x for x in a]
            return fn(*a, **k)
        return real(*a, **k)

    g.__name__ = real.__name__
    return g


def _isfin(x):
    return not x.special


def _log2(x, b=None):
    if b is None:
        return _mlog("ln", math.log)(x)
    if b == 2:
        return _mlog("log2", math.log2)(x)
    raise Unsupported("log base")


def _mlog(name, fn):
    def g(x):
        x = Sym.const(x)
        if bool(x <= 0):
            raise ValueError("math domain error")
        return core.mono_uf(name, x, fn)

    return g


def _hyp(*a):
    s = Sym.const(0)
    for x in a:
        s = s + Sym.const(x) * x
    return core.sqrt(s)


def _unsup(name):
    def g(*a):
        if all(x.c is not None for x in a if isinstance(x, Sym)):
            return getattr(math, name)(*[float(x) for x in a])
        raise Unsupported(f"math.{name}")

    return g


def _dom(r):
    if r.special:
        raise ValueError("math domain error")
    return r


def _isnan(x):
    return x.special and math.isnan(x.c)


def _dist(p, q):
    return _hyp(*[Sym.const(a) - b for a, b in zip(p, q)])


MATH = types.SimpleNamespace(**{k: getattr(math, k) for k in dir(math) if not k.startswith("__")})
_over = dict(
    floor=core.floor, ceil=core.ceil, trunc=core.trunc, sqrt=core.sqrt, degrees=core.degrees, radians=core.radians,
    sin=core.sin, cos=core.cos, fabs=lambda x: abs(Sym.const(x)), isfinite=_isfin, isnan=_isnan,
    isinf=lambda x: x.special and math.isinf(x.c), log2=_mlog("log2", math.log2), log10=_mlog("log10", math.log10),
    log=_log2, exp=lambda x: core.mono_uf("exp", x, math.exp), hypot=_hyp, pow=lambda a, b: Sym.const(a) ** b,
    fmod=lambda a, b: a - b * core.trunc(Sym.const(a) / b), copysign=lambda a, b: core.ite(Sym.const(b) >= 0, abs(a), -abs(a)),
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(Sym.const(a) - b) <= core.smax(
        rel_tol * core.smax(abs(Sym.const(a)), abs(Sym.const(b))), abs_tol),
    modf=lambda x: (x - core.trunc(x), npshim.cast(core.trunc(x), np.float64)),
    remainder=lambda a, b: a - b * core.round_(Sym.const(a) / b), ldexp=lambda a, n: a * 2.0 ** int(n),
    atan2=npmore.atan2, atan=npmore.atan, cbrt=npmore.UNARY["cbrt"], tan=npmore.UNARY["tan"], sinh=npmore.UNARY["sinh"],
    tanh=npmore.UNARY["tanh"], asinh=npmore.UNARY["arcsinh"], cosh=npmore.UNARY["cosh"], expm1=npmore.UNARY["expm1"],
    asin=lambda x: _dom(npmore.asin(x)), acos=lambda x: _dom(npmore.acos(x)),
)
for _n in ("atanh", "acosh", "gamma", "lgamma", "erf", "erfc", "frexp", "nextafter", "ulp"):
    _over[_n] = _unsup(_n)
for _n, _f in _over.items():
    setattr(MATH, _n, _m(_f, getattr(math, _n)))
MATH.dist = _dist
MATH.fsum = lambda xs: builtins.sum(xs)
MATH.prod = lambda xs, start=1: np.prod(list(xs)) if False else _prod(xs, start)


def _prod(xs, start):
    r = start
    for x in xs:
        r = r * x
    return r


# ---------------------------------------------------------------------------------------------------------- injection
BUILTINS = dict(float=sfloat, int=sint, min=smin, max=smax, range=srange, bool=sbool, pow=spow, complex=scomplex, type=stype)


def osml_modules():
    return [m for n, m in list(sys.modules.items()) if n.startswith("aws.osml") and m is not None
            and not n.startswith("aws.osml.formats")]


class Injector:
    def __init__(self):
        self.saved = []

    def _set(self, d, k, v):
        self.saved.append((d, k, d.get(k, _MISSING)))
        d[k] = v

    def __enter__(self):
        repl = {id(np): NP, id(math): MATH}
        for n in [x for x in dir(math) if not x.startswith("_")]:
            f = getattr(math, n)
            if callable(f):
                repl[id(f)] = getattr(MATH, n)
        for n in [x for x in dir(np) if not x.startswith("_")]:
            f = getattr(np, n, None)
            if callable(f) and n in NP.__dict__:
                repl.setdefault(id(f), NP.__dict__[n])
            elif isinstance(f, np.ufunc):
                repl.setdefault(id(f), getattr(NP, n))
        for n in ("norm", "inv", "det", "solve", "lstsq", "pinv", "multi_dot", "matrix_power", "matrix_rank"):
            repl[id(getattr(np.linalg, n))] = getattr(NP.linalg, n)
        repl[id(np.linalg)] = NP.linalg
        repl[id(np.polynomial.Polynomial)] = NP.polynomial.Polynomial
        repl[id(np.polynomial.polynomial.polyval2d)] = NP.polynomial.polynomial.polyval2d
        for n in ("polyval", "polyval3d", "polyadd", "polysub", "polymul", "polyint", "polyvander", "polygrid2d", "polyder"):
            repl[id(getattr(np.polynomial.polynomial, n))] = getattr(NP.polynomial.polynomial, n)
        repl[id(np.polynomial)] = NP.polynomial
        repl[id(np.polynomial.polynomial)] = NP.polynomial.polynomial
        for m in osml_modules():
            d = m.__dict__
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                r = repl.get(id(v))
                if r is not None and (callable(v) or isinstance(v, types.ModuleType)):
                    self._set(d, k, r)
            for k, v in BUILTINS.items():
                if k not in d:
                    self._set(d, k, v)
        return self

    def __exit__(self, *a):
        for d, k, v in reversed(self.saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v
        self.saved.clear()


_MISSING = object()


class Patch:
    """Replace a library object by identity wherever the toolkit holds it, and on its owner; both modes."""

    def __init__(self):
        self.saved = []

    def obj(self, old, new, owner=None, attr=None):
        for m in osml_modules():
            d = m.__dict__
            for k, v in list(d.items()):
                if v is old:
                    self.saved.append(("d", d, k, v))
                    d[k] = new
        if owner is not None:
            self.saved.append(("a", owner, attr, getattr(owner, attr)))
            setattr(owner, attr, new)

    def attr(self, owner, attr, new):
        self.saved.append(("a", owner, attr, getattr(owner, attr)))
        setattr(owner, attr, new)

    def undo(self):
        for kind, o, k, v in reversed(self.saved):
            if kind == "d":
                o[k] = v
            else:
                setattr(o, k, v)
        self.saved.clear()
