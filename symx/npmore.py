"""More of numpy for symbolic runs. Anything not modelled one by one is run by numpy's own code on object arrays of Sym."""
import builtins
import math

import numpy as np

from . import core, npshim
from .core import Sym, SymBool, Unsupported, ite
from .npshim import (BINARY, BOOL, F64, FLOATY, I64, NP, SA, UNARY, SymC, SymPoly, _part, _apply, _concmask, _num, _real_dtype, _reduce, _reg,
                     _tob, _u_isnan, cast, dtype_of, is_num, lift_elem, mkarr, mkarr_nocopy, unwrap0)


# ------------------------------------------------------------------------------------------------------------ ufuncs
def _divisor(f):
    def g(a, b):
        a, b = _num(a), _num(b)
        if not b.special and bool(b == 0):
            return Sym(math.nan) if not (a.isint and b.isint) else Sym.const(0)
        return f(a, b)

    return g


def _copysign(a, b):
    a, b = _num(a), _num(b)
    return ite(b >= 0, abs(a), -abs(a))


def _heaviside(a, b):
    return ite(a < 0, 0.0, ite(a > 0, 1.0, b))


def _tan(a):
    return core.sin(a) / core.cos(a)


def atan2(a, b):
    a, b = _num(a), _num(b)
    if a.c is not None and b.c is not None:
        return Sym.const(math.atan2(float(a.c), float(b.c)))
    r = core.uf("atan2", a, b)
    c = core.ctx()
    key = ("atan2", r.expr().get_id())
    if key not in c.names:
        c.names[key] = r
        c.cons.append(core.bexpr(r >= -4))
        c.cons.append(core.bexpr(r <= 4))
        c.cons.append(core.bexpr(core.mkor(a != 0, core.mkor(b < 0, r == 0))))
        c.cons.append(core.bexpr(core.mkor(a <= 0, r > 0)))
        c.cons.append(core.bexpr(core.mkor(a >= 0, r < 0)))
    return r


def _inc(name, fn, lo=None, hi=None, out=None):
    """an increasing function; `out` bounds its values"""

    def g(x):
        x = _num(x)
        if x.c is None and lo is not None and bool(core.mkor(x < lo, x > hi)):
            return Sym(math.nan)
        if x.c is None and bool(x == 0):
            return Sym.const(0.0)
        r = core.mono_uf(name, x, fn)
        if r.c is None:
            c = core.ctx()
            key = (name, r.expr().get_id())
            if key not in c.names:
                c.names[key] = r
                c.cons.append(core.bexpr(x > 0) == core.bexpr(r > 0))
                if out is not None:
                    c.cons.append(core.bexpr(r <= out))
                    c.cons.append(core.bexpr(r >= -out))
        return r

    return g


asin = _inc("asin", math.asin, -1, 1, 1.5707963267948968)
atan = _inc("atan", math.atan, out=1.5707963267948968)


def acos(x):
    r = asin(x)
    return math.pi / 2 - r


EXTRA1 = dict(tan=_tan, arcsin=asin, arccos=acos, arctan=atan, sinh=_inc("sinh", math.sinh), tanh=_inc("tanh", math.tanh, out=1),
              arcsinh=_inc("asinh", math.asinh), cbrt=_inc("cbrt", lambda v: math.cbrt(v)),
              cosh=lambda x: core.mono_uf("cosh", abs(_num(x)), math.cosh), expm1=_inc("expm1", math.expm1),
              signbit=lambda x: _num(x) < 0)
UNARY.update(EXTRA1)
UNARY["log1p"] = lambda x: UNARY["log"](1 + _num(x))
UNARY["exp2"] = lambda x: core.mono_uf("exp2", _num(x), lambda v: 2.0**v)
UNARY["invert"] = lambda x: core.mknot(x) if isinstance(x, (bool, SymBool, np.bool_)) else ~_num(x)
UNARY["bitwise_not"] = UNARY["invert"]


def _bitop(op, logical):
    def g(a, b):
        if isinstance(a, (bool, SymBool, np.bool_)) and isinstance(b, (bool, SymBool, np.bool_)):
            return logical(a, b)
        return core.bitop(op, _num(a), _num(b))

    return g


BINARY.update(
    fmod=_divisor(lambda a, b: a - b * core.trunc(a / b)), copysign=_copysign, heaviside=_heaviside, arctan2=atan2,
    bitwise_and=_bitop("&", core.mkand), bitwise_or=_bitop("|", core.mkor), bitwise_xor=_bitop("^", BINARY["logical_xor"]),
    left_shift=lambda a, b: core.bitop("<<", _num(a), _num(b)), right_shift=lambda a, b: core.bitop(">>", _num(a), _num(b)),
)
FLOATY.update(EXTRA1)
FLOATY.discard("signbit")
FLOATY.update(("log1p", "exp2", "copysign", "heaviside"))
npshim.CMP.add("signbit")


# --------------------------------------------------------------------------------------------- numpy's own code, objects
def _strip(x, depth=0):
    if isinstance(x, SA):
        if x.vdtype.kind in "iu" and x.vdtype.itemsize < 8:
            raise Unsupported("numpy function without a model on a small integer array")
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)) and depth < 4:
        return type(x)([_strip(e, depth + 1) for e in x]) if not hasattr(x, "_fields") else x
    return x


def _wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.shape == ():
                return lift_elem(r[()])
            return mkarr(np.array([lift_elem(e) for e in r.flat] + [None], dtype=object)[:-1].reshape(r.shape))
        return r
    if isinstance(r, tuple):
        return tuple(_wrap(e) for e in r)
    if isinstance(r, list):
        return [_wrap(e) for e in r]
    return r


def generic(func, args, kwargs):
    """func run by numpy on object arrays; whatever numpy cannot do with objects is unsupported"""
    try:
        r = func(*[_strip(a) for a in args], **{k: _strip(v) for k, v in kwargs.items()})
    except (ValueError, IndexError, ZeroDivisionError):
        raise
    except Exception as e:
        raise Unsupported(f"numpy function {getattr(func, '__name__', func)} on symbolic data ({type(e).__name__})")
    return _wrap(r)


def _concrete(f, k):
    return lambda *a, **kw: f(*a, **kw)


# --------------------------------------------------------------------------------------------------------- functions
def _flat(a):
    return list(mkarr_nocopy(a).view(np.ndarray).reshape(-1))


def ptp(a, axis=None, **k):
    a = mkarr_nocopy(a)
    return unwrap0(_reduce("maximum", a, axis, False)) - unwrap0(_reduce("minimum", a, axis, False))


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xs, ys = _flat(xp), _flat(fp)

    def one(v):
        v = _num(v)
        if bool(v < xs[0]):
            return _num(ys[0] if left is None else left)
        if bool(v > xs[-1]):
            return _num(ys[-1] if right is None else right)
        for i in range(len(xs) - 1):
            if bool(v < xs[i + 1]):
                return ys[i] + (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]) * (v - xs[i])
        return _num(ys[-1])

    if is_num(x):
        return one(x)
    x = mkarr_nocopy(x)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        out[i] = one(x.view(np.ndarray)[i])
    return unwrap0(mkarr(out))


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = NP.where(c, v, r)
    return r


def piecewise(x, condlist, funclist, *a, **k):
    x = mkarr_nocopy(x)
    conds = [mkarr_nocopy(c) for c in (condlist if isinstance(condlist, (list, tuple)) else [condlist])]
    if len(funclist) == len(conds) + 1:
        r = funclist[-1](x, *a) if callable(funclist[-1]) else funclist[-1]
    else:
        r = 0
    for c, f in zip(conds, funclist):
        r = NP.where(c, f(x, *a) if callable(f) else f, r)
    return mkarr_nocopy(r).astype(x.vdtype)


def fix(x, **k):
    return unwrap0(_apply("trunc", (x,)))


def np_divmod(a, b):
    return unwrap0(_apply("floor_divide", (a, b))), unwrap0(_apply("remainder", (a, b)))


def modf(x):
    i = unwrap0(_apply("trunc", (x,)))
    return x - i, i


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if is_num(a) and is_num(b):
        a, b = _num(a), _num(b)
        if a.special or b.special:
            return bool(a == b) or (equal_nan and _u_isnan(a) and _u_isnan(b))
        return abs(a - b) <= atol + rtol * abs(b)
    A, B = np.broadcast_arrays(mkarr_nocopy(a).view(np.ndarray), mkarr_nocopy(b).view(np.ndarray))
    out = np.empty(A.shape, dtype=object)
    for i in np.ndindex(A.shape):
        out[i] = isclose(A[i], B[i], rtol, atol, equal_nan)
    r = out.view(SA)
    r.vdtype = BOOL
    return unwrap0(r)


def array_equiv(a, b):
    try:
        return mkarr_nocopy(mkarr_nocopy(a) == mkarr_nocopy(b)).all()
    except ValueError:
        return False


def quantile(a, q, axis=None, method="linear", **k):
    if axis is not None or method not in ("linear",):
        raise Unsupported("quantile axis or method")
    s = _flat(npshim.sort(mkarr_nocopy(a).reshape(-1)))

    def one(p):
        p = float(p)
        if not 0 <= p <= 1:
            raise ValueError("Quantiles must be in the range [0, 1]")
        h = p * (len(s) - 1)
        i = int(math.floor(h))
        if i >= len(s) - 1:
            return s[-1] + 0.0
        return s[i] + (s[i + 1] - s[i]) * (h - i)

    return one(q) if is_num(q) else mkarr([one(p) for p in _flat(q)])


def percentile(a, q, **k):
    return quantile(a, float(q) / 100 if is_num(q) else [float(p) / 100 for p in _flat(q)], **k)


def gradient(f, *varargs, axis=None, edge_order=1):
    f = mkarr_nocopy(f)
    if f.ndim != 1 or len(varargs) > 1 or edge_order != 1:
        raise Unsupported("gradient beyond one dimension")
    h = varargs[0] if varargs else 1.0
    if not is_num(h):
        raise Unsupported("gradient with coordinates")
    v = _flat(f)
    n = len(v)
    return mkarr([(v[1] - v[0]) / h if i == 0 else (v[-1] - v[-2]) / h if i == n - 1 else (v[i + 1] - v[i - 1]) / (2.0 * h)
                  for i in range(n)])


def _nan_drop(a, x):
    a = mkarr(a)
    b = a.view(np.ndarray)
    for i in np.ndindex(a.shape):
        if _u_isnan(b[i]):
            b[i] = Sym.const(x)
    return a


def apply_along_axis(func1d, axis, arr, *args, **kwargs):
    a = np.moveaxis(mkarr_nocopy(arr).view(np.ndarray), axis, -1)
    outs = {}
    for i in np.ndindex(a.shape[:-1]):
        outs[i] = func1d(mkarr(a[i]), *args, **kwargs)
    first = next(iter(outs.values()))
    extra = () if is_num(first) else mkarr_nocopy(first).shape
    r = np.empty(a.shape[:-1] + extra, dtype=object)
    for i, v in outs.items():
        if extra:
            r[i][...] = mkarr_nocopy(v).view(np.ndarray)
        else:
            r[i] = v
    if extra:
        r = np.moveaxis(r, -1, axis)
    return mkarr(r)


def argsort(a, axis=-1, **k):
    a = mkarr_nocopy(a)
    if a.ndim != 1:
        raise Unsupported("argsort of >1-d")
    v = _flat(a)
    idx = []
    for i in range(len(v)):  # stable insertion, one comparison at a time
        j = len(idx)
        while j > 0 and bool(v[i] < v[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=np.intp)


def argbest(a, axis, better):
    a = mkarr_nocopy(a)
    if axis is None:
        return npshim._argbest(a, better)
    t = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.empty(t.shape[:-1], dtype=np.intp)
    for i in np.ndindex(r.shape):
        r[i] = npshim._argbest(mkarr(t[i]), better)
    return r if r.shape else int(r)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return npshim.mean(a, axis)
    a, w = mkarr_nocopy(a), mkarr_nocopy(weights)
    if w.shape != a.shape and axis is not None:
        w = w.reshape((-1,) + (1,) * (a.ndim - 1 - axis % a.ndim)) if axis % a.ndim == 0 else w
    s = unwrap0(_reduce("add", mkarr_nocopy(a * w), axis, False))
    return s / unwrap0(_reduce("add", mkarr_nocopy(a * 0.0 + w), axis, False))


def _cov_like(name):
    def g(*a, **k):
        raise Unsupported(f"numpy {name} on symbolic data")

    return g


def unique(a, *x, **k):
    if k or x:
        raise Unsupported("unique with options")
    v = _flat(a)
    s = [v[i] for i in argsort(mkarr(v))] if v else []
    out = [e for i, e in enumerate(s) if i == 0 or bool(e != s[i - 1])]
    return mkarr(out) if out else mkarr(a)


def searchsorted(a, v, side="left", sorter=None):
    s = _flat(a)

    def one(x):
        for i, e in enumerate(s):
            if bool(_num(x) <= e if side == "left" else _num(x) < e):
                return i
        return len(s)

    return one(v) if is_num(v) else np.array([one(x) for x in _flat(v)], dtype=np.intp)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


class _CR:
    """numpy.r_ and numpy.c_ for comma separated arrays and numbers"""

    def __init__(self, cols, real):
        self.cols, self.real = cols, real

    def __getitem__(self, key):
        parts = key if isinstance(key, tuple) else (key,)
        if not any(npshim.has_sym(p) for p in parts):
            return self.real[key]
        if any(isinstance(p, (str, slice)) for p in parts):
            raise Unsupported("r_ with directives")
        arrs = [mkarr_nocopy(p) for p in parts]
        if self.cols:
            return NP.column_stack([a.reshape(-1) if a.ndim == 0 else a for a in arrs])
        return NP.concatenate([a.reshape(-1) if a.ndim == 0 else a for a in arrs])


NP.r_, NP.c_ = _CR(False, np.r_), _CR(True, np.c_)

for _n, _f in dict(ptp=ptp, interp=interp, select=select, piecewise=piecewise, fix=fix, isclose=isclose, array_equiv=array_equiv,
                   quantile=quantile, percentile=percentile, nanquantile=quantile, nanpercentile=percentile, gradient=gradient,
                   apply_along_axis=apply_along_axis, argsort=argsort, average=average, unique=unique,
                   searchsorted=searchsorted, digitize=digitize, array_equal=NP.__dict__["array_equal"]).items():
    _reg(_n, _f)
_reg("nansum", lambda a, axis=None, **k: unwrap0(_reduce("add", _nan_drop(a, 0.0), axis, False)))
_reg("nanprod", lambda a, axis=None, **k: unwrap0(_reduce("multiply", _nan_drop(a, 1.0), axis, False)))
_reg("asfarray", lambda a, dtype=float: mkarr(a).astype(F64))
_reg("argmax", lambda a, axis=None, **k: argbest(a, axis, lambda x, y: x > y))
_reg("argmin", lambda a, axis=None, **k: argbest(a, axis, lambda x, y: x < y))
_reg("flatnonzero", lambda a: mkarr_nocopy(a).reshape(-1).nonzero()[0])
_reg("argwhere", lambda a: np.transpose(mkarr_nocopy(a).nonzero()))
_reg("extract", lambda c, a: mkarr_nocopy(a).reshape(-1)[_concmask(mkarr_nocopy(c).reshape(-1))])
_reg("compress", lambda c, a, axis=None, **k: (mkarr_nocopy(a).reshape(-1) if axis is None else NP.moveaxis(a, axis, 0))[
    _concmask(mkarr_nocopy(c))] if axis in (None, 0) else _cov_like("compress")())
_reg("iscomplexobj", lambda a: mkarr_nocopy(a).vdtype.kind == "c")
_reg("imag", lambda a: unwrap0(_part(a, "imag")))
_reg("angle", lambda a, deg=False: (lambda r: r * (180 / math.pi) if deg else r)(unwrap0(_apply("arctan2", (_part(a, "imag"), _part(a, "real"))))))
_reg("isrealobj", lambda a: True)
_reg("isscalar", lambda a: is_num(a) or np.isscalar(a))
_reg("real", lambda a: unwrap0(_part(a, "real")))
_reg("cov", _cov_like("cov"))
_reg("trapz", lambda y, x=None, dx=1.0, axis=-1: builtins.sum(
    ((b + a) / 2.0 * (dx if x is None else (_flat(x)[i + 1] - _flat(x)[i])) for i, (a, b) in enumerate(zip(_flat(y), _flat(y)[1:]))),
    Sym.const(0.0)))


def _einsum(*ops, **k):
    if not isinstance(ops[0], str):
        raise Unsupported("einsum without a subscript string")
    spec = ops[0].replace(" ", "")
    arrs = [mkarr_nocopy(a).view(np.ndarray) for a in ops[1:]]
    ins, arrow, out = spec.partition("->")
    ins = ins.split(",")
    if "." in spec:
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
        width = max(a.ndim - len(s.replace("...", "")) for s, a in zip(ins, arrs) if "..." in s)
        for n, (s, a) in enumerate(zip(ins, arrs)):
            if "..." in s:
                k = a.ndim - len(s.replace("...", ""))
                if k != width and k:
                    raise Unsupported("einsum broadcasting within an ellipsis")
                ins[n] = s.replace("...", "".join(free[:k]))
        if not arrow:
            allc = "".join(ins)
            out = "..." + "".join(sorted(c for c in set(allc) if allc.count(c) == 1 and c not in free))
        out = out.replace("...", "".join(free[:width]))
        spec = ",".join(ins) + "->" + out
    if "->" not in spec:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError("einstein sum subscripts string does not match the operands")
        for c, d in zip(s, a.shape):
            if dims.setdefault(c, d) != d:
                raise ValueError("operands could not be broadcast together")
    inner = [c for c in dims if c not in out]
    r = np.empty(tuple(dims[c] for c in out), dtype=object)
    for i in np.ndindex(r.shape):
        at = dict(zip(out, i))
        acc = Sym.const(0.0)
        for j in np.ndindex(tuple(dims[c] for c in inner)):
            at.update(zip(inner, j))
            t = None
            for s, a in zip(ins, arrs):
                e = _num(a[tuple(at[c] for c in s)])
                t = e if t is None else t * e
            acc = acc + t
        r[i] = acc
    return unwrap0(mkarr(r))


_reg("einsum", _einsum)


def multi_dot(arrays, **k):
    r = arrays[0]
    for a in arrays[1:]:
        r = npshim.dot(r, a)
    return r


def matrix_power(a, n):
    n = int(n)
    r = mkarr(np.eye(mkarr_nocopy(a).shape[0]))
    b = a if n >= 0 else npshim.inv(a)
    for _ in range(abs(n)):
        r = npshim.matmul(r, b)
    return r


def matrix_rank(a, *x, **k):
    """by elimination, forking on zero pivots"""
    M = [list(r) for r in mkarr_nocopy(a).view(np.ndarray)]
    rank, rows = 0, len(M)
    for col in range(len(M[0])):
        p = next((i for i in range(rank, rows) if bool(_num(M[i][col]) != 0)), None)
        if p is None:
            continue
        M[rank], M[p] = M[p], M[rank]
        for i in range(rank + 1, rows):
            f = M[i][col] / M[rank][col]
            M[i] = [x - f * y for x, y in zip(M[i], M[rank])]
        rank += 1
        if rank == rows:
            break
    return rank


class _LinSub:
    """the rest of numpy.linalg, concrete arguments only"""

    def __getattr__(self, name):
        v = getattr(np.linalg, name)
        if not callable(v) or isinstance(v, type):
            return v

        def g(*a, **k):
            try:
                real = [np.array(x.view(np.ndarray), dtype=float) if isinstance(x, SA) else x for x in a]
            except Unsupported:
                raise Unsupported(f"numpy.linalg.{name} on symbolic data")
            return _relift(v(*real, **k))

        return g


def _relift(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "iufb":
        return mkarr(r)
    if isinstance(r, tuple):
        return tuple(_relift(x) for x in r)
    return r


_lin = _LinSub()
_lin.__dict__.update(NP.linalg.__dict__)
_lin.multi_dot, _lin.matrix_power, _lin.matrix_rank = multi_dot, matrix_power, matrix_rank
NP.linalg = _lin


# -------------------------------------------------------------------------------------------------------- polynomials
def _coef(c):
    return _flat(c.coef) if isinstance(c, SymPoly) else _flat([c] if is_num(c) else c)


def polyadd(a, b):
    a, b = _coef(a), _coef(b)
    n = max(len(a), len(b))
    z = Sym.const(0.0)
    return mkarr([(a[i] if i < len(a) else z) + (b[i] if i < len(b) else z) for i in range(n)])


def polysub(a, b):
    return polyadd(a, [-x for x in _coef(b)])


def polymul(a, b):
    a, b = _coef(a), _coef(b)
    r = [Sym.const(0.0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return mkarr(r)


def polyint(c, m=1, k=(), **kw):
    v = _coef(c)
    ks = list(k) if isinstance(k, (list, tuple)) else [k]
    for i in range(int(m)):
        v = [Sym.const(ks[i] if i < len(ks) else 0.0)] + [x / float(j + 1) for j, x in enumerate(v)]
    return mkarr(v)


def polyvander(x, deg):
    xs = _flat(x)
    rows = []
    for v in xs:
        p, row = Sym.const(1.0), []
        for _ in range(int(deg) + 1):
            row.append(p)
            p = p * v
        rows.append(row)
    return mkarr(rows)


def polygrid2d(x, y, c):
    X, Y = _flat([x] if is_num(x) else x), _flat([y] if is_num(y) else y)
    r = mkarr([[npshim.polyval2d(u, v, c) for v in Y] for u in X])
    return unwrap0(r.reshape((() if is_num(x) else (len(X),)) + (() if is_num(y) else (len(Y),))))


def _nd(vals, c):
    """value of a polynomial in several variables, last axis innermost (as polyval3d does)"""
    C = mkarr_nocopy(c).view(np.ndarray)
    if C.ndim == 1:
        r = C[-1] + vals[0] * 0
        for k in range(len(C) - 2, -1, -1):
            r = C[k] + r * vals[0]
        return r
    r = Sym.const(0.0)
    for i in reversed(range(C.shape[0])):
        r = r * vals[0] + _nd(vals[1:], C[i])
    return r


_P = NP.polynomial.polynomial
_P.polyadd, _P.polysub, _P.polymul, _P.polyint, _P.polyvander, _P.polygrid2d = polyadd, polysub, polymul, polyint, polyvander, polygrid2d
_P.polyval3d = lambda x, y, z, c: _nd([x, y, z], c)
SymPoly.__add__ = SymPoly.__radd__ = lambda s, o: SymPoly(polyadd(s, o))
SymPoly.__sub__ = lambda s, o: SymPoly(polysub(s, o))
SymPoly.__rsub__ = lambda s, o: SymPoly(polysub(o, s))
SymPoly.__mul__ = SymPoly.__rmul__ = lambda s, o: SymPoly(polymul(s, o))
SymPoly.__truediv__ = lambda s, o: SymPoly([x / o for x in _coef(s)])
SymPoly.__neg__ = lambda s: SymPoly([-x for x in _coef(s)])
SymPoly.__iter__ = lambda s: iter(s.coef)
SymPoly.integ = lambda s, m=1, k=(), lbnd=None: SymPoly(polyint(s, m, k))
SymPoly.trim = lambda s, tol=0: s
SymPoly.domain = property(lambda s: np.array([-1.0, 1.0]))
SymPoly.window = SymPoly.domain


class SymPoly1d:
    """numpy.poly1d"""

    def __init__(self, c, r=False, variable=None):
        if r:
            raise Unsupported("poly1d from roots")
        self.c = self.coeffs = self.coef = mkarr(c)

    def __call__(self, x):
        return npshim.polyval(x, _flat(self.c)[::-1])

    def deriv(self, m=1):
        return SymPoly1d(_flat(npshim.polyder(_flat(self.c)[::-1], m))[::-1])


NP.poly1d = SymPoly1d
_reg("vander", lambda x, N=None, increasing=False: (lambda r: r if increasing else r[:, ::-1])(
    polyvander(x, (len(_flat(x)) if N is None else N) - 1)))
