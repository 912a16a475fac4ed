"""A numpy stand-in for symbolic runs: object arrays of Sym with a virtual dtype (so integer wrap-around is modelled)."""
import builtins
import math
import types
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Sym, SymBool, SymC, Unsupported, ite, mkand, mkbool, mknot, mkor

F64 = np.dtype(np.float64)
I64 = np.dtype(np.int64)
BOOL = np.dtype(bool)
C128 = np.dtype(complex)


def is_num(x):
    return isinstance(x, (Sym, SymBool, int, float, Fraction, np.number, np.bool_, SymC, complex))


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SA, SymC)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (Sym, SymBool, SymC)) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def wrap_int(x, dt):
    """Two's complement wrap of an Int Sym into a fixed width integer dtype."""
    if dt.kind not in "iu" or dt.itemsize >= 8:
        return x
    info = np.iinfo(dt)
    lo, hi, m = int(info.min), int(info.max), 1 << (8 * dt.itemsize)
    if x.c is not None:
        v = int(x.c)
        return Sym(Fraction((v - lo) % m + lo), isint=True)
    e = x.iexpr()
    return Sym.mk_int(z3.If(z3.And(e >= lo, e <= hi), e, (e - lo) % m + lo))


def cast(x, dt):
    dt = np.dtype(dt)
    if dt == object:
        return x
    if dt.kind == "b":
        if isinstance(x, (SymBool, bool, np.bool_)):
            return x
        return Sym.const(x) != 0
    if dt.kind == "c":
        return SymC.of(x)
    if isinstance(x, SymC):
        x = x.real
    x = Sym.const(x)
    if dt.kind in "iu":
        if x.special:
            core.ctx().notes.add("cast of inf/nan to an integer type")
            return Sym(Fraction(0), isint=True)
        return wrap_int(core.trunc(x), dt)
    if dt.kind == "f":
        if x.special or not x.isint:
            return x
        return Sym(x.c) if x.c is not None else Sym.mk(*x.nd())
    raise Unsupported(f"cast to {dt}")


def dtype_of(x):
    if isinstance(x, SA):
        return x.vdtype
    if isinstance(x, np.ndarray):
        return x.dtype if x.dtype != object else _infer(x.flat)
    if isinstance(x, Sym):
        return I64 if x.isint else F64
    if isinstance(x, (SymBool, bool, np.bool_)):
        return BOOL
    if isinstance(x, (np.generic,)):
        return x.dtype
    if isinstance(x, int):
        return I64
    if isinstance(x, (float, Fraction)):
        return F64
    if isinstance(x, (SymC, complex)):
        return C128
    return np.dtype(object)


def _infer(it):
    k = 0
    for e in it:
        if isinstance(e, Sym):
            k = max(k, 1 if e.isint else 2)
        elif isinstance(e, (SymBool, bool, np.bool_)):
            k = max(k, 0)
        elif isinstance(e, (int, np.integer)):
            k = max(k, 1)
        elif isinstance(e, (float, np.floating, Fraction)):
            k = max(k, 2)
        elif isinstance(e, (SymC, complex, np.complexfloating)):
            k = 3
        else:
            return np.dtype(object)
    return [BOOL, I64, F64, C128][k]


def lift_elem(e):
    if isinstance(e, (Sym, SymBool, bool, np.bool_)):
        return bool(e) if isinstance(e, np.bool_) else e
    if isinstance(e, (int, float, np.integer, np.floating, Fraction)):
        return Sym.const(e)
    if isinstance(e, (complex, np.complexfloating)):
        return SymC.of(e)
    if isinstance(e, np.ndarray) and e.shape == ():
        return lift_elem(e.item())
    return e


def mkarr(data, dtype=None):
    """Build an SA from anything array-like."""
    if isinstance(data, SA):
        base = np.ndarray.copy(data.view(np.ndarray))
        vd = data.vdtype
    else:
        if isinstance(data, np.ndarray):
            vd = data.dtype if data.dtype != object else None
            base = np.empty(data.shape, dtype=object)
            src = data
        elif is_num(data):
            vd = dtype_of(data)
            base = np.empty((), dtype=object)
            base[()] = lift_elem(data)
            src = None
        else:
            shape = _shape(data)
            if len(shape) == 0:
                raise Unsupported(f"array from {type(data)}")
            base = np.empty(shape, dtype=object)
            vd = _vd_nested(data)
            _fill(base, data, ())
            src = None
        if src is not None:
            for i in np.ndindex(base.shape):
                base[i] = lift_elem(src[i])
        else:
            for i in np.ndindex(base.shape):
                base[i] = lift_elem(base[i])
        if vd is None:
            vd = _infer(base.flat)
    out = base.view(SA)
    out.vdtype = vd
    if dtype is not None:
        dt = np.dtype(_real_dtype(dtype))
        if dt != vd and dt != object:
            out = out.astype(dt)
    return out


def _vd_nested(d):
    if isinstance(d, np.ndarray):
        return dtype_of(d)
    if isinstance(d, (list, tuple)) or hasattr(d, "__iter__") and not isinstance(d, (str, Sym)):
        ds = [_vd_nested(e) for e in d]
        if not ds:
            return F64
        return np.result_type(*ds) if all(x != object for x in ds) else np.dtype(object)
    return dtype_of(d)


def _shape(d):
    if isinstance(d, np.ndarray):
        return d.shape
    if isinstance(d, (list, tuple, range)):
        if len(d) == 0:
            return (0,)
        s = [_shape(e) for e in d]
        if any(x != s[0] for x in s):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(d),) + s[0]
    return ()


def _fill(base, d, idx):
    if isinstance(d, np.ndarray) and d.shape:
        for i in np.ndindex(d.shape):
            base[idx + i] = d[i] if not isinstance(d, SA) else np.ndarray.__getitem__(d, i)
        return
    if isinstance(d, (list, tuple, range)):
        for i, e in enumerate(d):
            _fill(base, e, idx + (i,))
        return
    base[idx] = d.item() if isinstance(d, np.ndarray) else d


def _real_dtype(dt):
    if dt is None:
        return F64
    if dt is builtins.float or getattr(dt, "_symx_builtin", None) is builtins.float:
        return F64
    if dt is builtins.int or getattr(dt, "_symx_builtin", None) is builtins.int:
        return I64
    if dt is builtins.bool or getattr(dt, "_symx_builtin", None) is builtins.bool:
        return BOOL
    if getattr(dt, "_symx_np", None) is not None:
        return dt._symx_np
    return dt


# ---------------------------------------------------------------------------------------------------- elementwise ops
def _isspecial(x):
    return isinstance(x, Sym) and x.special


def _num(x):
    if isinstance(x, (SymC, complex, np.complexfloating)):
        return SymC.of(x)
    return Sym.const(x)


def np_div(a, b):
    """numpy true division: x/0 is inf or nan, never an exception."""
    a, b = _num(a), _num(b)
    if isinstance(a, SymC) or isinstance(b, SymC):
        return a / b
    if b.special or a.special:
        return core.arith("/", a, b)
    zero = b == 0
    if zero is True or (isinstance(zero, SymBool) and core.ctx().div_mode == "fork" and bool(zero)):
        if a.c is None:
            if bool(a > 0):
                return Sym(math.inf)
            if bool(a < 0):
                return Sym(-math.inf)
            return Sym(math.nan)
        return Sym(math.nan) if a.c == 0 else Sym(math.inf if a.c > 0 else -math.inf)
    return core.arith("/", a, b)


def _u_isnan(x):
    return _isspecial(x) and math.isnan(x.c)


def _u_isinf(x):
    return _isspecial(x) and math.isinf(x.c)


def _u_isfinite(x):
    return not _isspecial(x)


def _nanp(f):
    def g(a, b):
        for x in (a, b):
            if _u_isnan(x):
                return x
        return f(a, b)

    return g


def _log(name, fn):
    def g(x):
        x = _num(x)
        if x.special:
            return x if not (math.isinf(x.c) and x.c < 0) else Sym(math.nan)
        if bool(x <= 0):
            return Sym(-math.inf) if bool(x == 0) else Sym(math.nan)
        return core.mono_uf(name, x, fn)

    return g


_log2_plain = _log("log2", math.log2)


def _log2(x):
    """monotone, and exact at the powers of two"""
    r = _log2_plain(x)
    if isinstance(r, Sym) and r.c is None:
        c, x = core.ctx(), _num(x)
        for k in range(-12, 25):
            key = ("log2", r.expr().get_id(), k)
            if key not in c.names:
                c.names[key] = r
                c.cons.append(core.bexpr(r >= k) == core.bexpr(x >= Fraction(2) ** k))
                c.cons.append(core.bexpr(r == k) == core.bexpr(x == Fraction(2) ** k))
        c.cons.append(core.bexpr(x < 2**25))
        c.notes.add("arguments of log2 below 2^25")
    return r


def _round_like(fn):
    def g(x):
        x = _num(x)
        if x.special:
            return x
        r = fn(x)
        return Sym(r.c) if r.c is not None else Sym.mk(*r.nd())

    return g


def _sign(x):
    if not isinstance(x, Sym) or x.c is not None:
        x = Sym.const(x)
    if x.special and math.isnan(x.c):
        return x
    c = core.ctx()  # fork: a formula here would end up inside products
    if c.decide(core.bexpr(x > 0)):
        return Sym.const(1.0)
    return Sym.const(-1.0) if c.decide(core.bexpr(x < 0)) else Sym.const(0.0)


def _atan2(a, b):
    raise Unsupported("arctan2 of symbolic values")


def _hypot(a, b):
    return core.sqrt(_num(a) * _num(a) + _num(b) * _num(b), "np")


UNARY = {
    "sqrt": lambda x: core.sqrt(x, "np"), "sin": core.sin, "cos": core.cos, "degrees": core.degrees,
    "rad2deg": core.degrees, "radians": core.radians, "deg2rad": core.radians, "floor": _round_like(core.floor),
    "ceil": _round_like(core.ceil), "trunc": _round_like(core.trunc), "rint": core.rint, "absolute": lambda x: abs(_num(x)),
    "fabs": lambda x: abs(_num(x)), "square": lambda x: _num(x) * _num(x), "negative": lambda x: -_num(x),
    "positive": lambda x: x, "isnan": _u_isnan, "isinf": _u_isinf, "isfinite": _u_isfinite,
    "log": _log("ln", math.log), "log10": _log("log10", math.log10), "log2": _log2,
    "exp": lambda x: x.exp() if isinstance(x, SymC) else core.mono_uf("exp", x, math.exp), "logical_not": lambda x: mknot(_tob(x)), "sign": _sign,
    "invert": lambda x: mknot(x) if isinstance(x, (bool, SymBool, np.bool_)) else ~int(x), "conjugate": lambda x: x.conjugate() if isinstance(x, SymC) else x,
    "reciprocal": lambda x: np_div(1, x),
}


def _tob(x):
    return x if isinstance(x, (SymBool, bool, np.bool_)) else _num(x) != 0


def _npmod(a, b):
    return _num(a) % _num(b)


BINARY = {
    "add": lambda a, b: _num(a) + _num(b), "subtract": lambda a, b: _num(a) - _num(b),
    "multiply": lambda a, b: _num(a) * _num(b), "divide": np_div, "true_divide": np_div,
    "floor_divide": lambda a, b: _num(a) // _num(b), "remainder": _npmod, "mod": _npmod,
    "power": lambda a, b: _num(a) ** _num(b), "float_power": lambda a, b: _num(a) ** _num(b),
    "maximum": _nanp(core.smax), "minimum": _nanp(core.smin), "fmax": core.smax, "fmin": core.smin,
    "less": lambda a, b: _num(a) < _num(b), "less_equal": lambda a, b: _num(a) <= _num(b),
    "greater": lambda a, b: _num(a) > _num(b), "greater_equal": lambda a, b: _num(a) >= _num(b),
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: mkand(_tob(a), _tob(b)), "logical_or": lambda a, b: mkor(_tob(a), _tob(b)),
    "logical_xor": lambda a, b: mkbool(z3.Xor(core.bexpr(_tob(a)), core.bexpr(_tob(b)))),
    "bitwise_and": lambda a, b: mkand(a, b) if isinstance(a, (bool, SymBool, np.bool_)) else int(a) & int(b),
    "bitwise_or": lambda a, b: mkor(a, b) if isinstance(a, (bool, SymBool, np.bool_)) else int(a) | int(b),
    "hypot": _hypot, "arctan2": _atan2,
}
CMP = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_xor",
       "logical_not", "isnan", "isinf", "isfinite"}
FLOATY = {"sqrt", "sin", "cos", "degrees", "radians", "rad2deg", "deg2rad", "log", "log10", "log2", "exp", "divide",
          "true_divide", "hypot", "arctan2", "float_power", "fabs", "reciprocal", "rint", "floor", "ceil", "trunc"}


def _res_dtype(name, ins):
    if name in CMP:
        return BOOL
    args = []
    for x in ins:
        if isinstance(x, np.ndarray) and x.shape != ():
            args.append(np.empty(1, dtype=dtype_of(x)) if dtype_of(x) != object else np.empty(1))
        elif isinstance(x, np.ndarray):
            args.append(dtype_of(x))
        elif isinstance(x, Sym):
            if x.c is not None and not x.special:
                args.append(int(x.c) if x.isint else (float(x.c)))
            else:
                args.append(0 if x.isint else 0.0)
        elif isinstance(x, SymBool):
            args.append(True)
        elif isinstance(x, SymC):
            args.append(1j)
        else:
            args.append(x if not isinstance(x, Fraction) else float(x))
    try:
        dt = np.result_type(*args)
    except Exception:
        return F64
    if dt == object:
        return F64
    if dt.kind == "c" and name == "absolute":
        return np.dtype("f4") if dt.itemsize == 8 else F64
    if name in FLOATY and dt.kind in "iub":
        if name in ("floor", "ceil", "trunc", "rint") and dt.kind in "iu":
            return dt if name != "rint" else F64
        # numpy promotes small ints to half/single for unary float functions; only the kind matters here
        return F64
    if name in ("square", "add", "multiply", "power", "subtract", "negative", "absolute") and dt.kind == "b":
        return I64 if name != "add" else BOOL
    return dt


def _apply(name, ins):
    f = UNARY.get(name) if len(ins) == 1 else BINARY.get(name)
    if f is None:
        raise Unsupported(f"numpy ufunc {name} on symbolic data")
    dt = _res_dtype(name, ins)
    raw = []
    for x in ins:
        if isinstance(x, SA):
            raw.append(x.view(np.ndarray))
        elif isinstance(x, np.ndarray):
            raw.append(mkarr(x).view(np.ndarray))
        else:
            y = np.empty((), dtype=object)
            y[()] = lift_elem(x) if is_num(x) else x
            raw.append(y)
    bs = np.broadcast_arrays(*raw) if len(raw) > 1 else raw
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        v = f(*[b[i] for b in bs])
        if dt.kind in "iu" and isinstance(v, Sym):
            v = wrap_int(v, dt) if v.isint else cast(v, dt)
        elif dt.kind == "f" and isinstance(v, Sym) and v.isint:
            v = cast(v, dt)
        elif dt.kind == "c":
            v = SymC.of(v)
        out[i] = v
    r = out.view(SA)
    r.vdtype = dt
    return r


def unwrap0(r):
    if isinstance(r, np.ndarray) and r.shape == ():
        return np.ndarray.__getitem__(r, ())
    return r


class SA(np.ndarray):
    vdtype = F64

    def __array_finalize__(self, obj):
        if obj is not None:
            self.vdtype = getattr(obj, "vdtype", None) or F64

    @property
    def dtype(self):
        return self.vdtype

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, dtype=None, axis=0, keepdims=False, **kw):
        name = ufunc.__name__
        if where is not True:
            raise Unsupported("ufunc where=")
        if method == "__call__":
            if name == "matmul":
                return matmul(*inputs)
            if name in ("divmod", "modf"):
                from . import npmore

                return (npmore.np_divmod if name == "divmod" else npmore.modf)(*inputs)
            r = _apply(name, inputs)
            if dtype is not None:
                r = r.astype(_real_dtype(dtype))
        elif method == "reduce":
            r = _reduce(name, mkarr_nocopy(inputs[0]), axis, keepdims)
        elif method == "accumulate":
            r = _accumulate(name, mkarr_nocopy(inputs[0]), axis)
        elif method == "outer":
            r = _outer(name, *inputs)
        else:
            raise Unsupported(f"ufunc method {method}")
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            rr = mkarr_nocopy(r)
            od = dtype_of(o)
            if not np.can_cast(rr.vdtype, od, "same_kind"):
                raise np.core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", rr.vdtype, od, 0)
            if not isinstance(o, SA):
                raise Unsupported("in-place write of symbolic data into a concrete array")
            rr = rr.astype(od)
            o.view(np.ndarray)[...] = rr.view(np.ndarray)
            return o
        return unwrap0(r)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        f = NP.__dict__.get(name) or getattr(NP, name, None)
        if f is not None and getattr(f, "_symx", False):
            return f(*args, **kwargs)
        mod = getattr(func, "__module__", "")
        if "linalg" in mod and hasattr(NP.linalg, name):
            return getattr(NP.linalg, name)(*args, **kwargs)
        from . import npmore

        return npmore.generic(func, args, kwargs)

    # indexing with symbolic masks
    def __getitem__(self, idx):
        idx = _fixidx(idx)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, val):
        m = _symmask(idx)
        if m is not None:
            v = mkarr_nocopy(val)
            if v.shape not in ((), (1,)) and v.shape != self.shape:
                # value array selected by the same mask: concretise the mask
                idx = _fixidx(idx)
            else:
                base = self.view(np.ndarray)
                vb = np.broadcast_to(v.view(np.ndarray), self.shape)
                mb = np.broadcast_to(m.view(np.ndarray).reshape(m.shape + (1,) * (self.ndim - m.ndim)), self.shape)
                for i in np.ndindex(self.shape):
                    base[i] = ite(mb[i], cast(vb[i], self.vdtype), base[i])
                return
        idx = _fixidx(idx)
        v = mkarr_nocopy(val).astype(self.vdtype)
        base = self.view(np.ndarray)
        if v.shape == ():
            base[idx] = np.ndarray.__getitem__(v, ())
        else:
            base[idx] = v.view(np.ndarray)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.view(np.ndarray).reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.view(np.ndarray).reshape(-1)[0])

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def astype(self, dtype, copy=True, **k):
        dt = np.dtype(_real_dtype(dtype))
        base = self.view(np.ndarray)
        out = np.empty(self.shape, dtype=object)
        for i in np.ndindex(self.shape):
            out[i] = cast(base[i], dt) if dt != self.vdtype else base[i]
        r = out.view(SA)
        r.vdtype = dt if dt != object else self.vdtype
        return r

    def copy(self, order="C"):
        r = np.ndarray.copy(self.view(np.ndarray)).view(SA)
        r.vdtype = self.vdtype
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = copy

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return unwrap0(_reduce("add", self, axis, keepdims))

    def prod(self, axis=None, **k):
        return unwrap0(_reduce("multiply", self, axis, False))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return unwrap0(_reduce("minimum", self, axis, keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return unwrap0(_reduce("maximum", self, axis, keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return unwrap0(_apply("sqrt", (self.var(axis, ddof=ddof, keepdims=keepdims),)))

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        d = self - mkarr_nocopy(self.mean(axis, keepdims=True))
        s = unwrap0(_reduce("add", mkarr_nocopy(d * d), axis, keepdims))
        n = self.size if axis is None else self.size // max(1, mkarr_nocopy(s).size)
        return s / (n - ddof)

    def all(self, axis=None, **k):
        return unwrap0(_reduce("logical_and", self, axis, False))

    def any(self, axis=None, **k):
        return unwrap0(_reduce("logical_or", self, axis, False))

    def cumsum(self, axis=None, **k):
        return _accumulate("add", self.reshape(-1) if axis is None else self, axis or 0)

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def dot(self, b):
        return dot(self, b)

    def argmax(self, axis=None, **k):
        return NP.argmax(self, axis)

    def argmin(self, axis=None, **k):
        return NP.argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return NP.argsort(self, axis)

    def ptp(self, axis=None, **k):
        return NP.ptp(self, axis)

    def cumprod(self, axis=None, **k):
        return _accumulate("multiply", self.reshape(-1) if axis is None else self, axis or 0)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def trace(self, offset=0, **k):
        return unwrap0(_reduce("add", self.diagonal(offset), None, False))

    def nonzero(self):
        return np.nonzero(_concmask(self))

    def __repr__(self):
        return f"SA({self.view(np.ndarray)!r})"

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes of a symbolic array")

    def conj(self):
        return _apply("conjugate", (self,))

    conjugate = conj

    @property
    def real(self):
        return _part(self, "real")

    @property
    def imag(self):
        return _part(self, "imag")


def _part(a, which):
    a = mkarr_nocopy(a)
    if a.vdtype.kind != "c":
        return a if which == "real" else full_like(a, 0)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = getattr(SymC.of(a.view(np.ndarray)[i]), which)
    r = out.view(SA)
    r.vdtype = np.dtype("f4") if a.vdtype.itemsize == 8 else F64
    return r


def _argbest(a, better):
    f = a.view(np.ndarray).reshape(-1)
    bi = 0
    for i in range(1, len(f)):
        if bool(better(f[i], f[bi])):
            bi = i
    return bi


def _concmask(a):
    b = a.view(np.ndarray)
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        out[i] = bool(b[i])
    return out


def _symmask(idx):
    if isinstance(idx, SA) and idx.vdtype == BOOL:
        if any(isinstance(e, SymBool) for e in idx.view(np.ndarray).flat):
            return idx
    return None


def _fixidx(idx):
    if isinstance(idx, tuple):
        return tuple(_fixidx(i) for i in idx)
    if isinstance(idx, SA):
        if idx.vdtype == BOOL:
            return _concmask(idx)
        b = idx.view(np.ndarray)
        out = np.empty(idx.shape, dtype=np.intp)
        for i in np.ndindex(idx.shape):
            out[i] = b[i].__index__()
        return out
    if isinstance(idx, Sym):
        return idx.__index__()
    if isinstance(idx, slice):
        f = lambda v: v.__index__() if isinstance(v, Sym) else v
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    return idx


def mkarr_nocopy(x):
    return x if isinstance(x, SA) else mkarr(x)


def _reduce(name, a, axis, keepdims):
    f = BINARY[name]
    base = a.view(np.ndarray)
    dt = a.vdtype
    if name in ("add", "multiply") and dt.kind in "iub" and dt.itemsize < 8:
        dt = np.dtype(np.uint64) if dt.kind == "u" else I64
    if name in CMP:
        dt = BOOL
        base = np.frompyfunc(_tob, 1, 1)(base) if base.size else base

    def fold(vals):
        vals = list(vals)
        if not vals:
            if name in ("maximum", "minimum"):
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            return {"add": Sym.const(0.0), "multiply": Sym.const(1.0), "logical_and": True, "logical_or": False}[name]
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        return r

    if axis is None:
        r = np.empty((), dtype=object)
        r[()] = fold(base.reshape(-1))
        if keepdims:
            r = r.reshape((1,) * a.ndim)
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(x % a.ndim for x in axes)
        rest = [i for i in range(a.ndim) if i not in axes]
        t = base.transpose(rest + list(axes))
        oshape = tuple(a.shape[i] for i in rest)
        r = np.empty(oshape, dtype=object)
        for i in np.ndindex(oshape):
            r[i] = fold(t[i].reshape(-1))
        if keepdims:
            r = r.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    r = np.asarray(r, dtype=object).view(SA)
    r.vdtype = dt
    return r


def _accumulate(name, a, axis=0):
    f = BINARY[name]
    base = a.view(np.ndarray).copy()
    t = np.moveaxis(base, axis, 0)
    for i in range(1, t.shape[0]):
        for j in np.ndindex(t.shape[1:]):
            t[(i,) + j] = f(t[(i - 1,) + j], t[(i,) + j])
    r = base.view(SA)
    r.vdtype = a.vdtype if a.vdtype.kind == "f" or a.vdtype.itemsize == 8 else I64
    return r


# --------------------------------------------------------------------------------------------------------- functions
def dot(a, b):
    if is_num(a) or is_num(b):
        return mkarr_nocopy(a) * b if not is_num(a) else (a * mkarr_nocopy(b) if not is_num(b) else a * b)
    a, b = mkarr_nocopy(a), mkarr_nocopy(b)
    return matmul(a, b)


def matmul(a, b, **k):
    a, b = mkarr_nocopy(a), mkarr_nocopy(b)
    A, B = a.view(np.ndarray), b.view(np.ndarray)
    if A.ndim == 1 and B.ndim == 1:
        if len(A) != len(B):
            raise ValueError("shapes not aligned")
        return _sumprod(A, B)
    if A.ndim == 1:
        if len(A) != B.shape[-2]:
            raise ValueError("shapes not aligned")
        r = np.empty(B.shape[1:], dtype=object)
        for j in range(B.shape[1]):
            r[j] = _sumprod(A, B[:, j])
    elif B.ndim == 1:
        if A.shape[-1] != len(B):
            raise ValueError("shapes not aligned")
        r = np.empty(A.shape[:-1], dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = _sumprod(A[i], B)
    elif A.ndim == 2 and B.ndim == 2:
        if A.shape[1] != B.shape[0]:
            raise ValueError("shapes not aligned")
        r = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                r[i, j] = _sumprod(A[i], B[:, j])
    else:
        lead = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        A, B = np.broadcast_to(A, lead + A.shape[-2:]), np.broadcast_to(B, lead + B.shape[-2:])
        r = np.empty(lead + (A.shape[-2], B.shape[-1]), dtype=object)
        for i in np.ndindex(*lead):
            r[i] = matmul(A[i].view(SA), B[i].view(SA)).view(np.ndarray)
    r = r.view(SA)
    r.vdtype = F64
    return r


def _sumprod(x, y):
    r = Sym.const(0.0)
    for i in range(len(x)):
        r = r + _num(x[i]) * _num(y[i])
    return r


def mean(a, axis=None, keepdims=False, **k):
    a = mkarr_nocopy(a)
    s = _reduce("add", a, axis, keepdims)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    if n == 0:
        return Sym(math.nan)
    r = _apply("true_divide", (s, n))
    return unwrap0(r)


def clip(a, a_min=None, a_max=None, out=None, **k):
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    r = a
    if a_min is not None:
        r = _apply("maximum", (r, a_min))
    if a_max is not None:
        r = _apply("minimum", (r, a_max))
    if out is not None:
        out[...] = r
        return out
    return unwrap0(r)


def np_round(a, decimals=0, out=None):
    a = mkarr_nocopy(a)
    b = a.view(np.ndarray)
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = core.round_(b[i], int(decimals))
        r[i] = cast(v, a.vdtype)
    r = r.view(SA)
    r.vdtype = a.vdtype
    return unwrap0(r)


def _wrapres(r, vd):
    if isinstance(r, np.ndarray):
        r = r.view(SA)
        r.vdtype = vd
    return r


def _vd(arrs):
    ds = [dtype_of(a) if not isinstance(a, (list, tuple)) else _vd_nested(a) for a in arrs]
    ds = [d for d in ds if d != object]
    return np.result_type(*ds) if ds else F64


def _joiner(fn):
    def g(arrs, *a, **k):
        arrs = list(arrs)
        vd = _vd(arrs)
        k.pop("dtype", None)
        raws = [mkarr_nocopy(x).view(np.ndarray) for x in arrs]
        return _wrapres(fn(raws, *a, **k), vd)

    return g


def _shaper(fn):
    def g(a, *x, **k):
        a = mkarr_nocopy(a)
        return _wrapres(fn(a.view(np.ndarray), *x, **k), a.vdtype)

    return g


def append(arr, values, axis=None):
    a, v = mkarr_nocopy(arr), mkarr_nocopy(values)
    vd = np.result_type(a.vdtype, v.vdtype)
    if axis is None:
        r = np.concatenate([a.view(np.ndarray).reshape(-1), v.view(np.ndarray).reshape(-1)])
    else:
        r = np.concatenate([a.view(np.ndarray), v.view(np.ndarray)], axis=axis)
    return _wrapres(r, vd)


def full(shape, v, dtype=None, **k):
    shape = _fixshape(shape)
    base = np.empty(shape, dtype=object)
    vd = np.dtype(_real_dtype(dtype)) if dtype is not None else dtype_of(v)
    x = lift_elem(v) if is_num(v) else v
    if not is_num(v):
        return mkarr(np.broadcast_to(mkarr_nocopy(v).view(np.ndarray), shape)).astype(vd)
    for i in np.ndindex(base.shape):
        base[i] = cast(x, vd)
    return _wrapres(base, vd)


def _fixshape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


def zeros(shape, dtype=float, **k):
    return full(shape, 0.0, dtype)


def ones(shape, dtype=float, **k):
    return full(shape, 1.0, dtype)


def _like(v):
    def g(a, dtype=None, shape=None, **k):
        a = mkarr_nocopy(a)
        return full(a.shape if shape is None else shape, v, dtype or a.vdtype)

    return g


def full_like(a, v, dtype=None, **k):
    a = mkarr_nocopy(a)
    return full(a.shape, v, dtype or a.vdtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    start, stop = Sym.const(unwrap0(start)), Sym.const(unwrap0(stop))
    num = int(num)
    div = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    step = (stop - start) / div if div > 0 else Sym.const(math.nan)
    for i in range(num):
        v = start + step * i if i and div > 0 else start + 0.0
        if endpoint and i == num - 1 and num > 1:
            v = stop + 0.0
        out[i] = cast(v, F64)
    r = _wrapres(out, F64)
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


def arange(*a, dtype=None, **k):
    a = [int(x) if isinstance(x, Sym) and x.isint else x for x in a]
    return mkarr(np.arange(*[float(x) if isinstance(x, Sym) else x for x in a], dtype=_real_dtype(dtype) if dtype else None))


def meshgrid(*xs, **k):
    return [_wrapres(np.array(r), dtype_of(x)) for r, x in zip(np.meshgrid(*[mkarr_nocopy(x).view(np.ndarray) for x in xs], **k), xs)]


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = mkarr_nocopy(a), mkarr_nocopy(b)
    if a.shape == (2,) and b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("2-d cross product")
    A, B = np.broadcast_arrays(a.view(np.ndarray), b.view(np.ndarray))
    out = np.empty(A.shape, dtype=object)
    for i in np.ndindex(A.shape[:-1]):
        x, y = A[i], B[i]
        out[i + (0,)] = x[1] * y[2] - x[2] * y[1]
        out[i + (1,)] = x[2] * y[0] - x[0] * y[2]
        out[i + (2,)] = x[0] * y[1] - x[1] * y[0]
    return _wrapres(out, F64)


def where(c, *xy):
    if not xy:
        return np.nonzero(_concmask(mkarr_nocopy(c)))
    c, x, y = mkarr_nocopy(c), mkarr_nocopy(xy[0]), mkarr_nocopy(xy[1])
    C, X, Y = np.broadcast_arrays(c.view(np.ndarray), x.view(np.ndarray), y.view(np.ndarray))
    vd = np.result_type(x.vdtype, y.vdtype)
    out = np.empty(C.shape, dtype=object)
    for i in np.ndindex(C.shape):
        out[i] = ite(_tob(C[i]), cast(X[i], vd), cast(Y[i], vd))
    return unwrap0(_wrapres(out, vd))


def norm(x, ord=None, axis=None, keepdims=False):
    if mkarr_nocopy(x).vdtype.kind == "c":
        x = _apply("absolute", (x,))
    x = mkarr_nocopy(x)
    if ord in (1, math.inf) and (x.ndim == 1 or isinstance(axis, int)):
        return unwrap0(_reduce("add" if ord == 1 else "maximum", _apply("absolute", (x,)), axis, keepdims))
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim == 2 and axis is None):
        raise Unsupported("norm order")
    s = _reduce("add", _apply("multiply", (x, x)), axis, keepdims)
    core.NONNEG.append(1)
    try:
        return unwrap0(_apply("sqrt", (s,)))
    finally:
        core.NONNEG.pop()


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = Sym.const(0.0)
    for j in range(n):
        if isinstance(M[0][j], Sym) and M[0][j].c == 0:
            continue
        minor = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = M[0][j] * _det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def det(a):
    a = mkarr_nocopy(a)
    return _det(a.view(np.ndarray).tolist())


def inv(a):
    a = mkarr_nocopy(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    M = a.view(np.ndarray).tolist()
    n = len(M)
    D = _det(M)
    if bool(D == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            cof = _det(minor) if n > 1 else Sym.const(1.0)
            if (i + j) % 2:
                cof = -cof
            out[i, j] = cof / D
    return _wrapres(out, F64)


def solve(a, b):
    return matmul(inv(a), b)


def lstsq(a, b, rcond="warn"):
    """Least squares by contract: the normal equations hold at the returned solution (A full column rank assumed)."""
    a, b = mkarr_nocopy(a), mkarr_nocopy(b)
    A, B = a.view(np.ndarray), b.view(np.ndarray)
    c = core.ctx()
    m, n = A.shape
    from . import linsolve

    x = np.empty(n, dtype=object)
    if m == n:
        rows, rhs = A, list(B)
    else:
        rows = np.empty((n, n), dtype=object)
        rhs = [None] * n
        for i in range(n):
            for j in range(n):
                rows[i, j] = _sumprod(A[:, i], A[:, j])
            rhs[i] = _sumprod(A[:, i], B)
        c.assumptions.add("least-squares solution satisfies the normal equations (full column rank)")
    for i, v in enumerate(linsolve.solve([list(r) for r in rows], rhs)):
        x[i] = v
    return _wrapres(x, F64), None, n, None


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = abs(mkarr_nocopy(a) - b)
    return (mkarr_nocopy(d) <= atol + rtol * abs(mkarr_nocopy(b))).all() if not is_num(d) else d <= atol + rtol * abs(b)


def histogram(*a, **k):
    raise Unsupported("histogram")


def sort(a, axis=-1, **k):
    a = mkarr_nocopy(a)
    if a.ndim > 1 and axis is not None:
        return NP.apply_along_axis(sort, axis, a)
    a = a.reshape(-1)
    v = list(a.view(np.ndarray))
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            lo, hi = core.smin(v[j], v[j + 1]), core.smax(v[j], v[j + 1])
            v[j], v[j + 1] = lo, hi
    return mkarr(v)


def median(a, axis=None, **k):
    if axis is not None and mkarr_nocopy(a).ndim > 1:
        return NP.apply_along_axis(median, axis, a)
    s = sort(mkarr_nocopy(a).reshape(-1)).view(np.ndarray)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def diff(a, n=1, axis=-1, **k):
    a = mkarr_nocopy(a)
    for _ in range(int(n)):
        lo, hi = [slice(None)] * a.ndim, [slice(None)] * a.ndim
        lo[axis], hi[axis] = slice(None, -1), slice(1, None)
        a = mkarr_nocopy(a[tuple(hi)] - a[tuple(lo)])
    return a


# --------------------------------------------------------------------------------------------------------- polynomials
class SymPoly:
    """numpy.polynomial.Polynomial with the default domain/window."""

    def __init__(self, coef, domain=None, window=None, symbol="x"):
        self.coef = mkarr(coef, F64) if not is_num(coef) else mkarr([coef], F64)

    def __call__(self, x):
        return polyval(x, self.coef)

    def deriv(self, m=1):
        return SymPoly(polyder(self.coef, m))

    def degree(self):
        return len(self.coef) - 1

    def __len__(self):
        return len(self.coef)

    def copy(self):
        return SymPoly(self.coef.copy())

    def __repr__(self):
        return f"SymPoly({self.coef!r})"


def polyder(c, m=1, scl=1, axis=0):
    c = mkarr_nocopy(c)
    v = list(c.view(np.ndarray))
    for _ in range(int(m)):
        v = [v[j] * j for j in range(1, len(v))] or [Sym.const(0.0)]
    return mkarr(v, F64)


def polyval(x, c, tensor=True):
    c = mkarr_nocopy(c)
    if c.ndim != 1:
        raise Unsupported("polyval tensor")
    v = list(c.view(np.ndarray))
    if isinstance(x, (list, tuple)):
        x = mkarr(x)
    r = v[-1] + x * 0
    for k in range(len(v) - 2, -1, -1):
        r = v[k] + r * x
    return r


def polyval2d(x, y, c):
    c = mkarr_nocopy(c)
    if isinstance(x, (list, tuple)):
        x, y = mkarr(x), mkarr(y)
    r = Sym.const(0.0)
    C = c.view(np.ndarray)
    for i in reversed(range(C.shape[0])):
        row = Sym.const(0.0)
        for j in reversed(range(C.shape[1])):
            row = row * y + C[i, j]
        r = r * x + row
    return r


class _Sub:
    pass


class NPShim:
    """Module look-alike handed to the code under test instead of numpy."""

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            def g(*a, _n=name, _v=v, **k):
                if any(has_sym(x) for x in a):
                    out = k.pop("out", None)
                    axis = k.pop("axis", None)
                    r = _apply(_v.__name__, a)
                    if out is not None:
                        out[...] = r
                        return out
                    dt = k.pop("dtype", None)
                    if dt is not None:
                        r = r.astype(dt)
                    return unwrap0(r)
                return _v(*[(float(x) if isinstance(x, Sym) else x) for x in a], **k)

            g._symx = True
            if v.nout > 1:
                from . import npmore

                two = {"divmod": npmore.np_divmod, "modf": npmore.modf}.get(v.__name__)
                one = g

                def g(*a, **k):
                    if two is None or not any(has_sym(x) for x in a):
                        return one(*a, **k)
                    return two(*a, **k)

                g._symx = True
            g.outer = lambda a, b, **k: _outer(v.__name__, a, b)
            g.reduce = lambda a, axis=0, keepdims=False, **k: unwrap0(_reduce(v.__name__, mkarr_nocopy(a), axis, keepdims))
            g.accumulate = lambda a, axis=0, **k: _accumulate(v.__name__, mkarr_nocopy(a), axis)
            g.__name__ = name
            return g
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ == "_ArrayFunctionDispatcher":
            def h(*a, **k):
                if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                    if not any(isinstance(x, SA) for x in a):
                        from . import npmore

                        return npmore.generic(v, a, k)
                return v(*a, **k)

            h.__name__ = name
            return h
        return v


def _outer(name, a, b):
    a, b = mkarr_nocopy(a), mkarr_nocopy(b)
    return _apply(name, (a.reshape(a.shape + (1,) * b.ndim), b))


NP = NPShim()


def _reg(name, f):
    def g(*a, **k):
        return f(*a, **k)

    g._symx = True
    g.__name__ = name
    NP.__dict__[name] = g
    return g


class _Scalar:
    """np.float64(x) and friends: callable casts usable as dtypes."""

    def __init__(self, t):
        self._symx_np = np.dtype(t)
        self.t = t

    @property
    def dtype(self):
        return self._symx_np

    def __call__(self, x=0):
        if isinstance(x, (SA, list, tuple, np.ndarray)):
            return mkarr(x, self._symx_np)
        if core.tok_has(x):
            return cast(core.tok_number(x), self._symx_np)
        if isinstance(x, (Sym, SymBool)):
            return cast(x, self._symx_np)
        return Sym.const(self.t(x).item())

    def __instancecheck__(self, o):
        return isinstance(o, self.t)

    def __eq__(self, o):
        return np.dtype(_real_dtype(o)) == self._symx_np if o is not None else False

    def __hash__(self):
        return hash(self._symx_np)


def np_array(x, dtype=None, copy=True, **k):
    ndmin = k.pop("ndmin", 0)
    if isinstance(x, np.ndarray) and not isinstance(x, SA) and x.dtype.kind not in "iufbO":
        return np.array(x, dtype=dtype)
    try:
        r = mkarr(x, dtype)
    except Unsupported:
        return np.array(x, dtype=_real_dtype(dtype) if dtype is not None else None)
    if r.vdtype == object and dtype is None:
        return np.array(x)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


_reg("array", np_array)
_reg("asarray", lambda x, dtype=None, **k: x if isinstance(x, SA) and dtype is None else np_array(x, dtype))
_reg("asanyarray", NP.__dict__["asarray"])
_reg("ascontiguousarray", NP.__dict__["asarray"])
_reg("atleast_1d", lambda x: mkarr_nocopy(x).reshape(-1) if is_num(x) or mkarr_nocopy(x).ndim == 0 else mkarr_nocopy(x))
_reg("copy", lambda x, **k: mkarr(x))
for _n, _f in dict(zeros=zeros, ones=ones, empty=zeros, full=full, zeros_like=_like(0.0), ones_like=_like(1.0),
                   empty_like=_like(0.0), full_like=full_like, linspace=linspace, arange=arange, meshgrid=meshgrid,
                   dot=dot, matmul=matmul, inner=dot, vdot=lambda a, b: dot(mkarr_nocopy(a).conj().reshape(-1), mkarr_nocopy(b).reshape(-1)), mean=mean, average=mean, clip=clip, append=append,
                   cross=cross, where=where, round=np_round, around=np_round, round_=np_round, allclose=allclose,
                   sort=sort, median=median, diff=diff, polyval=lambda p, x: polyval(x, list(p)[::-1])).items():
    _reg(_n, _f)
_reg("eye", lambda n, *a, **k: mkarr(np.eye(int(n))))
_reg("identity", lambda n, *a, **k: mkarr(np.eye(int(n))))
_reg("sum", lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: unwrap0(_reduce("add", mkarr_nocopy(a), axis, keepdims)))
_reg("prod", lambda a, axis=None, **k: unwrap0(_reduce("multiply", mkarr_nocopy(a), axis, False)))
for _n in ("min", "amin", "nanmin"):
    _reg(_n, lambda a, axis=None, **k: unwrap0(_reduce("minimum", mkarr_nocopy(a), axis, False)))
for _n in ("max", "amax", "nanmax"):
    _reg(_n, lambda a, axis=None, **k: unwrap0(_reduce("maximum", mkarr_nocopy(a), axis, False)))
_reg("all", lambda a, axis=None, **k: unwrap0(_reduce("logical_and", mkarr_nocopy(a), axis, False)))
_reg("any", lambda a, axis=None, **k: unwrap0(_reduce("logical_or", mkarr_nocopy(a), axis, False)))
_reg("cumsum", lambda a, axis=None, **k: mkarr_nocopy(a).cumsum(axis))
_reg("fromiter", lambda it, dtype=None, count=-1, **k: mkarr(list(it), dtype))
_reg("std", lambda a, **k: mkarr_nocopy(a).std(**k))
_reg("var", lambda a, **k: mkarr_nocopy(a).var(**k))
_reg("nanmean", lambda a, **k: mean([e for e in mkarr_nocopy(a).view(np.ndarray).reshape(-1) if not _u_isnan(e)]))
for _n in ("stack", "vstack", "hstack", "dstack", "concatenate", "column_stack"):
    _reg(_n, _joiner(getattr(np, _n)))
for _n in ("transpose", "reshape", "squeeze", "expand_dims", "moveaxis", "swapaxes", "ravel", "flip", "flipud", "fliplr",
           "rot90", "tile", "repeat", "roll", "broadcast_to", "rollaxis", "take", "delete", "diagonal", "atleast_2d"):
    _reg(_n, _shaper(getattr(np, _n)))
_reg("abs", lambda x: unwrap0(_apply("absolute", (x,))))
_reg("argmax", lambda a, **k: mkarr_nocopy(a).argmax())
_reg("argmin", lambda a, **k: mkarr_nocopy(a).argmin())
_reg("nonzero", lambda a: mkarr_nocopy(a).nonzero())
_reg("count_nonzero", lambda a, **k: sum((core.SymBool._num(x) if isinstance(x, SymBool) else int(bool(x))) for x in
                                         [_tob(e) for e in mkarr_nocopy(a).view(np.ndarray).flat]))
_reg("ndim", lambda a: 0 if is_num(a) else mkarr_nocopy(a).ndim)
_reg("shape", lambda a: () if is_num(a) else mkarr_nocopy(a).shape)
_reg("size", lambda a: 1 if is_num(a) else mkarr_nocopy(a).size)
_reg("array_repr", lambda a, **k: repr(a))
_reg("isclose", lambda a, b, rtol=1e-5, atol=1e-8, **k: abs(_num(a) - _num(b)) <= atol + rtol * abs(_num(b)))
_reg("array_equal", lambda a, b, **k: mkarr_nocopy(a).shape == mkarr_nocopy(b).shape and (mkarr_nocopy(a) == mkarr_nocopy(b)).all())
_reg("nan_to_num", lambda a, nan=0.0, **k: _nan_to_num(a, nan))
_reg("polyder", polyder)
_reg("outer", lambda a, b: _apply("multiply", (mkarr_nocopy(a).reshape(-1, 1), mkarr_nocopy(b).reshape(1, -1))))


def _nan_to_num(a, nan):
    if is_num(a):
        return Sym.const(nan) if _u_isnan(a) else a
    a = mkarr(a)
    b = a.view(np.ndarray)
    for i in np.ndindex(a.shape):
        if _u_isnan(b[i]):
            b[i] = Sym.const(nan)
    return a


for _n in ("float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "double", "single",
           "float_", "int_", "bool_", "intp"):
    if hasattr(np, _n):
        NP.__dict__[_n] = _Scalar(getattr(np, _n))

NP.linalg = _Sub()
NP.linalg.norm, NP.linalg.inv, NP.linalg.det, NP.linalg.solve, NP.linalg.lstsq = norm, inv, det, solve, lstsq
NP.linalg.pinv = inv
NP.linalg.LinAlgError = np.linalg.LinAlgError
NP.polynomial = _Sub()
NP.polynomial.Polynomial = SymPoly
NP.polynomial.polynomial = _Sub()
NP.polynomial.polynomial.Polynomial = SymPoly
NP.polynomial.polynomial.polyval = polyval
NP.polynomial.polynomial.polyval2d = polyval2d
NP.polynomial.polynomial.polyder = polyder
NP.ndarray = np.ndarray
NP.pi = math.pi
NP.iinfo = lambda t: np.iinfo(_real_dtype(t))
NP.finfo = lambda t: np.finfo(_real_dtype(t))
NP.dtype = lambda t: np.dtype(_real_dtype(t))


class SymVectorize:
    """element by element, symbols allowed in arguments and results"""

    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if excluded or signature:
            raise Unsupported("numpy.vectorize with excluded or signature")
        self.pyfunc, self.otypes = pyfunc, otypes

    def __call__(self, *args):
        raw = []
        for x in args:
            if isinstance(x, np.ndarray):
                raw.append(x.view(np.ndarray) if x.dtype == object else mkarr(x).view(np.ndarray))
            elif isinstance(x, (list, tuple)):
                raw.append(mkarr(x).view(np.ndarray))
            else:
                y = np.empty((), dtype=object)
                y[()] = lift_elem(x) if is_num(x) else x
                raw.append(y)
        bs = np.broadcast_arrays(*raw)
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = unwrap0(self.pyfunc(*[b[i] for b in bs]))
        flat = list(out.reshape(-1))
        if flat and all(is_num(v) or isinstance(v, SymBool) for v in flat):
            r = mkarr([flat]) if flat else out
            r = r.reshape(out.shape)
            return r.astype(np.dtype(self.otypes[0])) if self.otypes else r
        return out


NP.vectorize = SymVectorize
NP.typing = np.typing if hasattr(np, "typing") else None

from . import npmore  # noqa: E402,F401
