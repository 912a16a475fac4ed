"""symx.core - symbolic values and path exploration for executing the real toolkit code with z3.

A path is one concrete sequence of branch decisions.  The code under test runs natively in CPython; whenever it asks for
the truth of a symbolic condition, `Ctx.decide` consults the solver and either follows the recorded decision prefix or
forks.  Every float is a z3 Real (optionally with a bounded rounding error per operation, `fp_err`), every int a z3 Int.
"""
import math
import numbers
import time
from fractions import Fraction

import numpy as np
import z3


class Unsupported(BaseException):
    """The engine cannot encode this operation: the result is inconclusive, never 'holds'."""


class PathDone(BaseException):
    """Current path was cut (infeasible assumption)."""


class Budget(BaseException):
    pass


CTX = None  # the active Ctx

Q_STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0, "cvc5": 0}


def q_reset():
    for k in Q_STATS:
        Q_STATS[k] = 0.0 if k == "time" else 0


# --------------------------------------------------------------------------------------------------------- solver calls
def _has_uf_or_int(exprs):
    seen = set()
    todo = list(exprs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                return True
            if z3.is_int(e) and not z3.is_int_value(e):
                return True
            todo.extend(e.children())
    return False


_VARS = {}


def expr_vars(e):
    """ids of the free variables / uninterpreted function symbols of an expression"""
    i = e.get_id()
    r = _VARS.get(i)
    if r is not None:
        return r[0]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    if len(_VARS) > 200000:
        _VARS.clear()
    _VARS[i] = (frozenset(out), e)
    return _VARS[i][0]


def slice_cons(cons, goal):
    """Constraints in the cone of influence of goal (unsat of the slice implies unsat of the whole)."""
    need = set(expr_vars(goal))
    rest = [(c, expr_vars(c)) for c in cons]
    keep = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for c, vs in rest:
            if vs & need:
                keep.append(c)
                if not vs <= need:
                    need |= vs
                    changed = True
            else:
                nxt.append((c, vs))
        rest = nxt
    return keep


def check_goal(cons, goal, timeout_ms):
    """Is cons and goal satisfiable? Decided on the slice first."""
    sl = slice_cons(cons, goal)
    r, m = check_sat(sl + [goal], timeout_ms)
    if r == "unsat" or len(sl) == len(cons):
        return r, m
    if r == "sat":
        r2, m2 = check_sat(cons + [goal], timeout_ms)
        return (r2, m2) if r2 != "unknown" else ("sat", m)
    return r, m


def check_sat(constraints, timeout_ms=10000, want_model=False, fallback=True):
    """Decide satisfiability of the conjunction. Returns ('sat'|'unsat'|'unknown', model|None)."""
    t0 = time.time()
    Q_STATS["queries"] += 1
    res, model = "unknown", None
    try:
        short = timeout_ms if not fallback else min(timeout_ms, 2500)
        res, model = _z3(z3.Solver(), constraints, short)
        if res == "unknown" and fallback:
            if not want_model:
                res = cvc5_check(constraints, timeout_ms)
            if res == "unknown" and not _has_uf_or_int(constraints):
                t = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat")
                res, model = _z3(t.solver(), constraints, timeout_ms)
            if res == "unknown" and short < timeout_ms:
                res, model = _z3(z3.SimpleSolver(), constraints, timeout_ms)
    except z3.Z3Exception:
        res = "unknown"
    Q_STATS["time"] += time.time() - t0
    Q_STATS[res] += 1
    return res, model


RUNNING = None  # (start, limit in s) of the z3 call in progress, for the watchdog


def _z3(s, constraints, timeout_ms):
    global RUNNING
    try:
        s.set("timeout", int(timeout_ms))
        for c in constraints:
            s.add(c)
        RUNNING = (time.time(), timeout_ms / 1000)
        r = s.check()
        RUNNING = None
        return str(r), (s.model() if r == z3.sat else None)
    except z3.Z3Exception:
        return "unknown", None
    finally:
        RUNNING = None


def cvc5_check(constraints, timeout_ms):
    """Second solver, over SMT-LIB text. Only 'unsat' is used as a verdict; any error text is 'unknown'."""
    import subprocess

    Q_STATS["cvc5"] += 1
    s = z3.Solver()
    for c in constraints:
        s.add(c)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    for opts in ([], ["--nl-cov"]):
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(timeout_ms / (1 if not opts else 2))}", *opts],
                               input=txt, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        except Exception:
            continue
        out = p.stdout.strip().splitlines()
        if "(error" in p.stdout or not out:
            continue
        if out[0] in ("unsat", "sat"):
            return out[0]
    return "unknown"


# ------------------------------------------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prefix=(), decide_timeout=3000, fp_err=False, div_mode="assume", max_decisions=400):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []  # decisions taken (bool)
        self.forks = []  # new prefixes to explore
        self.cons = []  # path constraints
        self.names = {}
        self.inputs = {}  # name -> (kind, Sym, lo, hi)
        self.decide_timeout = decide_timeout
        self.fp_err = fp_err
        self.div_mode = div_mode
        self.assumptions = set()
        self.n = 0
        self.max_decisions = max_decisions
        self.tokens = {}
        self.tok_src = {}
        self.hashed = {}  # constants used as dictionary keys
        self.sym_hash = {}
        self.keep = []
        self.uf_apps = {}
        self.sqrt_cache = {}
        self.squares = {}
        self.quot_cache = {}
        self.notes = set()
        self.unknown_branches = 0
        self.deadline = None

    def fresh(self, base, sort="r"):
        self.n += 1
        nm = f"{base}!{self.n}"
        return z3.Real(nm) if sort == "r" else (z3.Int(nm) if sort == "i" else z3.Bool(nm))

    def add(self, c):
        if c is True or c is False:
            if c is False:
                raise PathDone("false assumption")
            return
        c = z3.simplify(c) if z3.is_true(c) or z3.is_false(c) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathDone("false assumption")
        self.cons.append(c)

    def feasible(self, *extra):
        r, _ = check_sat(self.cons + list(extra), self.decide_timeout, fallback=False)
        return r

    def decide(self, cond):
        """Return the truth value of a z3 Bool on this path, forking when both are possible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exceeded")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(v)
            self.cons.append(cond if v else z3.Not(cond))
            return v
        if len(self.trail) >= self.max_decisions:
            raise Budget("decision budget exceeded on one path")
        neg = z3.Not(cond)
        ft = self.feasible(cond)
        if ft == "unsat":
            v = False
        else:
            ff = self.feasible(neg)
            if ft == "unknown" or ff == "unknown":
                self.unknown_branches += 1
            if ff == "unsat":
                v = True
            else:
                v = True
                self.forks.append(self.trail + [False])
        self.trail.append(v)
        self.pos += 1
        self.cons.append(cond if v else neg)
        return v

    def choose_value(self, expr):
        """Concretise an Int expression by forking over its feasible values."""
        for _ in range(2000):
            e = z3.simplify(expr)
            if z3.is_int_value(e):
                return e.as_long()
            # deterministic candidate: recorded decisions replay the same candidates because models are re-derived
            r, m = check_sat(self.cons, self.decide_timeout * 3, want_model=True)
            if r != "sat":
                raise Unsupported("cannot concretise a symbolic integer")
            # minimise determinism issues: take the smallest feasible value by bisection from the model value
            v = m.eval(expr, model_completion=True).as_long()
            v = self._smallest(expr, v)
            if self.decide(expr == v):
                return v
        raise Budget("too many values in concretisation")

    def _smallest(self, expr, v):
        step = 1
        lo = None
        while True:
            r = self.feasible(expr < v)
            if r != "sat":
                return v
            r, m = check_sat(self.cons + [expr < v], self.decide_timeout, want_model=True)
            if r != "sat":
                return v
            nv = m.eval(expr, model_completion=True).as_long()
            if nv >= v:
                return v
            v = nv
            step += 1
            if step > 4000:
                raise Unsupported("unbounded symbolic integer")


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# -------------------------------------------------------------------------------------------------------------- helpers
def frac(x):
    """Exact rational of a concrete number. Floats are read as their shortest decimal literal."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    return Fraction(repr(x))


def rv(fr):
    return z3.RealVal(fr) if fr.denominator != 1 else z3.RealVal(fr.numerator)


PI = frac(math.pi)
D2R = PI / 180
R2D = 180 / PI
U = Fraction(1, 2**53)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.e == bexpr(o))
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mknot(r)

    def _num(self):
        return Sym.mk_int(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"SymBool({self.e})"

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def item(self):
        return self

    @property
    def dtype(self):
        return np.dtype(bool)


def bexpr(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if z3.is_bool(o) if isinstance(o, z3.ExprRef) else False:
        return o
    if isinstance(o, Sym):
        return bexpr(o != 0)
    return z3.BoolVal(bool(o))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mknot(b):
    if isinstance(b, SymBool):
        return ~b
    return not b


def mkand(*bs):
    r = True
    for b in bs:
        if isinstance(b, SymBool) or isinstance(r, SymBool):
            r = mkbool(z3.And(bexpr(r), bexpr(b)))
        else:
            r = bool(r) and bool(b)
    return r


def mkor(*bs):
    r = False
    for b in bs:
        if isinstance(b, SymBool) or isinstance(r, SymBool):
            r = mkbool(z3.Or(bexpr(r), bexpr(b)))
        else:
            r = bool(r) or bool(b)
    return r


ONE = z3.RealVal(1)


class Sym:
    """A number. `c` is a Fraction (or special float) for constants; otherwise n/d (Real) or n (Int)."""

    __slots__ = ("c", "n", "d", "isint", "__weakref__")
    __array_priority__ = 1000.0

    def __init__(self, c=None, n=None, d=None, isint=False):
        self.c, self.n, self.d, self.isint = c, n, d, isint

    # ---- constructors
    @staticmethod
    def const(x, isint=None):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, (bool, np.bool_)):
            return Sym(Fraction(int(x)), isint=True)
        if isinstance(x, (int, np.integer)):
            return Sym(Fraction(int(x)), isint=True if isint is None else isint)
        if isinstance(x, Fraction):
            return Sym(x, isint=bool(isint))
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if math.isinf(x) or math.isnan(x):
                return Sym(x)
            return Sym(frac(x), isint=bool(isint))
        raise TypeError(f"cannot lift {type(x)}")

    @staticmethod
    def mk_int(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return Sym(Fraction(e.as_long()), isint=True)
        return Sym(None, e, None, True)

    @staticmethod
    def mk(n, d=None):
        if z3.is_rational_value(n) and d is None:
            return Sym(n.as_fraction())
        return Sym(None, n, d, False)

    # ---- views
    @property
    def special(self):
        return isinstance(self.c, float)

    def is_const(self):
        return self.c is not None

    def iexpr(self):
        if self.c is not None:
            return z3.IntVal(int(self.c))
        assert self.isint
        return self.n

    def nd(self):
        """numerator, denominator as Real expressions (denominator None == 1)."""
        if self.c is not None:
            return rv(self.c), None
        if self.isint:
            return z3.ToReal(self.n), None
        return self.n, self.d

    def expr(self):
        """A single Real expression (introducing a quotient variable when needed)."""
        n, d = self.nd()
        if d is None:
            return n
        c = ctx()
        k = (n.get_id(), d.get_id())
        if k in c.quot_cache:
            return c.quot_cache[k][0]
        q = c.fresh("q")
        c.cons.append(q * d == n)
        c.quot_cache[k] = (q, n, d)
        return q

    # ---- arithmetic
    def _bin(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr_op(op, self, o)
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC.of(self)._bin(o, op)
        try:
            o = Sym.const(o)
        except TypeError:
            return NotImplemented
        return arith(op, self, o)

    def _rbin(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr_op(op, o, self)
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC.of(o)._bin(self, op)
        try:
            o = Sym.const(o)
        except TypeError:
            return NotImplemented
        return arith(op, o, self)

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._rbin(o, "+")

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._rbin(o, "-")

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._rbin(o, "*")

    def __truediv__(self, o):
        return self._bin(o, "/")

    def __rtruediv__(self, o):
        return self._rbin(o, "/")

    def __floordiv__(self, o):
        return self._bin(o, "//")

    def __rfloordiv__(self, o):
        return self._rbin(o, "//")

    def __mod__(self, o):
        return self._bin(o, "%")

    def __rmod__(self, o):
        return self._rbin(o, "%")

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        return self._bin(o, "**")

    def __rpow__(self, o):
        return self._rbin(o, "**")

    def __lshift__(self, o):
        return bitop("<<", self, Sym.const(o))

    def __rlshift__(self, o):
        return bitop("<<", Sym.const(o), self)

    def __rshift__(self, o):
        return bitop(">>", self, Sym.const(o))

    def __rrshift__(self, o):
        return bitop(">>", Sym.const(o), self)

    def __and__(self, o):
        return bitop("&", self, Sym.const(o))

    def __or__(self, o):
        return bitop("|", self, Sym.const(o))

    def __xor__(self, o):
        return bitop("^", self, Sym.const(o))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        if not self.isint:
            raise TypeError("bad operand type for unary ~: 'float'")
        return -self - 1

    def __neg__(self):
        if self.c is not None:
            return Sym(-self.c, isint=self.isint)
        if self.isint:
            return Sym.mk_int(-self.n)
        return Sym.mk(-self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return Sym(abs(self.c), isint=self.isint)
        if even_sum(self):
            return self
        n, d = self.nd()
        v = n.arg(0) if z3.is_app_of(n, z3.Z3_OP_TO_REAL) else n
        if d is None and z3.is_const(v):  # inputs limited to one sign
            for r, e in ((self, v < 0), (-self, v > 0)):
                if check_goal(ctx().cons, e, 200)[0] == "unsat":
                    return r
        return ite(self >= 0, self, -self)

    # ---- comparison
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr_op(op, self, o)
        if o is None or isinstance(o, str):
            return {"==": False, "!=": True}.get(op, NotImplemented)
        try:
            o = Sym.const(o)
        except TypeError:
            return NotImplemented
        return compare(op, self, o)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        if self.c is not None:
            if not self.special and CTX is not None and self.c not in CTX.hashed:
                CTX.hashed[self.c] = None
            return hash(float(self.c)) if self.special else hash(self.c)
        if self.isint:
            return hash(ctx().choose_value(self.n))
        # a key: the same as one of the constants used as keys before, or found by comparing with the other symbolic keys
        h = ctx().sym_hash.get(id(self))
        if h is None:
            for k in list(ctx().hashed):
                if bool(self == Sym.const(k)):
                    h = hash(k)
                    break
            else:
                h = 0x5EED
            ctx().sym_hash[id(self)] = h
            ctx().keep.append(self)
        return h

    def __bool__(self):
        if self.special:
            return True
        if self.c is not None:
            return self.c != 0
        r = self != 0
        return bool(r)

    # ---- conversions
    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __int__(self):
        if self.c is not None:
            return int(self.c)
        if self.isint:
            return ctx().choose_value(self.n)
        return ctx().choose_value(trunc(self).iexpr())

    def __index__(self):
        if self.c is not None:
            if not self.isint:
                raise TypeError("'float' object cannot be interpreted as an integer")
            return int(self.c)
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().choose_value(self.n)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        return trunc(self)

    def __round__(self, nd=None):
        return round_(self, nd)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.c is not None:
            return repr(float(self.c)) if not self.isint else repr(int(self.c))
        return tok_str(self)

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        return tok_format(self, spec)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # numpy-scalar look-alike
    @property
    def dtype(self):
        return np.dtype(np.int64) if self.isint else np.dtype(np.float64)

    shape = ()
    ndim = 0
    size = 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym.const(0)

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def is_integer(self):
        if self.isint:
            return True
        return floor(self) == self

    def astype(self, dt, **k):
        from . import npshim

        return npshim.cast(self, np.dtype(dt))

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    # methods used by numpy object loops
    def sqrt(self):
        return sqrt(self, "np")

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def degrees(self):
        return degrees(self)

    def radians(self):
        return radians(self)

    rad2deg = degrees
    deg2rad = radians


numbers.Real.register(Sym)

_UFN = {"+": "add", "-": "subtract", "*": "multiply", "/": "true_divide", "//": "floor_divide", "%": "remainder", "**": "power",
        "<": "less", "<=": "less_equal", ">": "greater", ">=": "greater_equal", "==": "equal", "!=": "not_equal"}


def _arr_op(op, a, b):
    from . import npshim

    return npshim.unwrap0(npshim._apply(_UFN[op], (a, b)))


def _fp(x, *ops):
    """Add a bounded rounding error to a float operation's result when the context asks for it."""
    c = CTX
    if c is None or not c.fp_err or x.isint or x.c is not None:
        return x
    e = som(x.expr())
    key = ("fl", e.get_id())
    if key in c.names:  # rounding is a function of the exact value
        return Sym.mk(c.names[key][0])
    r = c.fresh("fl")
    c.names[key] = (r, e)
    if c.fp_err == "abs":
        # absolute form: 2^-53 * 1.8e6 < 2e-10 for magnitudes below 1.8e6, and the sign is kept
        c.notes.add("rounding model: every float result below 1.8e6 in magnitude, error at most 2e-10, sign kept")
        c.cons.append(r - e <= rv(Fraction(2, 10**10)))
        c.cons.append(e - r <= rv(Fraction(2, 10**10)))
        c.cons.append(z3.Implies(e >= 0, r >= 0))
        c.cons.append(z3.Implies(e <= 0, r <= 0))
        return Sym.mk(r)
    ab = z3.If(e >= 0, e, -e)
    c.cons.append(r - e <= rv(U) * ab)
    c.cons.append(e - r <= rv(U) * ab)
    return Sym.mk(r)


def _pow2(fr):
    n, d = abs(fr.numerator), fr.denominator
    return n != 0 and (n & (n - 1)) == 0 and (d & (d - 1)) == 0


class SymC:
    """A complex number with symbolic real and imaginary parts."""

    __slots__ = ("real", "imag", "__weakref__")
    __array_priority__ = 1001.0

    def __init__(self, re, im):
        self.real, self.imag = Sym.const(re), Sym.const(im)

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymC(float(x.real), float(x.imag))
        return SymC(Sym.const(x), Sym.const(0.0))

    def _bin(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr_op(op, self, o)
        if op == "**":
            k = Sym.const(o)
            if k.c is None or k.c != int(k.c) or abs(int(k.c)) > 8:
                raise Unsupported("power of a complex number")
            r = SymC(1.0, 0.0)
            for _ in range(abs(int(k.c))):
                r = r._bin(self, "*")
            return r if k.c >= 0 else SymC(1.0, 0.0)._bin(r, "/")
        try:
            o = SymC.of(o)
        except TypeError:
            return NotImplemented
        a, b, c, d = self.real, self.imag, o.real, o.imag
        if op == "+":
            return SymC(a + c, b + d)
        if op == "-":
            return SymC(a - c, b - d)
        if op == "*":
            return SymC(a * c - b * d, a * d + b * c)
        if op == "/":
            m = c * c + d * d
            return SymC((a * c + b * d) / m, (b * c - a * d) / m)
        raise Unsupported("complex " + op)

    def _rbin(self, o, op):
        if isinstance(o, np.ndarray):
            return _arr_op(op, o, self)
        try:
            return SymC.of(o)._bin(self, op)
        except TypeError:
            return NotImplemented

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._rbin(o, "+")

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._rbin(o, "-")

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._rbin(o, "*")

    def __truediv__(self, o):
        return self._bin(o, "/")

    def __rtruediv__(self, o):
        return self._rbin(o, "/")

    def __pow__(self, o):
        return self._bin(o, "**")

    def __neg__(self):
        return SymC(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __abs__(self):
        return sqrt(self.real * self.real + self.imag * self.imag, nonneg=True)

    def __eq__(self, o):
        o = SymC.of(o)
        return mkand(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        return mknot(self == o)

    __hash__ = None

    def conjugate(self):
        return SymC(self.real, -self.imag)

    conj = conjugate

    def exp(self):
        m = Sym.const(1.0) if self.real.c == 0 else mono_uf("exp", self.real, math.exp)
        return SymC(m * cos(self.imag), m * sin(self.imag))

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value at a C boundary")

    def __bool__(self):
        return bool(mkor(self.real != 0, self.imag != 0))

    def __repr__(self):
        return f"SymC({self.real!r}, {self.imag!r})"


def arith(op, a, b):
    if a.special or b.special:
        return _special(op, a, b)
    isint = a.isint and b.isint
    if a.c is not None and b.c is not None:
        return _const_arith(op, a, b, isint)
    if op in "+-":
        if b.c == 0:
            return a if a.isint == isint else Sym.mk(*a.nd())
        if a.c == 0:
            r = b if op == "+" else -b
            return r if r.isint == isint else Sym.mk(*r.nd())
        if isint:
            return Sym.mk_int(a.iexpr() + b.iexpr() if op == "+" else a.iexpr() - b.iexpr())
        an, ad = a.nd()
        bn, bd = b.nd()
        if ad is None and bd is None:
            r = Sym.mk(z3.simplify(an + bn if op == "+" else an - bn))
        elif ad is not None and bd is not None and ad.eq(bd):
            r = Sym.mk(an + bn if op == "+" else an - bn, ad)
        else:
            x = an if bd is None else an * bd
            y = bn if ad is None else bn * ad
            dd = bd if ad is None else (ad if bd is None else ad * bd)
            r = Sym.mk(x + y if op == "+" else x - y, dd)
        return _fp(r, a, b)
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if x.c is not None:
                if x.c == 0:
                    return Sym(Fraction(0), isint=isint)
                if x.c == 1:
                    return y if y.isint == isint else Sym.mk(*y.nd())
        if isint:
            return Sym.mk_int(a.iexpr() * b.iexpr())
        an, ad = a.nd()
        bn, bd = b.nd()
        n = an * bn
        d = None
        if ad is not None and bd is not None:
            d = ad * bd
        elif ad is not None or bd is not None:
            d = ad if ad is not None else bd
            other = bn if ad is not None else an
            if other.eq(d):
                return Sym.mk(an if ad is not None else bn)
        r = Sym.mk(n if d is not None else z3.simplify(n), d)
        if (a.c is not None and _pow2(a.c)) or (b.c is not None and _pow2(b.c)):
            return r
        return _fp(r, a, b)
    if op == "/":
        if b.c is not None:
            if b.c == 0:
                return _divzero(a)
            r = arith("*", Sym.mk(*a.nd()) if a.isint else a, Sym(1 / b.c)) if not (CTX and CTX.fp_err) else None
            if r is None:
                an, ad = a.nd()
                r = Sym.mk(z3.simplify(an * rv(1 / b.c)), ad)
                if not _pow2(b.c):
                    r = _fp(r, a, b)
            return r
        _nonzero(b)
        if b.c is not None:
            return arith("/", a, b)
        an, ad = a.nd()
        bn, bd = b.nd()
        if a.c is not None and a.c == 0:
            return Sym(Fraction(0))
        n = an if bd is None else (bd if (a.c == 1) else an * bd)
        d = bn if ad is None else ad * bn
        if n.eq(d):
            return Sym(Fraction(1))
        return _fp(Sym.mk(n, d), a, b)
    if op in ("//", "%"):
        if isint and b.c is not None and b.c != 0:
            m = b.iexpr()
            if b.c > 0:
                q = Sym.mk_int(a.iexpr() / m)
            else:
                q = Sym.mk_int((-a.iexpr()) / z3.IntVal(int(-b.c)))
        else:
            if isint and b.c is None:
                _nonzero(b, py=True)
            if b.c is not None and b.c == 0:
                raise ZeroDivisionError("division by zero")
            save = ctx().fp_err
            ctx().fp_err = False
            try:
                q = floor(arith("/", a, b))
            finally:
                ctx().fp_err = save
        if op == "//":
            return q if isint else Sym.mk(*q.nd())
        if isint:
            return Sym.mk_int(a.iexpr() - b.iexpr() * q.iexpr())
        return arith("-", a, arith("*", b, Sym.mk(*q.nd())))
    if op == "**":
        if b.c is None:
            if b.isint:
                v = ctx().choose_value(b.n)
                return arith("**", a, Sym(Fraction(v), isint=True))
            raise Unsupported("symbolic exponent")
        p = b.c
        if p == Fraction(1, 2):
            return sqrt(a, "np")
        if p == Fraction(1, 4):
            return sqrt(sqrt(a, "np"), "np")
        if p.denominator != 1:
            raise Unsupported("fractional exponent")
        p = int(p)
        if p < 0:
            return arith("/", Sym(Fraction(1)), arith("**", a, Sym(Fraction(-p), isint=True)))
        if p == 0:
            return Sym(Fraction(1), isint=isint)
        r = a
        for _ in range(p - 1):
            r = arith("*", r, a)
        return r
    raise Unsupported(op)


def bitop(op, a, b):
    """Shifts and bitwise operations of integers; masks of bits are sums of remainders."""
    if not (a.isint and b.isint):
        raise TypeError(f"unsupported operand type(s) for {op}: 'float' and 'int'")
    if op in ("<<", ">>"):
        k = int(b)
        if k < 0:
            raise ValueError("negative shift count")
        return a * 2**k if op == "<<" else a // 2**k
    if a.c is not None and b.c is None:
        a, b = b, a
    x, m = a, int(b)
    if x.c is not None:
        v = int(x.c)
        return Sym.const({"&": v & m, "|": v | m, "^": v ^ m}[op])
    if m < 0:  # x & ~k == x - (x & k)
        k = bitop("&", x, Sym.const(~m))
        anded = x - k
    else:
        anded, j = Sym.const(0), 0
        while m >> j:
            if not (m >> j) & 1:
                j += 1
                continue
            w = 1
            while (m >> (j + w)) & 1:
                w += 1
            anded = anded + ((x // 2**j) % 2**w) * 2**j
            j += w
    if op == "&":
        return anded
    return x + m - anded if op == "|" else x + m - 2 * anded


def _nonzero(b, py=False):
    c = ctx()
    bn, bd = b.nd()
    z = bn == 0
    if py or c.div_mode == "fork":
        if c.decide(z):
            raise ZeroDivisionError("division by zero")
        return
    e = z3.simplify(bn != 0)
    if z3.is_false(e):
        raise ZeroDivisionError("division by zero")
    if not z3.is_true(e):
        c.assumptions.add("denominators of symbolic divisions are non-zero")
        k = ("nz", bn.get_id())
        if k not in c.names:
            c.names[k] = bn
            if c.feasible(bn != 0) == "unsat":
                raise ZeroDivisionError("division by zero")
            c.cons.append(bn != 0)


def _divzero(a):
    raise ZeroDivisionError("division by zero")


def _const_arith(op, a, b, isint):
    x, y = a.c, b.c
    if op == "+":
        v = x + y
    elif op == "-":
        v = x - y
    elif op == "*":
        v = x * y
    elif op == "/":
        if y == 0:
            raise ZeroDivisionError("division by zero")
        v = x / y
        isint = False
    elif op == "//":
        v = Fraction(x // y)
    elif op == "%":
        v = x % y
    elif op == "**":
        if y.denominator == 1 and abs(y) < 4096:
            if y < 0:
                isint = False
            v = x ** int(y)
        else:
            v = frac(float(x) ** float(y))
    else:
        raise Unsupported(op)
    return Sym(Fraction(v), isint=isint)


def _special(op, a, b):
    av = float(a.c) if a.c is not None else None
    bv = float(b.c) if b.c is not None else None
    if (av is not None and math.isnan(av)) or (bv is not None and math.isnan(bv)):
        return Sym(math.nan)
    if av is None or bv is None:
        s, inf = (a, b) if av is None else (b, a)
        inf_v = float(inf.c)
        if op in "+-":
            sgn = -1.0 if (op == "-" and inf is b) else 1.0
            return Sym(sgn * inf_v)
        if op == "*":
            if bool(s > 0):
                return Sym(inf_v)
            if bool(s < 0):
                return Sym(-inf_v)
            return Sym(math.nan)
        if op == "/":
            if inf is b:
                return Sym(Fraction(0))
            return Sym(inf_v if bool(s >= 0) else -inf_v)
        raise Unsupported(f"special {op}")
    try:
        with np.errstate(all="ignore"):
            v = {
                "+": lambda: av + bv, "-": lambda: av - bv, "*": lambda: av * bv,
                "/": lambda: float(np.float64(av) / np.float64(bv)),
                "**": lambda: av**bv, "//": lambda: av // bv, "%": lambda: av % bv,
            }[op]()
    except ZeroDivisionError:
        raise
    return Sym.const(float(v))


def compare(op, a, b):
    if a.special or b.special:
        av = float(a.c) if a.c is not None else 0.0
        bv = float(b.c) if b.c is not None else 0.0
        return {"<": av < bv, "<=": av <= bv, ">": av > bv, ">=": av >= bv, "==": av == bv, "!=": av != bv}[op]
    if a.c is not None and b.c is not None:
        x, y = a.c, b.c
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    if a.isint and b.isint:
        x, y = a.iexpr(), b.iexpr()
    elif op in ("==", "!="):
        an, ad = a.nd()
        bn, bd = b.nd()
        x = an if bd is None else an * bd
        y = bn if ad is None else bn * ad
    else:
        x, y = a.expr(), b.expr()
    e = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y,
         "!=": lambda: x != y}[op]()
    return mkbool(e)


def ite(c, a, b):
    """Merged conditional."""
    if isinstance(c, Sym):
        c = c != 0
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool, np.bool_)) and isinstance(b, (bool, SymBool, np.bool_)):
        return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
    a, b = Sym.const(a), Sym.const(b)
    if a.special or b.special:
        return a if bool(c) else b
    if a.isint and b.isint:
        return Sym.mk_int(z3.If(c.e, a.iexpr(), b.iexpr()))
    an, ad = a.nd()
    bn, bd = b.nd()
    if ad is None and bd is None:
        return Sym.mk(z3.If(c.e, an, bn))
    if ad is not None and bd is not None and ad.eq(bd):
        return Sym.mk(z3.If(c.e, an, bn), ad)
    return Sym.mk(z3.If(c.e, a.expr(), b.expr()))


def floor(a):
    a = Sym.const(a)
    if a.special:
        raise OverflowError("cannot convert float infinity to integer") if math.isinf(a.c) else ValueError("cannot convert float NaN to integer")
    if a.c is not None:
        return Sym(Fraction(math.floor(a.c)), isint=True)
    if a.isint:
        return a
    return Sym.mk_int(z3.ToInt(a.expr()))


def ceil(a):
    a = Sym.const(a)
    if a.special or a.c is not None or a.isint:
        return -floor(-a)
    return Sym.mk_int(-z3.ToInt(-a.expr()))


def trunc(a):
    a = Sym.const(a)
    if a.special:
        return floor(a)
    if a.c is not None:
        return Sym(Fraction(math.trunc(a.c)), isint=True)
    if a.isint:
        return a
    e = a.expr()
    return Sym.mk_int(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def round_(a, nd=None):
    a = Sym.const(a)
    if a.special:
        if nd is None:
            return floor(a)
        return a
    if a.c is not None:
        if nd is None:
            return Sym(Fraction(round(a.c)), isint=True)
        return Sym(Fraction(round(a.c, int(nd))), isint=a.isint)
    if a.isint and (nd is None or int(nd) >= 0):
        return a
    k = 0 if nd is None else int(nd)
    scale = Fraction(10) ** k
    e = a.expr() * rv(scale)
    c = ctx()
    if c.fp_err:
        # nearest integer, either neighbour at a tie; the final division is correctly rounded and exact at whole numbers
        e = som(e)
        key = ("rnd", e.get_id())
        if key not in c.names:
            K = c.fresh("rnd", "i")
            c.cons.append(z3.ToReal(K) - e <= rv(Fraction(1, 2)))
            c.cons.append(e - z3.ToReal(K) <= rv(Fraction(1, 2)))
            out = None
            if nd is not None:
                Q, R = c.fresh("rq", "i"), c.fresh("rr", "i")
                c.cons.append(K == Q * int(scale) + R)
                c.cons.append(R >= 0)
                c.cons.append(R < int(scale))
                o = c.fresh("fl")
                x = z3.ToReal(K) * rv(1 / scale)
                c.cons.append(z3.If(R == 0, o == z3.ToReal(Q), z3.And(
                    o > z3.ToReal(Q), o < z3.ToReal(Q) + 1, o - x <= rv(U * 10**9), x - o <= rv(U * 10**9))))
                c.notes.add("round(x, n): |x| < 1e9")
                out = Sym.mk(o)
            c.names[key] = (K, out, e)
        K, out, _ = c.names[key]
        return Sym(None, K, None, True) if nd is None else out
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = rv(Fraction(1, 2))
    up = z3.Or(d > half, z3.And(d == half, f % 2 != 0))
    r = z3.If(up, f + 1, f)
    if nd is None:
        return Sym.mk_int(r)
    return Sym.mk(z3.ToReal(r) * rv(1 / scale))


def rint(a):
    a = Sym.const(a)
    if a.special:
        return a
    r = round_(a)
    return Sym.mk(*r.nd()) if r.c is None else Sym(r.c)


def degrees(a):
    a = Sym.const(a)
    if a.special:
        return a
    r = arith("*", a if not a.isint else Sym.mk(*a.nd()) if a.c is None else Sym(a.c), Sym(R2D))
    return r


def radians(a):
    a = Sym.const(a)
    if a.special:
        return a
    r = arith("*", a if not a.isint else Sym.mk(*a.nd()) if a.c is None else Sym(a.c), Sym(D2R))
    return r


def _monomials(e, memo, cap=10 ** 7):
    """upper bound of the number of monomials of the expanded form"""
    st = [e]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in memo:
            st.pop()
            continue
        if not z3.is_app(x):
            memo[i] = 1
            continue
        k = x.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER):
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            v = [memo[c.get_id()] for c in ch]
            if k == z3.Z3_OP_MUL:
                r = 1
                for a in v:
                    r = min(cap, r * a)
            elif k == z3.Z3_OP_POWER:
                p = ch[1]
                n = p.numerator_as_long() if z3.is_rational_value(p) and p.denominator_as_long() == 1 else 1
                r = v[0] ** n if 0 < n <= 16 else 1
            else:
                r = sum(v)
            memo[i] = min(cap, r)
        else:
            memo[i] = 1
        st.pop()
    return memo[e.get_id()]


def som(e):
    if _monomials(e, {}) > 20000:
        return z3.simplify(e, som=True)
    return z3.simplify(e, som=True, som_blowup=100000, sort_sums=True)


def reduce_alg(e):
    """Sum-of-monomials form modulo the defining equations of sqrt and sin/cos symbols (s*s -> radicand, cos*cos -> 1 - sin*sin)."""
    c = ctx()
    e = som(e)
    if not c.squares:
        return e
    for _ in range(8):
        hit = False
        terms = e.children() if z3.is_app_of(e, z3.Z3_OP_ADD) else [e]
        out = []
        for t in terms:
            fs = []
            st = [t]
            while st:
                f = st.pop()
                if z3.is_app_of(f, z3.Z3_OP_MUL):
                    st.extend(f.children())
                elif z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_rational_value(f.arg(1)) and f.arg(1).denominator_as_long() == 1 \
                        and 0 < f.arg(1).numerator_as_long() <= 32:
                    fs.extend([f.arg(0)] * f.arg(1).numerator_as_long())
                else:
                    fs.append(f)
            cnt = {}
            for f in fs:
                if f.get_id() in c.squares:
                    cnt[f.get_id()] = cnt.get(f.get_id(), 0) + 1
            cnt = {k: v for k, v in cnt.items() if v >= 2}
            if not cnt:
                out.append(t)
                continue
            hit = True
            keep = []
            for f in fs:
                k = f.get_id()
                if cnt.get(k, 0) >= 2 and not cnt.get((k, "h")):
                    cnt[(k, "h")] = True
                elif cnt.get((k, "h")):
                    keep.append(c.squares[k][1])
                    cnt[k] -= 2
                    cnt[(k, "h")] = False
                else:
                    keep.append(f)
            out.append(z3.Product(keep) if len(keep) > 1 else keep[0])
        if not hit:
            break
        e = som(z3.Sum(out) if len(out) > 1 else out[0])
    return e


def _factors(t):
    fs, st = [], [t]
    while st:
        f = st.pop()
        if z3.is_app_of(f, z3.Z3_OP_MUL):
            st.extend(f.children())
        elif z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_rational_value(f.arg(1)) and f.arg(1).denominator_as_long() == 1 \
                and 0 < f.arg(1).numerator_as_long() <= 32:
            fs.extend([f.arg(0)] * f.arg(1).numerator_as_long())
        else:
            fs.append(f)
    return fs


def _mono_root(t):
    """|root| of a monomial that is a perfect square (forks on the signs of its factors), else None"""
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        return None
    coef, cnt = Fraction(1), {}
    for f in _factors(t):
        if z3.is_rational_value(f):
            coef *= f.as_fraction()
        else:
            k = f.get_id()
            cnt[k] = (f, cnt.get(k, (f, 0))[1] + 1)
    if coef <= 0 or any(n % 2 for _, n in cnt.values()):
        return None
    a, b = math.isqrt(coef.numerator), math.isqrt(coef.denominator)
    if a * a != coef.numerator or b * b != coef.denominator:
        return None
    r = Sym(Fraction(a, b))
    for f, n in cnt.values():
        v = Sym.mk(f)
        if (n // 2) % 2 and not str(f).startswith("sqrt!") and ctx().decide(f < 0):
            v = -v
        for _ in range(n // 2):
            r = r * v
    return r


def even_sum(a):
    """a sum of positive multiples of even powers: never negative"""
    n, d = a.nd()
    if d is not None:
        return False
    e = som(n)
    for t in e.children() if z3.is_app_of(e, z3.Z3_OP_ADD) else [e]:
        cnt = {}
        for f in _factors(t):
            if z3.is_rational_value(f) or z3.is_int_value(f):
                if f.as_fraction() < 0:
                    return False
            elif not str(f).startswith("sqrt!"):
                cnt[f.get_id()] = cnt.get(f.get_id(), 0) + 1
        if any(k % 2 for k in cnt.values()):
            return False
    return True


NONNEG = []  # non-empty while the radicand is known to be a sum of squares


def sqrt(a, mode="math", nonneg=False):
    a = Sym.const(a)
    if a.special:
        if math.isnan(a.c) or a.c < 0:
            if mode == "math" and not math.isnan(a.c):
                raise ValueError("math domain error")
            return Sym(math.nan)
        return a
    if a.c is not None:
        if a.c < 0:
            if mode == "math":
                raise ValueError("math domain error")
            return Sym(math.nan)
        n, d = math.isqrt(a.c.numerator), math.isqrt(a.c.denominator)
        if n * n == a.c.numerator and d * d == a.c.denominator:
            return Sym(Fraction(n, d))
        return Sym.const(math.sqrt(float(a.c)))
    c = ctx()
    n, d = a.nd()
    n = reduce_alg(n)
    if d is not None:
        rd_ = _mono_root(som(d))
        if rd_ is not None:
            r = sqrt(Sym.mk(n), mode, nonneg)
            if r.special:
                return r
            return r / rd_
    elif not z3.is_app_of(n, z3.Z3_OP_ADD):
        rn = _mono_root(n)
        if rn is not None:
            return rn
    key = (n.get_id(), d.get_id() if d is not None else 0)
    if key in c.sqrt_cache:
        return c.sqrt_cache[key][0]
    for r0, n0, d0 in list(c.sqrt_cache.values()):
        x = n if d0 is None else n * d0
        y = n0 if d is None else n0 * d
        z = reduce_alg(x - y)
        if z3.is_rational_value(z) and z.as_fraction() == 0:
            return r0
    # perfect squares x*x are common (sqrt(x**2)); sign test of the radicand
    e = Sym.mk(n, d).expr()
    if not (nonneg or NONNEG) and c.decide(e < 0):
        if mode == "math":
            raise ValueError("math domain error")
        return Sym(math.nan)
    s = c.fresh("sqrt")
    c.cons.append(s >= 0)
    if d is None:
        c.cons.append(s * s == n)
        c.squares[s.get_id()] = (s, n)
    else:
        c.cons.append(s * s * d == n)
    r = Sym.mk(s)
    c.sqrt_cache[key] = (r, n, d)
    return r


def uf(name, *args, sort="r"):
    """Uninterpreted function application (consistency by congruence)."""
    c = ctx()
    exprs = [Sym.const(a).expr() for a in args]
    exprs = [som(e) for e in exprs]
    f = z3.Function(name, *([z3.RealSort()] * len(args)), z3.RealSort())
    app = f(*exprs)
    apps = c.uf_apps.setdefault(name, [])
    for ex, ap in apps:
        if all(x.eq(y) for x, y in zip(ex, exprs)):
            return Sym.mk(ap)
    apps.append((exprs, app))
    return Sym.mk(app)


def _trig(a):
    c = ctx()
    e = som(a.expr())
    key = ("trig", e.get_id())
    if key not in c.names:
        s = z3.Function("sin", z3.RealSort(), z3.RealSort())(e)
        k = z3.Function("cos", z3.RealSort(), z3.RealSort())(e)
        sv, kv = c.fresh("sin"), c.fresh("cos")
        c.cons.append(sv == s)
        c.cons.append(kv == k)
        c.cons.append(sv * sv + kv * kv == 1)
        c.cons.append(sv <= 1)
        c.cons.append(sv >= -1)
        c.cons.append(kv <= 1)
        c.cons.append(kv >= -1)
        c.names[key] = (sv, kv, e)
        c.squares[kv.get_id()] = (kv, 1 - sv * sv)
    return c.names[key]


def sin(a):
    a = Sym.const(a)
    if a.c is not None:
        return Sym.const(math.sin(float(a.c))) if not a.special else Sym(math.nan)
    return Sym.mk(_trig(a)[0])


def cos(a):
    a = Sym.const(a)
    if a.c is not None:
        return Sym.const(math.cos(float(a.c))) if not a.special else Sym(math.nan)
    return Sym.mk(_trig(a)[1])


def mono_uf(name, a, fn):
    """Strictly increasing uninterpreted function (log, exp, ...), exact at constants."""
    a = Sym.const(a)
    if a.c is not None:
        return Sym.const(fn(float(a.c)))
    c = ctx()
    r = uf(name, a)
    for ex, ap in c.uf_apps[name]:
        e0 = c.uf_apps[name][-1]
        if ap.eq(e0[1]):
            continue
        k = ("mono", name, ap.get_id(), e0[1].get_id())
        if k not in c.names:
            c.names[k] = True
            c.cons.append((ex[0] < e0[0][0]) == (ap < e0[1]))
            c.cons.append((ex[0] == e0[0][0]) == (ap == e0[1]))
    return r


def smin(a, b):
    a, b = Sym.const(a), Sym.const(b)
    return ite(b < a, b, a)


def smax(a, b):
    a, b = Sym.const(a), Sym.const(b)
    return ite(b > a, b, a)


# ------------------------------------------------------------------------------------------------------ string tokens
# Formatted symbolic numbers become private-use codepoints so that real f-strings, joins, slices and XML carry them.
PUA = 0xF0000


def _new_tok(kind, val):
    c = ctx()
    i = len(c.tokens)
    ch = chr(PUA + i)
    c.tokens[ch] = (kind, val)
    return ch


class IntText(str):
    """str() of a symbolic integer: padding it out needs its digits"""

    def __new__(cls, ch, val):
        self = str.__new__(cls, ch)
        self.val = val
        return self

    def zfill(self, w):
        return tok_digits(self.val, w)

    def rjust(self, w, fill=" "):
        return tok_digits(self.val, w) if fill == "0" and bool(self.val >= 0) else _new_tok("fmt", (self.val, f">{w}"))

    def isdigit(self):
        return bool(self.val >= 0)

    isdecimal = isnumeric = isdigit


def tok_str(s):
    ch = _new_tok("int" if s.isint else "real", s)
    return IntText(ch, s) if s.isint else ch


def tok_format(s, spec):
    if s.c is not None:
        v = int(s.c) if s.isint else float(s.c)
        return format(v, spec)
    if spec == "":
        return tok_str(s)
    import re

    m = re.fullmatch(r"(0?)(\d*)d", spec)
    if m and s.isint and m.group(1):
        w = int(m.group(2) or "0")
        return tok_digits(s, w)
    m = re.fullmatch(r"(?:0?(\d*))?(?:\.(\d+))?([fgeG])", spec)
    if m:
        return _new_tok("fmt", (s, spec))
    if m is None and re.fullmatch(r"[<>^]?\d*d?", spec):
        return _new_tok("fmt", (s, spec))
    raise Unsupported(f"format spec {spec!r} of a symbolic number")


def tok_digits(s, w):
    """Zero padded decimal digits, one token per character; forks on sign/overflow of the field width."""
    out = ""
    if bool(s < 0):
        out = "-"
        s = -s
        w -= 1
    n = max(w, 1)
    while bool(s >= 10**n):
        n += 1
        if n > 12:
            raise Unsupported("number too wide")
    for i in reversed(range(n)):
        dig = (s // (10**i)) % 10
        t = _new_tok("digit", dig)
        ctx().tok_src[t] = (s, i, n)
        out += t
    return out


def tok_has(s):
    return isinstance(s, str) and any(PUA <= ord(ch) <= 0xFFFFD for ch in s)


def tok_value(ch):
    """(value, comparison kind) of one character, None for plain text."""
    c = ctx()
    if ch in c.tokens:
        kind, v = c.tokens[ch]
        if kind == "fmt":
            return v[0], "fmt" + v[1]
        return v, ("digit" if kind == "digit" else "num")
    if ch.isdigit():
        return Sym.const(int(ch)), "digit"
    return None


def tok_number(s, want_int=False):
    """Parse a string that contains tokens back into a Sym number."""
    c = ctx()
    s = s.strip()
    if len(s) == 1 and s in c.tokens:
        kind, v = c.tokens[s]
        if kind in ("real", "int"):
            if want_int and kind == "real":
                raise ValueError("invalid literal for int()")
            return v
        if kind == "digit":
            return v
        if kind == "fmt":
            raise Unsupported("parsing a formatted float token")
    neg = s.startswith("-")
    if neg:
        s = s[1:]
    src = c.tok_src.get(s[0])
    if src is not None and len(s) == src[2] and all(
            c.tok_src.get(ch, (None, 0))[0] is src[0] and c.tok_src[ch][1] == src[2] - 1 - k for k, ch in enumerate(s)):
        return -src[0] if neg else src[0]  # the complete digit string of one number
    acc = Sym.const(0)
    for ch in s:
        if ch in c.tokens:
            kind, v = c.tokens[ch]
            if kind != "digit":
                raise Unsupported("mixed token string")
            acc = acc * 10 + v
        elif ch.isdigit():
            acc = acc * 10 + int(ch)
        else:
            raise ValueError("invalid literal")
    return -acc if neg else acc
