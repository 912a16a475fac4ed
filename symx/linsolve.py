"""Exact symbolic linear solve A x = b over rational functions (sympy fraction field), used to encode inv / solve / lstsq."""
from fractions import Fraction

import z3

from . import core
from .core import Sym, Unsupported


class Conv:
    def __init__(self):
        self.atoms = {}  # z3 id -> (name, expr)
        self.order = []

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = (f"v{len(self.order)}", e)
            self.order.append(e)

    def scan(self, e, seen):
        i = e.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            for c in e.children():
                self.scan(c, seen)
            return
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            self.scan(e.arg(0), seen)
            return
        self.atom(e)

    def setup(self):
        from sympy import QQ
        from sympy.polys.rings import ring

        self.K = QQ
        if self.order:
            self.R, *gens = ring([f"v{i}" for i in range(len(self.order))], QQ)
        else:
            self.R, *gens = ring(["v_"], QQ)
        self.gen = {e.get_id(): g for e, g in zip(self.order, gens)}
        self.cache = {}

    def poly(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i][0]
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
            r = self.R(self.K(f.numerator, f.denominator))
        elif i in self.gen:
            r = self.gen[i]
        else:
            k = e.decl().kind()
            ch = [self.poly(c) for c in e.children()] if k != z3.Z3_OP_POWER else None
            if k == z3.Z3_OP_ADD:
                r = sum(ch[1:], ch[0])
            elif k == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = r - c
            elif k == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]:
                    r = r * c
            elif k == z3.Z3_OP_UMINUS:
                r = -ch[0]
            else:
                r = self.poly(e.arg(0)) ** int(e.arg(1).as_fraction())
        self.cache[i] = (r, e)
        return r

    def back(self, p):
        """ring element -> z3 Real"""
        terms = []
        for mon, coef in p.terms():
            f = core.rv(Fraction(int(coef.numerator), int(coef.denominator)))
            t = f
            for e, k in zip(self.order, mon):
                for _ in range(k):
                    t = t * e
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.simplify(z3.Sum(*terms) if len(terms) > 1 else terms[0])


def solve(A, b):
    """A: n x n nested list of Sym, b: list of Sym. Returns list of Sym and det numerator assumption."""
    from sympy import QQ
    from sympy.polys.matrices import DomainMatrix

    n = len(b)
    cv = Conv()
    seen = set()
    nds = []
    for row, rhs in zip(A, b):
        r = []
        for s in list(row) + [rhs]:
            nn, dd = Sym.const(s).nd()
            cv.scan(nn, seen)
            if dd is not None:
                cv.scan(dd, seen)
            r.append((nn, dd))
        nds.append(r)
    if len(cv.order) > 24:
        raise Unsupported("linear system with too many symbols")
    cv.setup()
    F = cv.R.to_field()
    rows = []
    for r in nds:
        rows.append([F(cv.poly(nn)) / (F(cv.poly(dd)) if dd is not None else F(1)) for nn, dd in r])
    D = F.to_domain() if hasattr(F, "to_domain") else None
    M = DomainMatrix([x[:n] for x in rows], (n, n), D)
    B = DomainMatrix([[x[n]] for x in rows], (n, 1), D)
    try:
        X = M.lu_solve(B)
    except Exception as e:
        raise ZeroDivisionError(f"singular matrix ({type(e).__name__})")
    out = []
    c = core.ctx()
    for i in range(n):
        q = X[i, 0].element if hasattr(X[i, 0], "element") else X[i, 0]
        num, den = q.numer, q.denom
        zn, zd = cv.back(num), cv.back(den)
        if z3.is_rational_value(zd):
            f = zd.as_fraction()
            out.append(Sym.mk(z3.simplify(zn * core.rv(1 / f))))
        else:
            c.cons.append(zd != 0)
            out.append(Sym.mk(zn, zd))
    c.assumptions.add("linear systems solved by the code are non-singular")
    return out
