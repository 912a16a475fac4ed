"""Harness environment and driver.

A harness is one Python function body(env) that builds inputs from `env`, runs the real toolkit code and states claims.
The same body runs in two modes:
  * symbolic: inputs are Sym values, claims become solver queries for every path;
  * concrete: inputs come from a solver model, the toolkit is unpatched, claims are evaluated on real numbers (replay).
"""
import contextlib
import hashlib
import json
import math
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, inject, isolate, npshim
from .core import Budget, Ctx, PathDone, Sym, SymBool, Unsupported, bexpr, mkand, mkor, mknot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"


class AssumeFailed(BaseException):
    pass


class Claim:
    """a == b within tolerance. abs: absolute, rel: relative to max(|a|,|b|)."""

    def __init__(self, a, b, tol=1e-6, rel=1e-6):
        self.a, self.b, self.tol, self.rel = a, b, tol, rel

    def __bool__(self):
        raise TypeError("an equality claim is no condition; use it with require or the env's And, Or, Not, Implies")

    def cond(self):
        """as a condition, for claims inside formulas"""
        a, b = npshim.unwrap0(self.a), npshim.unwrap0(self.b)
        for x in (a, b):
            if isinstance(x, Sym) and x.special or isinstance(x, (float, np.floating)) and not math.isfinite(x):
                fa, fb = float(a), float(b)
                return fa == fb or (math.isnan(fa) and math.isnan(fb))
        m = self.tol + self.rel * (abs(b) if not isinstance(b, Sym) else core.ite(b < 0, -b, b))
        return mkand(a - b <= m, b - a <= m)


def _c(x):
    return x.cond() if isinstance(x, Claim) else x


class EnvBase:
    def __init__(self):
        self.patch = inject.Patch()
        self.labels = []
        self.obs = {}

    # generic numeric helpers usable on both kinds of values
    def And(self, *xs):
        return mkand(*map(_c, xs))

    def Or(self, *xs):
        return mkor(*map(_c, xs))

    def Not(self, x):
        return mknot(_c(x))

    def Implies(self, a, b):
        return mkor(mknot(_c(a)), _c(b))

    def eq(self, a, b, tol=1e-6, rel=1e-6):
        return Claim(a, b, tol, rel)

    def eqb(self, a, b):
        """exact equality as a condition (both modes)"""
        r = a == b
        return bool(r) if isinstance(r, np.bool_) else r

    def require_all_eq(self, xs, ys, label, tol=1e-6, rel=1e-6):
        xs, ys = list(xs), list(ys)
        self.require(len(xs) == len(ys), label + ": length")
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.require(Claim(x, y, tol, rel), f"{label}[{i}]")

    def observe(self, name, v):
        self.obs[name] = v

    def call(self, fn, *a, **k):
        """Run code under test; returns (result, exception)."""
        try:
            return fn(*a, **k), None
        except Exception as e:  # noqa - the code under test raised
            self.last_tb = traceback.format_exc()
            return None, e

    def no_raise(self, fn, label, *a, **k):
        r, e = self.call(fn, *a, **k)
        if e is not None:
            self.require(False, f"{label}: raised {type(e).__name__}: {e}")
            raise StopBody()
        return r


class StopBody(BaseException):
    pass


# ------------------------------------------------------------------------------------------------------------- symbolic
class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, c, opts):
        super().__init__()
        self.c = c
        self.opts = opts
        self.results = []  # (label, verdict, info)
        self.seen_viol = opts.setdefault("_seen_viol", {})
        self.reached = 0

    def real(self, name, lo=None, hi=None, ne0=False):
        v = z3.Real(name)
        s = Sym.mk(v)
        self.c.inputs[name] = ("r", v, lo, hi)
        if lo is not None:
            self.c.cons.append(v >= core.rv(core.frac(lo)))
        if hi is not None:
            self.c.cons.append(v <= core.rv(core.frac(hi)))
        if ne0:
            self.c.cons.append(v != 0)
        return s

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.c.inputs[name] = ("i", v, lo, hi)
        if lo is not None:
            self.c.cons.append(v >= int(lo))
        if hi is not None:
            self.c.cons.append(v <= int(hi))
        return Sym(None, v, None, True)

    def bool(self, name):
        v = z3.Bool(name)
        self.c.inputs[name] = ("b", v, None, None)
        return SymBool(v)

    def choice(self, name, seq):
        seq = list(seq)
        v = z3.Int(name)
        self.c.inputs[name] = ("i", v, 0, len(seq) - 1)
        self.c.cons.append(v >= 0)
        self.c.cons.append(v <= len(seq) - 1)
        for k in range(len(seq) - 1):
            if self.c.decide(v == k):
                return seq[k]
        self.c.cons.append(v == len(seq) - 1)
        return seq[-1]

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.c.cons.append(cond.e)
            self.dirty = True
        elif isinstance(cond, Sym):
            self.assume(cond != 0)
        elif not cond:
            raise PathDone()

    def arr(self, xs, dtype=None):
        return npshim.mkarr(xs, dtype)

    def num(self, x):
        return Sym.const(x)

    def parse_int(self, s):
        if core.tok_has(s):
            return core.tok_number(s, want_int=True)
        return Sym.const(int(s))

    def parse_float(self, s):
        if core.tok_has(s):
            return core.tok_number(s)
        return Sym.const(float(s))

    def text(self, x):
        return str(x)

    def sqrt(self, x, nonneg=False):
        return core.sqrt(x, "np", nonneg=nonneg)

    def floor(self, x):
        return core.floor(x)

    @contextlib.contextmanager
    def exact(self):
        """Oracle arithmetic: no rounding error even in fp_err mode."""
        old, self.c.fp_err = self.c.fp_err, False
        try:
            yield
        finally:
            self.c.fp_err = old

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def concretize(self, x):
        return int(x) if isinstance(x, Sym) else x

    def fork(self, cond):
        return bool(cond)

    def text_eq(self, a, b):
        """Equality of two strings that may carry symbolic digits / numbers."""
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            if x == y:
                continue
            vx, vy = core.tok_value(x), core.tok_value(y)
            if vx is None or vy is None or vx[1] != vy[1]:
                return False
            r = mkand(r, vx[0] == vy[0])
        return r

    # ---- deciding claims
    def require(self, cond, label):
        self.reached += 1
        t = self.opts.get("query_timeout", 20000)
        if time.time() > self.c.deadline:
            raise Budget("time for this case used up before " + label)
        if isinstance(cond, Claim):
            v, extra = self._decide_claim(cond, t)
        else:
            if isinstance(cond, Sym):
                cond = cond != 0
            if not isinstance(cond, SymBool):
                if bool(cond):
                    core.Q_STATS["queries"] += 1
                    core.Q_STATS["unsat"] += 1
                    v, extra = "holds", None
                else:
                    v, extra = "violated", z3.BoolVal(True)
            else:
                r, m = core.check_goal(self.c.cons, z3.Not(cond.e), t)
                v = {"unsat": "holds", "sat": "violated", "unknown": "unknown"}[r]
                extra = z3.Not(cond.e)
        if v == "violated":
            k = self.seen_viol[label] = self.seen_viol.get(label, 0) + 1
            cand = self.candidates(extra, self.opts.get("n_cand", 6) if k <= 2 and len(self.seen_viol) <= 4 else 1)
            if not cand:
                v = "unknown"
            self.results.append((label, v, cand))
        elif v == "unknown":
            self.results.append((label, v, self.candidates(z3.BoolVal(True), 4)))
        else:
            self.results.append((label, v, None))

    def _decide_claim(self, cl, t):
        a, b = npshim.unwrap0(cl.a), npshim.unwrap0(cl.b)
        if isinstance(a, np.ndarray):
            a = a.reshape(-1)[0]
        if isinstance(b, np.ndarray):
            b = b.reshape(-1)[0]
        try:
            a, b = Sym.const(a), Sym.const(b)
        except TypeError:
            return ("holds" if a == b else "violated"), z3.BoolVal(True)
        core.Q_STATS["queries"] += 1
        if a.special or b.special:
            same = a.special and b.special and (a.c == b.c or (math.isnan(a.c) and math.isnan(b.c)))
            core.Q_STATS["unsat"] += 1
            return ("holds" if same else "violated"), z3.BoolVal(True)
        if a.c is not None and b.c is not None:
            core.Q_STATS["unsat"] += 1
            ok = abs(a.c - b.c) <= max(core.frac(cl.tol), core.frac(cl.rel) * max(abs(a.c), abs(b.c)))
            return ("holds" if ok else "violated"), z3.BoolVal(True)
        # 1. exact identity by normalisation
        an, ad = a.nd()
        bn, bd = b.nd()
        x = an if bd is None else an * bd
        y = bn if ad is None else bn * ad
        t0 = time.time()
        diff = core.reduce_alg(x - y)
        core.Q_STATS["time"] += time.time() - t0
        if z3.is_rational_value(diff) and diff.as_fraction() == 0:
            core.Q_STATS["unsat"] += 1
            return "holds", None
        core.Q_STATS["queries"] -= 1
        # 2. exact inequality, then with tolerance (floating point slack)
        r, m = core.check_goal(self.c.cons, diff != 0, t)
        if r == "unsat":
            return "holds", None
        A, B = a.expr(), b.expr()
        d = A - B
        tolv = core.rv(core.frac(cl.tol))
        relv = core.rv(core.frac(cl.rel))
        absd = z3.If(d >= 0, d, -d)
        mx = z3.If(z3.If(A >= 0, A, -A) >= z3.If(B >= 0, B, -B), z3.If(A >= 0, A, -A), z3.If(B >= 0, B, -B))
        viol = absd > tolv + relv * mx
        r2, m2 = core.check_goal(self.c.cons, viol, t)
        if r2 == "unsat":
            return "holds", None
        if r2 == "sat":
            big = absd > 4 * (tolv + relv * mx) + core.rv(Fraction(1, 1000))
            r3, _ = core.check_goal(self.c.cons, big, t)
            return "violated", (big if r3 == "sat" else viol)
        if r == "sat":
            return "violated", diff != 0
        return "unknown", None

    # ---- models
    def candidates(self, extra, n):
        """Diversified input assignments satisfying path + extra."""
        out = []
        rng = random.Random(self.opts.get("seed", 1) * 7919 + len(self.results))
        base = self.c.cons + [extra]
        ins = self.c.inputs
        t_end = time.time() + self.opts.get("cand_s", 30)
        for k in range(n):
            if k and time.time() > t_end:
                break
            if k == 0:
                r, m = core.check_sat(base, 20000, want_model=True)
            else:
                r, m = self.spread(base, rng, 3000)
            if r == "sat":
                a = self.assign(m)
                if a is not None and a not in out:
                    out.append(a)
        return out

    def spread(self, base, rng, timeout):
        """A model of base with as many inputs as possible at random interior values."""
        ins = [x for x in self.c.inputs.values()]
        pins = [p for p in (_pin(rng, *x) for x in ins) if p is not None]
        r, m = core.check_sat(base + pins, timeout, want_model=True, fallback=False)
        if r == "sat":
            return r, m
        r, m = core.check_sat(base, timeout, want_model=True)
        if r != "sat":
            return r, m
        rng.shuffle(ins)
        keep, best = [], m
        t_end = time.time() + 3 * timeout / 1000
        for x in ins[:24]:
            for _ in range(2):
                if time.time() > t_end:
                    return "sat", best
                p = _pin(rng, *x)
                if p is None:
                    break
                r, m = core.check_sat(base + keep + [p], min(timeout, 1500), want_model=True, fallback=False)
                if r == "sat":
                    keep.append(p)
                    best = m
                    break
        return "sat", best

    def assign(self, m):
        a = {}
        for nm, (kind, v, lo, hi) in self.c.inputs.items():
            e = m.eval(v, model_completion=True)
            if kind == "b":
                a[nm] = bool(z3.is_true(e))
            elif kind == "i":
                a[nm] = e.as_long()
            else:
                fr = _zfrac(e)
                if fr is None:
                    return None
                a[nm] = f"{fr.numerator}/{fr.denominator}"
        return a

    def witness(self):
        """One interior model of the path: reachability witness and validation trace."""
        rng = random.Random(self.opts.get("seed", 1) * 104729 + len(self.c.trail))
        r, m = self.spread(self.c.cons, rng, 5000)
        if r != "sat":
            return r, None, {}
        a = self.assign(m)
        obs = {}
        for k, v in self.obs.items():
            try:
                o = _meval(m, v)
                if o is not None:
                    obs[k] = o
            except Exception:
                pass
        return "sat", a, obs


def _pin(rng, kind, v, lo, hi):
    if kind == "b":
        return v == rng.choice([True, False])
    if kind == "i":
        if lo is None or hi is None:
            return None
        return v == rng.randint(int(lo), int(hi))
    lo = -1000.0 if lo is None else float(lo)
    hi = 1000.0 if hi is None else float(hi)
    x = Fraction(rng.randint(1, 9999), 10000) * (core.frac(hi) - core.frac(lo)) + core.frac(lo)
    x = x.limit_denominator(10**6)
    return v == core.rv(x)


def _zfrac(e):
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_algebraic_value(e):
        return e.approx(40).as_fraction()
    return None


def _meval(m, v):
    v = npshim.unwrap0(v)
    if isinstance(v, (list, tuple, np.ndarray)):
        r = [_meval(m, x) for x in v]
        return None if any(x is None for x in r) else r
    if isinstance(v, SymBool):
        return bool(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, Sym):
        if v.special:
            return str(v.c)
        if v.c is not None:
            return float(v.c)
        if v.isint:
            return m.eval(v.n, model_completion=True).as_long()
        n, d = v.nd()
        fn = _zfrac(m.eval(n, model_completion=True))
        if fn is None:
            return None
        if d is not None:
            fd = _zfrac(m.eval(d, model_completion=True))
            if fd in (None, 0):
                return None
            fn = fn / fd
        return float(fn)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if isinstance(v, str):
        return None if core.tok_has(v) else v
    return None


class BeforeEnv(SymEnv):
    """The run before the one that is judged: fixed inputs, no claims."""

    def __init__(self, c, opts, assign):
        super().__init__(c, dict(opts, _seen_viol={}))
        self.a = assign

    def real(self, name, lo=None, hi=None, ne0=False):
        v = self.a.get(name)
        if v is None:
            v = Fraction(core.frac(lo or 0) + core.frac(hi or 0)) / 2
        return Sym.const(Fraction(v))

    def int(self, name, lo=None, hi=None):
        return Sym.const(int(self.a.get(name, lo or 0)))

    def bool(self, name):
        return bool(self.a.get(name, False))

    def choice(self, name, seq):
        return list(seq)[int(self.a.get(name, 0))]

    def assume(self, cond):
        if not isinstance(cond, (Sym, SymBool)) and not bool(cond):
            raise StopBody()
        if not bool(cond):
            raise StopBody()

    def require(self, cond, label):
        pass

    def require_all_eq(self, *a, **k):
        pass


# ------------------------------------------------------------------------------------------------------------- concrete
class ConcEnv(EnvBase):
    symbolic = False

    def __init__(self, assign):
        super().__init__()
        self.assign = assign
        self.failures = []
        self.checked = 0

    def real(self, name, lo=None, hi=None, ne0=False):
        v = self.assign.get(name)
        if v is None:
            return 0.5 * ((lo or 0.0) + (hi or 0.0))
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def int(self, name, lo=None, hi=None):
        return int(self.assign.get(name, lo or 0))

    def bool(self, name):
        return bool(self.assign.get(name, False))

    def choice(self, name, seq):
        return list(seq)[int(self.assign.get(name, 0))]

    def assume(self, cond):
        if not bool(cond):
            raise AssumeFailed()

    def arr(self, xs, dtype=None):
        return np.array(xs, dtype=dtype)

    def num(self, x):
        return x

    def parse_int(self, s):
        return int(s)

    def parse_float(self, s):
        return float(s)

    def text(self, x):
        return repr(x) if isinstance(x, float) else str(x)

    def sqrt(self, x, nonneg=False):
        return math.sqrt(x) if x >= 0 else math.nan

    def floor(self, x):
        return math.floor(x)

    def exact(self):
        return contextlib.nullcontext()

    def ite(self, c, a, b):
        return a if c else b

    def concretize(self, x):
        return int(x)

    def fork(self, cond):
        return bool(cond)

    def text_eq(self, a, b):
        return a == b

    def require(self, cond, label):
        self.checked += 1
        if isinstance(cond, Claim):
            a, b = cond.a, cond.b
            try:
                a = a.item() if isinstance(a, (np.ndarray, np.generic)) else a
                b = b.item() if isinstance(b, (np.ndarray, np.generic)) else b
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    if math.isnan(a) or math.isnan(b):
                        ok = math.isnan(a) and math.isnan(b)
                    elif math.isinf(a) or math.isinf(b):
                        ok = a == b
                    else:
                        ok = abs(a - b) <= max(cond.tol, cond.rel * max(abs(a), abs(b)))
                else:
                    ok = bool(a == b)
            except Exception:
                ok = False
            if not ok:
                self.failures.append(f"{label}: {a!r} != {b!r}")
        elif not bool(cond):
            self.failures.append(label)


GUARD = None


def fresh_state():
    """Toolkit globals as after import."""
    global GUARD
    if GUARD is None:
        GUARD = isolate.Guard()
    else:
        GUARD.restore()


def run_concrete(body, assign, params, before=None):
    fresh_state()
    if before is not None:
        first = ConcEnv(before)
        try:
            body(first, **params)
        except (AssumeFailed, StopBody, Exception):
            pass
        finally:
            first.patch.undo()
    env = ConcEnv(assign)
    status = "ok"
    try:
        body(env, **params)
    except AssumeFailed:
        status = "assume-failed"
    except StopBody:
        pass
    except Exception:
        status = "harness-error"
        env.failures_tb = traceback.format_exc()
    finally:
        env.patch.undo()
    obs = {}
    for k, v in env.obs.items():
        try:
            obs[k] = _cobs(v)
        except Exception:
            pass
    return {"status": status, "failures": env.failures, "checked": env.checked, "obs": obs,
            "tb": getattr(env, "failures_tb", "")}


def _cobs(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [_cobs(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        v = float(v)
        return v if math.isfinite(v) else str(v)
    return v if isinstance(v, str) else None


# ------------------------------------------------------------------------------------------------------- path explorer
class FuncTrace:
    """Which toolkit functions were actually executed symbolically."""

    TOOL = 4

    def __init__(self):
        self.funcs = set()

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "symx")
        except ValueError:
            return self

        def start(code, off):
            if code.co_filename.startswith(REPO_SRC):
                if "<" not in code.co_name:
                    self.funcs.add(f"{os.path.relpath(code.co_filename, REPO_SRC)}:{code.co_qualname}")
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        try:
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
        except ValueError:
            pass


CURRENT = None  # (report, environment, functions, start) of the exploration in progress


def partial():
    """The report of the exploration in progress, as far as it got (the solver is stuck)."""
    rep, env, ft, t0 = CURRENT
    rep = dict(rep)
    _collect(rep, env.results)
    rep["unknown"] = rep["unknown"] + ["the solver did not come back"]
    rep["incomplete"] = "solver stuck"
    rep["paths"] += 1
    rep["reach"] += env.reached
    return _plain(rep, ft, t0)


def _collect(rep, results):
    for label, v, cand in results:
        rep["claims"] += 1
        if v == "holds":
            rep["discharged"] += 1
        elif v == "violated":
            rep["violations"].append({"label": label, "cands": cand})
        else:
            rep["unknown"].append(f"solver could not decide: {label}")
            for a in cand or []:
                rep["traces"].append({"inputs": a, "obs": {}, "ended": "probe", "claims": 0})


def _plain(rep, ft, t0):
    rep["functions"] = sorted(ft.funcs)
    rep["notes"] = sorted(rep["notes"])
    rep["assumptions"] = sorted(rep["assumptions"])
    rep["solver"] = dict(core.Q_STATS)
    rep["wall"] = time.time() - t0
    return rep


class _NoClaims(SymEnv):
    def require(self, cond, label):
        pass

    def require_all_eq(self, *a, **k):
        pass


def first_inputs(body, params, opts):
    """Inputs of one complete run of body, None when there is none."""
    work = [[]]
    for _ in range(12):
        if not work:
            return None
        fresh_state()
        c = Ctx(work.pop(), fp_err=opts.get("fp_err", False), div_mode=opts.get("div_mode", "assume"),
                decide_timeout=opts.get("decide_timeout", 2000), max_decisions=opts.get("max_decisions", 400))
        c.deadline = time.time() + 60
        core.set_ctx(c)
        env = _NoClaims(c, dict(opts))
        try:
            with inject.Injector():
                try:
                    body(env, **params)
                except StopBody:
                    pass
                finally:
                    env.patch.undo()
            r, a, _ = env.witness()
            if r == "sat" and a is not None:
                return a
        except (PathDone, Unsupported, Budget, z3.Z3Exception, RecursionError, Exception):
            pass
        finally:
            core.set_ctx(None)
        work.extend(c.forks)
    return None


def explore_after(body, params, opts):
    """The same harness once more, after another run of it with other inputs in the same process."""
    t0 = time.time()
    a = first_inputs(body, params, opts)
    if a is None:
        return None
    rep = explore(body, params, dict(opts, _before=a))
    rep["before"] = a
    rep["wall"] = time.time() - t0
    if rep["incomplete"] in ("path budget", "time budget"):
        rep["incomplete"] = None
    rep["unknown"] = [u for u in rep["unknown"] if not u.startswith("budget: time")]
    return rep


def explore(body, params, opts):
    """Explore every path of body; returns a plain-data report."""
    global CURRENT
    t0 = time.time()
    before = opts.get("_before")
    core.q_reset()
    work = [[]]
    rep = {"paths": 0, "decisions": 0, "claims": 0, "discharged": 0, "unknown": [], "violations": [], "traces": [],
           "cut": 0, "notes": set(), "assumptions": set(), "functions": set(), "reach": 0, "incomplete": None,
           "harness_errors": [], "unknown_branches": 0, "input_vars": 0}
    deadline = t0 + opts.get("budget_s", 600)
    ft = FuncTrace()
    with ft:
        while work:
            if time.time() > deadline:
                rep["incomplete"] = "time budget"
                break
            if rep["paths"] >= opts.get("max_paths", 4000):
                rep["incomplete"] = "path budget"
                break
            prefix = work.pop()
            fresh_state()
            c = Ctx(prefix, fp_err=opts.get("fp_err", False), div_mode=opts.get("div_mode", "assume"),
                    decide_timeout=opts.get("decide_timeout", 2000), max_decisions=opts.get("max_decisions", 400))
            c.deadline = deadline
            core.set_ctx(c)
            env = SymEnv(c, opts)
            CURRENT = (rep, env, ft, t0)
            ended = "end"
            try:
                with inject.Injector():
                    if before is not None:
                        first = BeforeEnv(c, opts, before)
                        try:
                            body(first, **params)
                        except (StopBody, Exception) as e:
                            if isinstance(e, (Unsupported, Budget, z3.Z3Exception, RecursionError)):
                                raise
                        finally:
                            first.patch.undo()
                    try:
                        body(env, **params)
                    except StopBody:
                        pass
                    finally:
                        env.patch.undo()
            except PathDone:
                ended = "cut"
                rep["cut"] += 1
            except Unsupported as e:
                ended = "unsupported"
                rep["unknown"].append(f"unsupported: {e}" + _where())
            except Budget as e:
                ended = "budget"
                rep["unknown"].append(f"budget: {e}")
            except z3.Z3Exception as e:
                ended = "unsupported"
                rep["unknown"].append(f"z3: {e}" + _where())
            except RecursionError:
                ended = "unsupported"
                rep["unknown"].append("recursion")
            except Exception as e:
                ended = "harness-error"
                rep["harness_errors"].append(traceback.format_exc()[-2500:])
            work.extend(c.forks)
            rep["decisions"] += len(c.trail)
            rep["input_vars"] = max(rep["input_vars"], len(c.inputs))
            rep["notes"] |= c.notes
            rep["assumptions"] |= c.assumptions
            rep["unknown_branches"] += c.unknown_branches
            if ended == "cut":
                core.set_ctx(None)
                continue
            _collect(rep, env.results)
            if ended in ("unsupported", "budget"):
                # the encoding stopped here: solver models of the path prefix are still run on the real code
                for a in env.candidates(z3.BoolVal(True), 6):
                    rep["traces"].append({"inputs": a, "obs": {}, "ended": "probe", "claims": 0})
                rep["paths"] += 1
                rep["reach"] += env.reached
                core.set_ctx(None)
                continue
            wr, wa, wobs = env.witness()
            if wr == "unsat":
                core.set_ctx(None)
                continue  # branch kept only because feasibility was unknown; it is not a path
            rep["paths"] += 1
            rep["reach"] += env.reached
            if wa is not None:
                rep["traces"].append({"inputs": wa, "obs": wobs, "ended": ended, "claims": len(env.results)})
            core.set_ctx(None)
    CURRENT = None
    return _plain(rep, ft, t0)


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    for f in reversed(tb):
        if f.filename.startswith(REPO_SRC):
            return f" at {os.path.relpath(f.filename, REPO_SRC)}:{f.lineno}"
    return ""
