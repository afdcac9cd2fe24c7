"""Symbolic values and the path engine.

A path is one execution of the real code.  Symbolic scalars are wrappers of z3 terms; a branch on a
symbolic condition asks the solver which sides are possible under the path condition and the engine
re-executes the harness for every feasible side (depth first), so the set of explored paths covers every
value of the inputs within the declared ranges.
"""
import math
import time
from fractions import Fraction

import numpy as np

from .z3load import z3

NAN, INF = float("nan"), float("inf")


import sys as _sys
import os as _os
PIN_TRACE = _os.environ.get('SYMX_PIN_TRACE')
_sys.set_int_max_str_digits(0)


class Stop(BaseException):
    """Base of everything that must not be caught by `except Exception` in the code under test."""


class PathAbort(Stop):
    """The current path is infeasible or was cut by an assumption."""


class PathEnd(PathAbort):
    """The run ends here by the harness's decision; what it claimed so far counts."""


class Unsupported(Stop):
    """The engine cannot continue this path symbolically."""


class PathTimeout(Stop):
    pass


class Blocked(Stop):
    """The code waits for something that can never happen."""


_ENG = None


def engine():
    return _ENG


def set_engine(e):
    global _ENG
    _ENG = e


# --------------------------------------------------------------------------------------------- engine
class Engine:
    def __init__(self, query_ms=10000):
        self.query_ms = query_ms
        self.stats = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, forks=0, concretised=0)
        self.uf_real = {}
        self.uf_decl = {}
        self.facts = {}          # learned true values of uninterpreted functions: key -> z3 expr
        self.dump = None         # optional callable(list of assertions, verdict) used for cross-checking
        self.begin([])

    # -- one path -------------------------------------------------------------------------------
    def begin(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.prefix = prefix
        self.trail = []
        self.pending = []        # alternative prefixes discovered on this path
        self.model = None
        self.inputs = {}         # name -> (kind, z3 const or concrete value)
        self.lazy = []           # lazy axioms (exprs)
        self.lazy_done = 0
        self.uf_apps = {}        # key -> (name, args exprs, term)
        self.pinned = []
        self.unknown_branch = 0
        self.fresh_n = 0
        self.round_memo = {}
        self.bounds = {}         # declared ranges of integer inputs, by name
        self.narrow_memo = {}
        for f in self.facts.values():
            self.solver.add(f)

    def fresh(self, name):
        self.fresh_n += 1
        return "%s!%d" % (name, self.fresh_n)

    def add(self, e):
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def check(self, *assumptions, timeout=None):
        t = time.perf_counter()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*assumptions)
        if timeout:
            self.solver.set("timeout", self.query_ms)
        dt = time.perf_counter() - t
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        self.stats[str(r)] += 1
        if self.dump and r != z3.unknown:
            self.dump(self.solver, assumptions, str(r))
        return r

    def get_model(self):
        """A model of the path condition (None if infeasible/unknown)."""
        if self.model is None:
            r = self.check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort("infeasible")
        return self.model

    def assume(self, e):
        """Add a constraint that is part of the claim; cut the path if it cannot hold."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self.add(e)
        if len(self.trail) >= len(self.prefix):
            self.get_model()

    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        pos = len(self.trail)
        if pos < len(self.prefix):
            d = self.prefix[pos][0]
            self.trail.append((d, None))
            self.add(cond if d else z3.Not(cond))
            return d
        self.stats["forks"] += 1
        m = self.get_model()
        if m is None:            # unknown: ask for the two sides separately
            d = True
            r = self.check(cond)
            if r == z3.unsat:
                self.trail.append((False, None))
                self.add(z3.Not(cond))
                return False
            self.unknown_branch += 1
        else:
            d = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if d else cond
        r = self.check(other)
        if r != z3.unsat:
            self.pending.append(self.trail + [(not d, None)])
        self.trail.append((d, None))
        self.solver.add(cond if d else other_not(other))
        return d

    def concretise(self, expr):
        """Fork over the possible values of an integer term; returns a python int."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        n = 0
        while True:
            pos = len(self.trail)
            if pos < len(self.prefix):
                d, val = self.prefix[pos]
                self.trail.append((d, val))
                self.add(expr == val if d else expr != val)
            else:
                self.stats["concretised"] += 1
                m = self.get_model()
                if m is None:
                    raise Unsupported("no model to concretise an index")
                val = m.eval(expr, model_completion=True)
                if not z3.is_int_value(val):
                    raise Unsupported("concretise: " + str(val))
                val = val.as_long()
                r = self.check(expr != val)
                if r != z3.unsat:
                    self.pending.append(self.trail + [(False, val)])
                d = True
                self.trail.append((True, val))
                self.solver.add(expr == val)
            if d:
                return val
            n += 1
            if n > 400:
                raise Unsupported("index with too many values")

    def pin(self, expr):
        """Fix a real term to one model value.  The path becomes a sample: reported as incomplete."""
        pos = len(self.trail)
        if pos < len(self.prefix):
            val = self.prefix[pos][1]
        else:
            if PIN_TRACE:
                import traceback
                traceback.print_stack(limit=14)
            m = self.get_model()
            if m is None:
                raise Unsupported("no model to pin")
            val = num_of(m.eval(expr, model_completion=True))
            # prefer a double, and one with many digits (a sample should not be a special case)
            for d in (0.12345678912345678, 0.0012345678912345678, -0.12345678912345678, 0.0):
                f = float(val) + d
                if self.check(expr == const(Fraction(f))) == z3.sat:
                    val = Fraction(f)
                    break
        self.trail.append((True, val))
        self.add(expr == const(val))
        self.pinned.append(str(expr)[:80])
        return float(val)

    # -- uninterpreted functions -----------------------------------------------------------------
    def uf(self, name, args, real):
        self.uf_real[name] = real
        if name not in self.uf_decl:
            self.uf_decl[name] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        ex = [z3.simplify(to_real(a)) for a in args]
        t = self.uf_decl[name](*ex)
        key = (name,) + tuple(e.get_id() for e in ex)
        if key not in self.uf_apps:
            self.uf_apps[key] = (name, ex, t)
        return t

    def learn(self, model):
        """Compare the model's interpretation of the UFs with the real functions; returns new facts."""
        new = 0
        for name, ex, t in list(self.uf_apps.values()):
            vals = [num_of(model.eval(e, model_completion=True)) for e in ex]
            if any(v is None for v in vals):
                continue
            k = (name,) + tuple(vals)
            if k in self.facts:
                continue
            try:
                true = float(self.uf_real[name](*[float(v) for v in vals]))
            except Exception:
                continue
            if math.isnan(true) or math.isinf(true):
                continue
            mv = num_of(model.eval(t, model_completion=True))
            if mv is not None and abs(float(mv) - true) <= 1e-12 * max(1.0, abs(true)):
                continue
            f = self.uf_decl[name](*[const_real(v) for v in vals]) == const_real(Fraction(true))
            self.facts[k] = f
            self.solver.add(f)
            new += 1
        return new

    def flush_lazy(self):
        new = self.lazy[self.lazy_done:]
        self.lazy_done = len(self.lazy)
        for a in new:
            self.add(a)
        return bool(new)


def other_not(e):
    # e is Not(cond) or cond; return its negation without double negation
    return e.arg(0) if z3.is_not(e) else z3.Not(e)


def num_of(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


_cc = {}


def const_real(x):
    r = _cc.get(x)
    if r is None:
        f = Fraction(x)
        r = _cc[x] = z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 \
            else z3.RealVal(f.numerator)
    return r


def const(x):
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    return const_real(Fraction(x) if not isinstance(x, (float, np.floating)) else Fraction(float(x)))


# --------------------------------------------------------------------------------------------- values
def is_sym(x):
    return isinstance(x, Sym)


def is_num(x):
    return isinstance(x, (int, float, np.number, np.bool_, Fraction, Sym))


def finite(x):
    return not isinstance(x, (float, np.floating)) or math.isfinite(x)


def is_np(x):
    return isinstance(x, np.generic) or (isinstance(x, Sym) and x.np)


def zexpr(x):
    if isinstance(x, Sym):
        return x.e
    return const(x)


def to_num_expr(e):
    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(e) else e


def to_real(x):
    e = to_num_expr(zexpr(x)) if not z3.is_expr(x) else to_num_expr(x)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return const_real(Fraction(e.as_long()))
        return z3.ToReal(e)
    return e


def mk(e, np_=True):
    """Wrap a z3 term; constants become python numbers."""
    if z3.is_bool(e):
        if z3.is_true(e):
            return np.True_ if np_ else True
        if z3.is_false(e):
            return np.False_ if np_ else False
        return SBool(e, np_)
    if z3.is_int_value(e):
        return np.int64(e.as_long()) if np_ else e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        fl = float(f)
        if Fraction(fl) == f:
            return np.float64(fl) if np_ else fl
        return Num(e, np_)
    return Num(e, np_)


def _pair(a, b):
    ea, eb = to_num_expr(zexpr(a)), to_num_expr(zexpr(b))
    if z3.is_int(ea) != z3.is_int(eb):
        ea, eb = to_real(ea), to_real(eb)
    return ea, eb


def _concrete_binop(name, a, b):
    """One operand is nan/inf: the result with a symbolic finite partner."""
    s = a if is_sym(a) else b
    f = float(b if is_sym(a) else a)
    if math.isnan(f):
        if name in ("lt", "le", "gt", "ge", "eq"):
            return np.False_
        if name == "ne":
            return np.True_
        return np.float64(NAN)
    left = is_sym(a)
    if name in ("add",):
        return np.float64(f)
    if name == "sub":
        return np.float64(-f if left else f)
    if name == "mul":
        sg = sign(s)
        return np.float64(NAN if sg == 0 else f * sg)
    if name == "div":
        if left:
            return np.float64(0.0)
        sg = sign(s)
        return np.float64(f if sg >= 0 else -f)
    if name == "eq":
        return np.False_
    if name == "ne":
        return np.True_
    v = {"lt": f > 0, "le": f > 0, "gt": f < 0, "ge": f < 0}[name]
    return np.bool_(v if left else not v)


def sign(s):
    """-1, 0, 1 by forking."""
    e = to_num_expr(zexpr(s))
    if engine().fork(e == 0):
        return 0
    return 1 if engine().fork(e > 0) else -1


def binop(name, a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    if not (finite(a) and finite(b)):
        return _concrete_binop(name, a, b)
    np_ = is_np(a) or is_np(b)
    ea, eb = _pair(a, b)
    if name == "add":
        r = ea + eb
    elif name == "sub":
        r = ea - eb
    elif name == "mul":
        if _is0(ea) or _is0(eb):
            return (np.float64 if np_ else float)(0.0) if not z3.is_int(ea) else (np.int64 if np_ else int)(0)
        if _is1(ea):
            r = eb
        elif _is1(eb):
            r = ea
        else:
            r = ea * eb
    elif name == "div":
        ea, eb = to_real(ea), to_real(eb)
        if z3.is_rational_value(eb):
            v = num_of(eb)
            if v == 0:
                return div_zero(ea, np_)
            r = ea if v == 1 else ea * const_real(1 / v)
        else:
            if engine().fork(eb == 0):
                return div_zero(ea, np_)
            r = ea / eb
    elif name == "lt":
        r = ea < eb
    elif name == "le":
        r = ea <= eb
    elif name == "gt":
        r = ea > eb
    elif name == "ge":
        r = ea >= eb
    elif name == "eq":
        r = ea == eb
    elif name == "ne":
        r = ea != eb
    elif name in ("floordiv", "mod"):
        if not (z3.is_int(ea) and z3.is_int(eb)):
            ra, rb = to_real(ea), to_real(eb)
            if engine().fork(rb == 0):
                if np_:
                    return np.float64(NAN)
                raise ZeroDivisionError("float modulo")
            q = z3.ToReal(z3.ToInt(ra / rb))
            r = q if name == "floordiv" else ra - q * rb
        else:
            if not z3.is_int_value(eb) and engine().fork(eb == 0) or (z3.is_int_value(eb) and eb.as_long() == 0):
                if np_:
                    return np.int64(0)
                raise ZeroDivisionError("integer modulo by zero")
            if z3.is_int_value(eb):
                pos = eb.as_long() > 0
            else:
                pos = engine().fork(eb > 0)
            # z3 div/mod are Euclidean; python floors
            if pos:
                r = ea / eb if name == "floordiv" else ea % eb
            else:
                m = -((-ea) % (-eb))
                r = m if name == "mod" else (ea - m) / eb
    else:
        raise Unsupported(name)
    return mk(r, np_)


def _is0(e):
    return (z3.is_int_value(e) and e.as_long() == 0) or (z3.is_rational_value(e) and num_of(e) == 0)


def _is1(e):
    return (z3.is_int_value(e) and e.as_long() == 1) or (z3.is_rational_value(e) and num_of(e) == 1)


def div_zero(ea, np_):
    if not np_:
        raise ZeroDivisionError("float division by zero")
    ea = z3.simplify(ea)
    if engine().fork(ea == 0):
        return np.float64(NAN)
    return np.float64(INF) if engine().fork(ea > 0) else np.float64(-INF)


def power(a, b):
    if is_sym(b):
        raise Unsupported("symbolic exponent")
    b = b.item() if isinstance(b, np.generic) else b
    if isinstance(b, float) and b == int(b):
        r = power(a, int(b))
        return to_float(r)
    if b == 0.5:
        return sqrt(a)
    if isinstance(b, int):
        if b < 0:
            return binop("div", np.float64(1.0) if is_np(a) else 1.0, power(a, -b))
        r = 1
        for _ in range(b):
            r = binop("mul", r, a)
        return r
    raise Unsupported("power %r" % (b,))


def narrow_int(x, dt):
    """An integer kept in fewer than 64 bits wraps around."""
    if isinstance(x, SBool):
        return x
    e, eng = x.e, engine()
    lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
    b = eng.bounds.get(e.decl().name()) if z3.is_const(e) and z3.is_int(e) and not z3.is_int_value(e) else None
    if b is not None and lo <= b[0] and b[1] <= hi:
        return x
    key = (e.get_id(), dt.str)
    if key not in eng.narrow_memo:
        ok = eng.check(z3.Or(e < lo, e > hi)) == z3.unsat
        eng.narrow_memo[key] = (e, x if ok else mk(z3.If(z3.And(e >= lo, e <= hi), e, (e - lo) % (hi - lo + 1) + lo), x.np))
    return eng.narrow_memo[key][1]


def narrow_float(x, dt):
    """A real number kept in less than double precision: the nearest such number."""
    x, eng = to_float(x), engine()
    e = x.e
    if z3.is_app(e) and e.decl().name() == dt.name:
        return x
    t = eng.uf(dt.name, [x], lambda v: float(dt.type(v)))
    rel = const_real(Fraction(float(np.finfo(dt).eps)))
    if t.get_id() not in eng.narrow_memo:
        eng.narrow_memo[t.get_id()] = t
        a = z3.If(e < 0, -e, e)
        eng.add(z3.And(t - e <= rel * a, e - t <= rel * a))
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):            # small whole numbers are kept exactly
            eng.add(z3.Or(a > 2 ** (np.finfo(dt).nmant + 1), t == e))
    return mk(t, True)


def to_float(x):
    if is_sym(x):
        return mk(to_real(x), x.np)
    return x if isinstance(x, (float, np.floating)) else (np.float64(x) if is_np(x) else float(x))


def sqrt(a):
    if not is_sym(a):
        return np.sqrt(a)
    e = to_real(a)
    if engine().fork(e < 0):
        return np.float64(NAN)
    t = engine().uf("sqrt", [a], math.sqrt)
    engine().lazy.append(z3.And(t >= 0, t * t == e))
    return mk(t, True)


def uf1(name, real, positive_domain=False):
    def f(*args):
        if not any(is_sym(a) for a in args):
            return real(*args)
        if not all(finite(a) for a in args):
            raise Unsupported(name + " of nan/inf and a symbolic value")
        return mk(engine().uf(name, list(args), real), True)
    return f


def trunc(x):
    """Truncation towards zero (C cast / int()), as an int value."""
    if isinstance(x, SBool):
        return mk(to_num_expr(x.e), x.np)
    if not is_sym(x):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return np.int64(-2 ** 63)
        return np.int64(int(x))
    e = x.e
    if z3.is_int(e):
        return x
    e = z3.simplify(e)
    if z3.is_to_real(e):
        return mk(e.arg(0), x.np)
    fl = z3.ToInt(e)
    return mk(z3.simplify(z3.If(e >= 0, fl, -z3.ToInt(-e))), x.np)


def floor(x):
    if not is_sym(x):
        return math.floor(x)
    if z3.is_int(to_num_expr(x.e)):
        return mk(to_num_expr(x.e), x.np)
    return mk(z3.ToInt(x.e), x.np)


def round_(x, n=None):
    """Decimal rounding, abstracted: within half a unit of the n-th decimal, a function of its argument."""
    if not is_sym(x):
        return round(x, n) if n is not None else round(x)
    e = to_num_expr(x.e)
    if z3.is_int(e):
        return x
    if n is None:
        f = z3.ToInt(e)
        d = e - z3.ToReal(f)
        r = z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return mk(r, x.np)
    eng = engine()
    e = z3.simplify(e)
    k = (e.get_id(), int(n))
    if k not in eng.round_memo:
        c = z3.Real(eng.fresh("round%d" % n))
        h = const_real(Fraction(1, 2 * 10 ** int(n)))
        eng.add(z3.And(c - e <= h, e - c <= h, z3.Implies(e >= 0, c >= 0), z3.Implies(e <= 0, c <= 0)))
        eng.round_memo[k] = (c, e)
    return mk(eng.round_memo[k][0], x.np)


def absolute(x):
    if not is_sym(x):
        return abs(x)
    e = to_num_expr(x.e)
    return mk(z3.If(e >= 0, e, -e), x.np)


def ite(c, a, b):
    """If-then-else without forking where possible."""
    if not is_sym(c):
        return a if c else b
    if a is b:
        return a
    if not (is_num(a) and is_num(b) and finite(a) and finite(b)):
        return a if engine().fork(boolexpr(c)) else b
    ea, eb = zexpr(a), zexpr(b)
    if z3.is_bool(ea) != z3.is_bool(eb):
        ea, eb = to_num_expr(ea), to_num_expr(eb)
    if not z3.is_bool(ea) and z3.is_int(ea) != z3.is_int(eb):
        ea, eb = to_real(ea), to_real(eb)
    if ea.eq(eb):
        return a
    return mk(z3.If(boolexpr(c), ea, eb), True)


def boolexpr(c):
    if isinstance(c, SBool):
        return c.e
    if is_sym(c):
        return c.e != 0
    return z3.BoolVal(bool(c))


def and_(*cs):
    es = []
    for c in cs:
        if is_sym(c):
            es.append(boolexpr(c))
        elif not c:
            return np.False_
    return mk(z3.And(es)) if len(es) > 1 else (mk(es[0]) if es else np.True_)


def or_(*cs):
    es = []
    for c in cs:
        if is_sym(c):
            es.append(boolexpr(c))
        elif c:
            return np.True_
    return mk(z3.Or(es)) if len(es) > 1 else (mk(es[0]) if es else np.False_)


def not_(c):
    if is_sym(c):
        return mk(z3.Not(boolexpr(c)))
    return np.bool_(not c)


def eq(a, b):
    if is_sym(a) or is_sym(b):
        r = binop("eq", a, b)
        return False if r is NotImplemented else r
    return a == b


class Sym:
    __slots__ = ("e", "np")

    def __init__(self, e, np_=True):
        self.e = e
        self.np = np_

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __repr__(self):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        if isinstance(self, SBool):
            return format(bool(self), spec)
        if z3.is_int(self.e):
            return format(self.__index__(), spec)
        return "<sym>"

    # arithmetic
    def __add__(self, o): return binop("add", self, o)
    def __radd__(self, o): return binop("add", o, self)
    def __sub__(self, o): return binop("sub", self, o)
    def __rsub__(self, o): return binop("sub", o, self)
    def __mul__(self, o): return binop("mul", self, o)
    def __rmul__(self, o): return binop("mul", o, self)
    def __truediv__(self, o): return binop("div", self, o)
    def __rtruediv__(self, o): return binop("div", o, self)
    def __floordiv__(self, o): return binop("floordiv", self, o)
    def __rfloordiv__(self, o): return binop("floordiv", o, self)
    def __mod__(self, o): return binop("mod", self, o)
    def __rmod__(self, o): return binop("mod", o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if not is_num(o):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __lt__(self, o): return binop("lt", self, o)
    def __le__(self, o): return binop("le", self, o)
    def __gt__(self, o): return binop("gt", self, o)
    def __ge__(self, o): return binop("ge", self, o)

    def __eq__(self, o):
        r = binop("eq", self, o)
        return r

    def __ne__(self, o):
        return binop("ne", self, o)

    def __abs__(self): return absolute(self)

    def __round__(self, n=None): return round_(self, n)
    def __trunc__(self): return trunc(self)
    def __floor__(self): return floor(self)
    def __ceil__(self): return -floor(-self)

    # attributes numpy scalars have
    @property
    def dtype(self):
        return np.dtype(bool) if isinstance(self, SBool) else np.dtype(np.int64) if z3.is_int(self.e) \
            else np.dtype(np.float64)

    @property
    def shape(self): return ()

    @property
    def ndim(self): return 0

    @property
    def size(self): return 1

    @property
    def real(self): return self

    def item(self): return mk(self.e, False)
    def copy(self): return self

    def astype(self, t):
        t = np.dtype(t)
        k = t.kind
        if k in "iu":
            return trunc(self) if t.itemsize >= 8 else narrow_int(trunc(self), t)
        if k == "f":
            return to_float(self) if t.itemsize >= 8 else narrow_float(self, t)
        if k == "b":
            return mk(boolexpr(self))
        return self

    def is_integer(self):
        e = to_num_expr(self.e)
        return True if z3.is_int(e) else mk(z3.IsInt(e), False)

    def sum(self, *a, **k): return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.dispatch_function(func, args, kwargs)


class Num(Sym):
    __slots__ = ()

    def __neg__(self):
        return mk(-self.e, self.np)

    def __pos__(self):
        return self

    def __bool__(self):
        return engine().fork(self.e != 0)

    def __hash__(self):
        if z3.is_int(self.e):
            return hash(engine().concretise(self.e))
        raise Unsupported("hash of a symbolic real")

    def __index__(self):
        if z3.is_int(self.e):
            return engine().concretise(self.e)
        raise TypeError("'numpy.float64' object cannot be interpreted as an integer")

    def __int__(self):
        return engine().concretise(zexpr(trunc(self)))

    def __float__(self):
        if z3.is_int(self.e):
            return float(engine().concretise(self.e))
        return engine().pin(self.e)

    def _bits(self, name, o):
        if isinstance(o, SBool) or isinstance(o, (bool, np.bool_)):
            return NotImplemented
        if not z3.is_int(self.e) or not (isinstance(o, (int, np.integer)) or isinstance(o, Num) and z3.is_int(o.e)):
            raise TypeError("unsupported operand type(s) for a bitwise operation: 'float' and %r" % type(o).__name__)
        if not is_sym(o) and o >= 0 and (o & (o + 1)) == 0:
            low = self % (int(o) + 1)                      # x & (2^k - 1) is x mod 2^k, for every x
            return low if name == "and" else self - low + int(o) if name == "or" else self + int(o) - 2 * low
        a, b = self.__index__(), (o.__index__() if is_sym(o) else int(o))
        return {"and": a & b, "or": a | b, "xor": a ^ b}[name]

    def __lshift__(self, o):
        return self * 2 ** (o.__index__() if is_sym(o) else int(o))

    def __rshift__(self, o):
        return self // 2 ** (o.__index__() if is_sym(o) else int(o))

    def __invert__(self):
        return -self - 1

    def __and__(self, o): return self._bits("and", o)
    def __or__(self, o): return self._bits("or", o)
    def __xor__(self, o): return self._bits("xor", o)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__


class SBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return engine().fork(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __neg__(self):
        return mk(-to_num_expr(self.e), self.np)

    def __pos__(self):
        return mk(to_num_expr(self.e), self.np)

    def __and__(self, o):
        return and_(self, o) if isinstance(o, (bool, np.bool_, SBool)) else NotImplemented

    def __or__(self, o):
        return or_(self, o) if isinstance(o, (bool, np.bool_, SBool)) else NotImplemented

    def __xor__(self, o):
        return mk(z3.Xor(self.e, boolexpr(o)), True) if isinstance(o, (bool, np.bool_, SBool)) else NotImplemented

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return mk(self.e == boolexpr(o), self.np)
        return binop("eq", self, o)

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return mk(self.e != boolexpr(o), self.np)
        return binop("ne", self, o)
