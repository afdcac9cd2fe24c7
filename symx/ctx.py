"""The harness interface.  The same harness runs symbolically (SymCtx) and concretely (ConCtx)."""
import math
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, is_sym, Stop, PathAbort, Unsupported

TOL = 1e-6


class Violated(core.Stop):
    """A checked condition is false in a concrete run."""

    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail
        Stop.__init__(self, "%s %s" % (label, detail))


class Obligation:
    __slots__ = ("label", "strict", "tol")

    def __init__(self, label, strict, tol=None):
        self.label, self.strict, self.tol = label, strict, tol


def plain(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, float) and not math.isfinite(v):
        return str(v)
    return v


class BaseCtx:
    symbolic = False
    tol = 1e-7               # relative difference attributed to floating-point rounding

    def __init__(self):
        self.covers = set()
        self.notes = []
        self.obs = []

    def cover(self, label):
        self.covers.add(label)

    def cover_if(self, label, cond):
        """Reached if the condition can hold here (asked once per label and run)."""
        if label not in self.covers and label not in self.covered_before and self.possible(cond):
            self.covers.add(label)

    def possible(self, cond):
        return bool(cond)

    covered_before = ()

    prefix = ""

    def run(self, mod, fn, params):
        """One harness function, or several one after another on the same loaded package (fn "in_turn")."""
        if fn != "in_turn":
            return getattr(mod, fn)(self, **params)
        lists = [v for k, v in vars(mod).items() if k in ("LABELS", "NAMES", "LAB") and isinstance(v[0], str)] if params.get("labels") else []
        keep = [list(v) for v in lists]
        try:
            for v in lists:                              # the harness names its variables otherwise
                v[:] = params["labels"][:len(v)]
            for i, (f, p) in enumerate(params["steps"]):
                self.prefix = "run%d." % i
                if i:
                    from . import stubs
                    stubs.set_env(stubs.Env(self))
                    self.env = stubs.env()
                getattr(mod, f)(self, **p)
        finally:
            for v, k in zip(lists, keep):
                v[:] = k

    def note(self, s):
        self.notes.append(s)

    def bool(self, name):
        raise NotImplementedError

    def choice(self, name, options):
        """One of `options`, selected by a symbolic index (concretised by forking)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1).__index__()]

    def frame(self, cols, index=None):
        """A DataFrame from lists; symbolic cells are kept in object columns."""
        import pandas as pd
        return pd.DataFrame({k: (np.array(v, dtype=object) if any(is_sym(x) for x in v) else v) for k, v in cols.items()},
                            columns=list(cols), index=index)

    def path(self, name):
        import os
        return os.path.join(self.scratch, name)

    def eq_all(self, label, got, want):
        for g, w in zip(got, want):
            self.eq(label, g, w)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng):
        BaseCtx.__init__(self)
        self.eng = eng
        self.obl = []

    # inputs
    def int(self, name, lo, hi, np_=False):
        z3 = core.z3
        name = self.prefix + name
        if lo == hi:
            return lo
        if name in self.eng.inputs:
            v = self.eng.inputs[name][1]
        else:
            v = z3.Int(name)
            self.eng.inputs[name] = ("int", v)
            self.eng.bounds[name] = (lo, hi)
            self.eng.add(z3.And(v >= lo, v <= hi))
        return core.Num(v, np_)

    def real(self, name, lo, hi, lo_strict=False, hi_strict=False, np_=True):
        z3 = core.z3
        name = self.prefix + name
        if name in self.eng.inputs:
            v = self.eng.inputs[name][1]
        else:
            v = z3.Real(name)
            self.eng.inputs[name] = ("real", v)
            l, h = core.const_real(Fraction(lo)), core.const_real(Fraction(hi))
            self.eng.add(z3.And(v > l if lo_strict else v >= l, v < h if hi_strict else v <= h))
        return core.Num(v, np_)

    def bool(self, name):
        z3 = core.z3
        name = self.prefix + name
        if name not in self.eng.inputs:
            self.eng.inputs[name] = ("bool", z3.Bool(name))
        return core.SBool(self.eng.inputs[name][1], False)

    def possible(self, cond):
        if not is_sym(cond):
            return bool(cond)
        return self.eng.check(core.boolexpr(cond)) == core.z3.sat

    def assume(self, c):
        if is_sym(c):
            self.eng.assume(core.boolexpr(c))
        elif not c:
            raise PathAbort("assume")

    def cut(self, why):
        raise PathAbort(why)

    # assertions
    def check(self, label, cond, tol=None):
        """cond must hold for every value on this path."""
        if is_sym(cond):
            self.obl.append(Obligation(label, core.boolexpr(cond), core.boolexpr(tol) if tol is not None else None))
        else:
            self.obl.append(Obligation(label, core.z3.BoolVal(bool(cond))))

    def eq(self, label, got, want):
        g, w = got, want
        if is_sym(g) or is_sym(w):
            if not (core.is_num(g) and core.is_num(w)):
                return self.check(label, False)
            if not (core.finite(g) and core.finite(w)):
                return self.check(label, False)
            s = core.binop("eq", g, w)
            d = core.absolute(g - w)
            t = d <= self.tol * (1 + core.absolute(w))
            self.check(label, s, t if is_sym(t) else None)
        else:
            self.check(label, con_eq(g, w, self.tol))

    def implies(self, a, b):
        return core.or_(core.not_(a), b)

    def iff(self, a, b):
        return core.or_(core.and_(a, b), core.and_(core.not_(a), core.not_(b)))

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def And(self, *cs):
        return core.and_(*cs)

    def Or(self, *cs):
        return core.or_(*cs)

    def Not(self, c):
        return core.not_(c)

    def sum(self, xs):
        r = 0
        for x in xs:
            r = x if not is_sym(r) and r == 0 else r + x
        return r

    def observe(self, name, v):
        self.obs.append((name, v))

    def write_json(self, name, doc):
        from .pdx import symtext
        import json
        from .stubs import _has_sym_deep, json_norm
        self.env.files[self.path(name)] = [symtext(json_norm(doc)) if _has_sym_deep(doc) else json.dumps(doc)]
        return self.path(name)

    def read_json(self, name):
        import json
        t = self.env.files[self.path(name)]
        if len(t) != 1:
            self.check("the file holds one JSON document", False)
            raise core.PathEnd("not one document")
        return t[0].doc if getattr(t[0], "doc", None) is not None else json.loads(t[0])

    def loggamma(self, x):
        from scipy.special import loggamma
        return core.uf1("lgamma", lambda v: float(loggamma(v)))(x) if is_sym(x) else float(loggamma(x))

    def log(self, x):
        return core.uf1("log", math.log)(x) if is_sym(x) else math.log(x)

    def sqrt(self, x):
        return core.sqrt(x)

    def round(self, x, n):
        return core.round_(x, n)

    def dist(self, name, fn, *args):
        import scipy.stats
        rf = getattr(getattr(scipy.stats, name), fn)
        return core.uf1("%s_%s" % (name, fn), lambda *a: float(rf(*a)))(*args)

    def farray(self, x, dtype):
        from .arr import symarray, wrap, has_sym
        if has_sym(x):
            return symarray(x, dtype)
        a = np.array(x, dtype=dtype)
        return wrap(a.astype(object), a.dtype)


def con_eq(g, w, tol=TOL):
    if g is None or w is None or isinstance(g, str) or isinstance(w, str):
        return g == w
    try:
        g, w = float(g), float(w)
    except (TypeError, ValueError):
        return bool(g == w)
    if math.isnan(g) or math.isnan(w):
        return math.isnan(g) and math.isnan(w)
    if math.isinf(g) or math.isinf(w):
        return g == w
    return abs(g - w) <= tol * (1 + abs(w))


class ConCtx(BaseCtx):
    """Concrete run with the values of `model` (missing inputs take their lower bound)."""

    def __init__(self, model):
        BaseCtx.__init__(self)
        self.model = model
        self.missing = []
        self.checked = 0

    def _get(self, name, default):
        name = self.prefix + name
        if name not in self.model:
            self.missing.append(name)
            return default
        return self.model[name]

    def int(self, name, lo, hi, np_=False):
        if lo == hi:
            return lo
        v = min(max(int(self._get(name, lo)), lo), hi)
        return np.int64(v) if np_ else v

    def real(self, name, lo, hi, lo_strict=False, hi_strict=False, np_=True):
        v = float(self._get(name, (lo + hi) / 2 if lo_strict or hi_strict else lo))
        return np.float64(v) if np_ else v

    def bool(self, name):
        return bool(self._get(name, False))

    def assume(self, c):
        if not c:
            raise PathAbort("assume")

    def cut(self, why):
        raise PathAbort(why)

    def check(self, label, cond, tol=None):
        self.checked += 1
        if not cond:
            raise Violated(label)

    def eq(self, label, got, want):
        self.checked += 1
        if not con_eq(got, want, self.tol):
            raise Violated(label, "got %r, expected %r" % (plain(got), plain(want)))

    def implies(self, a, b):
        return (not a) or b

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def sum(self, xs):
        return sum(xs)

    def observe(self, name, v):
        self.obs.append((name, plain(v)))

    def write_json(self, name, doc):
        import json
        with open(self.path(name), "w") as f:
            json.dump(doc, f, default=plain)
        return self.path(name)

    def read_json(self, name):
        import json
        with open(self.path(name)) as f:
            try:
                return json.load(f)
            except ValueError:
                self.check("the file holds one JSON document", False)
                raise

    def loggamma(self, x):
        from scipy.special import loggamma
        return float(loggamma(x))

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def round(self, x, n):
        return round(x, n)

    def dist(self, name, fn, *args):
        import scipy.stats
        with np.errstate(all="ignore"):
            return float(getattr(getattr(scipy.stats, name), fn)(*args))

    def farray(self, x, dtype):
        return np.array(x, dtype=dtype)
