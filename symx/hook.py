"""Load PyCTBN from /repo's current source with its imports answered by proxies.

mode 'sym': numpy/math/json/scipy/random/processes/open are symbolic-aware.
mode 'env': only the environment (random, processes) is replaced: used to replay a counterexample that
            fixes random draws or schedules on the otherwise untouched code.
mode 'raw': nothing is replaced (plain import).
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import math
import os
import sys
import types

import numpy as np

from . import core, stubs
from .core import is_sym, Sym

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "PyCTBN"


# --------------------------------------------------------------------------------- AST instrumentation
class Rewrite(ast.NodeTransformer):
    """`int(x)` etc. keep symbolic values; index expressions lose SymArray wrappers around concrete data."""
    CALLS = {"int": "__sx_int__", "float": "__sx_float__", "str": "__sx_str__", "isinstance": "__sx_isinstance__",
             "round": "__sx_round__", "min": "__sx_min__", "max": "__sx_max__", "repr": "__sx_str__"}

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.CALLS:
            n.func = ast.copy_location(ast.Name(self.CALLS[n.func.id], ast.Load()), n.func)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == "float" and n.attr == "is_integer":
            return ast.copy_location(ast.Name("__sx_float_is_integer__", ast.Load()), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.slice, (ast.Constant, ast.Slice)) and not (
                isinstance(n.slice, ast.Tuple) and all(isinstance(e, (ast.Constant, ast.Slice)) for e in n.slice.elts)):
            if isinstance(n.slice, ast.Tuple):
                n.slice.elts = [e if isinstance(e, (ast.Constant, ast.Slice, ast.Starred)) else self._wrap(e)
                                for e in n.slice.elts]
            else:
                n.slice = self._wrap(n.slice)
        n.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sx_tgt__", ast.Load()), n.value), [n.value], []),
                                    n.value)
        return n

    def _wrap(self, e):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sx_idx__", ast.Load()), e), [e], []), e)


def sx_int(*a, **k):
    from .arr import SymArray
    if len(a) == 1 and not k:
        v = a[0]
        if isinstance(v, SymArray):
            v = v._one()
        if is_sym(v):
            r = core.trunc(v)
            return r.item() if hasattr(r, "item") else r
    return int(*a, **k)


def sx_float(*a):
    from .arr import SymArray
    if len(a) == 1:
        v = a[0]
        if isinstance(v, SymArray):
            v = v._one()
        if is_sym(v):
            r = core.to_float(v)
            return r.item() if hasattr(r, "item") else r
    return float(*a)


def sx_float_is_integer(x):
    if is_sym(x):
        if core.z3.is_int(core.to_num_expr(x.e)):
            raise TypeError("descriptor 'is_integer' for 'float' objects doesn't apply to a 'int' object")
        return x.is_integer()
    return float.is_integer(x)


def sx_str(*a, **k):
    if len(a) == 1 and is_sym(a[0]):
        v = a[0]
        if isinstance(v, core.SBool):
            return str(bool(v))
        if core.z3.is_int(v.e):
            return str(v.__index__())
        return str(float(v))
    return str(*a, **k)


def sx_round(x, n=None):
    return core.round_(x, n) if is_sym(x) else (round(x) if n is None else round(x, n))


def sx_isinstance(x, t):
    if not is_sym(x):
        return isinstance(x, t)
    ts = t if isinstance(t, tuple) else (t,)
    isb = isinstance(x, core.SBool)
    isi = not isb and core.z3.is_int(x.e)
    for c in ts:
        if isb:
            ok = issubclass(np.bool_ if x.np else bool, c)
        elif isi:
            ok = issubclass(np.int64 if x.np else int, c)
        else:
            ok = issubclass(np.float64 if x.np else float, c)
        if ok:
            return True
    return False


def _sx_best(name, real):
    def f(*a, **k):
        if not k:
            vals = list(a[0]) if len(a) == 1 else list(a)
            if any(is_sym(v) for v in vals):
                r = vals[0]
                for v in vals[1:]:
                    r = core.ite(core.binop(name, v, r), v, r)
                return r
            return real(vals)
        return real(*a, **k)
    return f


def sx_idx(i):
    from .arr import SymArray, has_sym, native
    if isinstance(i, SymArray) and not has_sym(i):
        return native(i)
    return i


_NativeView = None


def sx_tgt(x):
    global _NativeView
    if type(x) is np.ndarray:
        if _NativeView is None:
            from .arr import NativeView as _NativeView_
            _NativeView = _NativeView_
        return _NativeView(x)
    return x


SHIMS = {"__sx_tgt__": sx_tgt, "__sx_int__": sx_int, "__sx_float__": sx_float, "__sx_str__": sx_str, "__sx_isinstance__": sx_isinstance,
         "__sx_round__": sx_round, "__sx_min__": _sx_best("lt", min), "__sx_max__": _sx_best("gt", max),
         "__sx_idx__": sx_idx, "__sx_float_is_integer__": sx_float_is_integer}


# --------------------------------------------------------------------------------- module proxies
class Proxy(types.ModuleType):
    def __init__(self, real, over, wrapfn=None):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_wrapfn"] = wrapfn

    def __getattr__(self, name):
        over = self.__dict__["_over"]
        if name in over:
            return over[name]
        v = getattr(self.__dict__["_real"], name)
        if isinstance(v, types.ModuleType):
            return proxied(v)
        w = self.__dict__["_wrapfn"]
        return w(name, v) if w else v


_proxies = {}
_factories = {}


def proxied(mod):
    n = getattr(mod, "__name__", None)
    if n in _proxies:
        return _proxies[n]
    if n in _factories:
        _proxies[n] = _factories[n](mod)
        return _proxies[n]
    return mod


class UfuncProxy:
    def __init__(self, u):
        self._u = u

    def __call__(self, *a, **k):
        return self._u(*[_arrayish(x) for x in a], **k)

    def __getattr__(self, name):
        v = getattr(self._u, name)
        if name in ("reduce", "accumulate", "outer", "at"):
            return lambda *a, **k: v(*[_arrayish(x) for x in a], **k)
        return v


def _arrayish(x):
    from . import arr
    if isinstance(x, (list, tuple)) and arr.has_sym(x):
        return arr.symarray(x)
    if type(x) is np.ndarray and x.dtype == object and arr.has_sym(x):
        return arr.symarray(x)
    return x


def _listish(x):
    """A list of arrays stays a list (np.concatenate, np.stack); a list of symbolic scalars becomes an array."""
    from . import arr
    if isinstance(x, (list, tuple)) and arr.has_sym(x):
        if any(isinstance(v, np.ndarray) for v in x):
            return type(x)(_arrayish(v) for v in x) if type(x) in (list, tuple) else x
        if any(isinstance(v, (list, tuple)) for v in x) or all(core.is_num(v) for v in x):
            return arr.symarray(x)
    return _arrayish(x) if isinstance(x, np.ndarray) else x


def _numpy_sym(real):
    from . import arr
    from .arr import SymArray, has_sym, symarray, native, wrap

    def array(obj, dtype=None, *a, copy=True, order="K", subok=False, ndmin=0, **k):
        if not copy and isinstance(obj, SymArray) and ndmin <= obj.ndim and (dtype is None or np.dtype(dtype) == obj.sdt):
            return obj
        if has_sym(obj):
            if dtype is not None and np.dtype(dtype) == object:
                return np.array(arr.as_obj(obj))
            if isinstance(obj, dict) or _mixed(obj):
                return np.array(obj, dtype=object)
            r = symarray(obj, dtype)
            while r.ndim < ndmin:
                r = r[None]
            return r
        if isinstance(obj, SymArray):
            return wrap(arr.cast_obj(arr.base(obj), np.dtype(dtype or obj.sdt)), dtype or obj.sdt)
        return arr._renew(np.array(native(obj), dtype=dtype, ndmin=ndmin))

    def fresh(f):
        return lambda *a, **k: arr._renew(f(*a, **k))

    def _mixed(o):
        if isinstance(o, (list, tuple)):
            return any(isinstance(v, (str, dict)) or _mixed(v) for v in o)
        return False

    def asarray(obj, dtype=None, *a, **k):
        if isinstance(obj, SymArray) and (dtype is None or np.dtype(dtype) == obj.sdt):
            return obj
        if isinstance(obj, np.ndarray) and not isinstance(obj, SymArray) and not has_sym(obj):
            return np.asarray(obj, dtype=dtype)
        return array(obj, dtype)

    def _shape(s):
        from .stubs import _shape as f
        return f(s)

    def filled(v):
        def f(shape, dtype=float, *a, **k):
            dt = np.dtype(dtype)
            if dt.kind not in "iufb":
                return np.full(_shape(shape), v, dtype=dt)
            return wrap(np.full(_shape(shape), v, dtype=dt).astype(object), dt)
        return f

    def full(shape, fill_value, dtype=None, *a, **k):
        dt = np.dtype(dtype) if dtype is not None else arr.sdt_of(fill_value)
        if dt.kind not in "iufb":
            return np.full(_shape(shape), fill_value, dtype=dtype)
        o = np.empty(_shape(shape), dtype=object)
        o[...] = arr.cast_obj(arr.as_obj(fill_value), dt)
        return wrap(o, dt)

    def fromiter(it, dtype=float, *a, **k):
        return array(list(it), dtype)

    def copy(a, *x, **k):
        return array(a)

    over = dict(eye=fresh(np.eye), identity=fresh(np.identity), array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, zeros=filled(0),
                ones=filled(1), empty=filled(0), full=full, fromiter=fromiter, copy=copy)

    def wrapfn(name, v):
        if isinstance(v, np.ufunc):
            return UfuncProxy(v)
        if isinstance(v, type) or not callable(v):
            return v

        def call(*a, **k):
            return v(*[_listish(x) for x in a], **{kk: _listish(x) for kk, x in k.items()})
        call.__name__ = name
        return call
    return Proxy(real, over, wrapfn)


def _math_sym(real):
    def log(x, *b):
        if not is_sym(x) and not any(is_sym(v) for v in b):
            return math.log(x, *b)
        if b:
            return log(x) / log(b[0])
        if core.engine().fork(core.to_real(x) <= 0):
            raise ValueError("math domain error")
        return _py(core.uf1("log", math.log)(x))

    def _py(v):
        return v.item() if hasattr(v, "item") else v

    def sqrt(x):
        if not is_sym(x):
            return math.sqrt(x)
        r = core.sqrt(x)
        if not is_sym(r) and r != r:
            raise ValueError("math domain error")
        return _py(r)

    def pred(f):
        return lambda x: False if is_sym(x) else f(x)

    def fsum(xs):
        xs = list(xs)
        return sum(xs) if any(is_sym(v) for v in xs) else math.fsum(xs)

    def prod(xs, start=1):
        for v in xs:
            start = start * v
        return start

    def uf(name, f):
        g = core.uf1(name, f)
        return lambda x: _py(g(x)) if is_sym(x) else f(x)

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if not is_sym(a) and not is_sym(b):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(a - b)
        return bool(d <= abs_tol) or bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))

    over = dict(log=log, sqrt=sqrt, isnan=pred(math.isnan), isinf=pred(math.isinf),
                isfinite=lambda x: True if is_sym(x) else math.isfinite(x), fsum=fsum, prod=prod,
                exp=uf("exp", math.exp), lgamma=uf("lgamma", math.lgamma), log2=uf("log2", math.log2),
                log10=uf("log10", math.log10), log1p=uf("log1p", math.log1p), fabs=lambda x: abs(x), isclose=isclose,
                pow=lambda a, b: core.power(a, b) if is_sym(a) or is_sym(b) else math.pow(a, b),
                floor=lambda x: core.floor(x) if is_sym(x) else math.floor(x),
                ceil=lambda x: -core.floor(-x) if is_sym(x) else math.ceil(x))
    return Proxy(real, over)


def elementwise(f):
    """Lift a scalar function to arrays."""
    from . import arr

    def g(*args):
        args = [_arrayish(a) if isinstance(a, (list, tuple, np.ndarray)) else a for a in args]
        if not any(arr.has_sym(a) for a in args):
            return f(*[arr.native(a) for a in args])
        if all(np.ndim(a) == 0 for a in args):
            return f(*[a[()] if isinstance(a, np.ndarray) else a for a in args])
        bs = np.broadcast_arrays(*[arr.as_obj(a) for a in args])
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = f(*[b[i] for b in bs])
        return arr.wrap(out, arr.F64)
    return g


def _special_sym(real):
    import scipy.special as sp

    def lg(x, out=None):
        if not is_sym(x):
            return sp.loggamma(x)
        return core.uf1("lgamma", lambda v: float(sp.loggamma(v)))(x)

    def betaln(a, b):
        return lgf(a) + lgf(b) - lgf(a + b)

    def xlogy(a, b):
        from .arr import np_log
        if not is_sym(a) and not is_sym(b):
            return sp.xlogy(a, b)
        return a * (np_log(b) if is_sym(b) else np.log(b))
    lgf = elementwise(lg)
    return Proxy(real, dict(loggamma=lgf, gammaln=lgf, betaln=elementwise(betaln), xlogy=elementwise(xlogy)))


class Dist:
    """A scipy.stats distribution whose quantile/cdf of symbolic arguments is an uninterpreted function."""

    def __init__(self, real, name):
        self._real, self._name = real, name

    def __getattr__(self, n):
        return getattr(self._real, n)

    def _call(self, fn, q, shapes):
        if not any(is_sym(v) for v in (q,) + shapes):
            with np.errstate(all="ignore"):
                return getattr(self._real, fn)(q, *shapes)
        for s in shapes:                      # degrees of freedom must be positive, otherwise nan
            if is_sym(s):
                if core.engine().fork(core.to_real(s) <= 0):
                    return np.float64(math.nan)
            elif not s > 0:
                return np.float64(math.nan)
        rf = getattr(self._real, fn)
        return core.uf1("%s_%s" % (self._name, fn), lambda *a: float(rf(*a)))(q, *shapes)

    def _lift(self, fn, q, shapes):
        return elementwise(lambda *a: self._call(fn, a[0], tuple(a[1:])))(q, *shapes)

    def ppf(self, q, *shapes, **k):
        return self._lift("ppf", q, shapes + tuple(k.values()))

    def isf(self, q, *shapes, **k):
        return self._lift("ppf", 1 - q, shapes + tuple(k.values()))

    def cdf(self, x, *shapes, **k):
        return self._lift("cdf", x, shapes + tuple(k.values()))

    def sf(self, x, *shapes, **k):
        return 1 - self._lift("cdf", x, shapes + tuple(k.values()))

    def interval(self, c, *shapes):
        return self.ppf((1 - c) / 2, *shapes), self.ppf((1 + c) / 2, *shapes)

    def __call__(self, *shapes, **k):
        return Frozen(self, shapes + tuple(k.values()))


class Frozen:
    def __init__(self, d, shapes):
        self._d, self._s = d, shapes

    def __getattr__(self, n):
        m = getattr(self._d, n)
        return lambda *a: m(*a, *self._s)


def _stats_sym(real):
    return Proxy(real, {n: Dist(getattr(real, n), n) for n in ("f", "chi2", "expon", "gamma", "norm", "t")})


def _env_over(over, wrapfn=None):
    return lambda real: Proxy(real, over, wrapfn)


class LazyOver(dict):
    pass


# --------------------------------------------------------------------------------- import machinery
class Loader(importlib.abc.Loader):
    codes = {}                       # one compilation per process: read from /repo when the check starts

    def __init__(self, path, bi, rewrite):
        self.path, self.bi, self.rewrite = path, bi, rewrite

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = self.codes.get(self.path)
        if code is None:
            with open(self.path) as f:
                tree = ast.parse(f.read(), self.path)
            if self.rewrite:
                tree = ast.fix_missing_locations(Rewrite().visit(tree))
            code = self.codes[self.path] = compile(tree, self.path, "exec")
        module.__file__ = self.path
        if self.bi is not None:
            module.__dict__["__builtins__"] = self.bi
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, bi, rewrite):
        self.bi, self.rewrite = bi, rewrite

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, self.bi, self.rewrite),
                                                          submodule_search_locations=[p])
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_file_location(name, p + ".py", loader=Loader(p + ".py", self.bi, self.rewrite))
        return None


def quiet_print(*a, **k):
    pass


def install(mode):
    import warnings
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    if mode == "raw":
        sys.meta_path.insert(0, Finder(None, False))
        return
    _factories.update({"random": _env_over(stubs.RANDOM, stubs.unmodelled),
                       "numpy.random": _env_over(stubs.NPRANDOM, stubs.unmodelled), "queue": _env_over(stubs.QUEUE),
                       "multiprocessing": _env_over(stubs.MP), "concurrent.futures": _env_over(stubs.FUTURES),
                       "concurrent.futures.process": _env_over(stubs.FUTURES),
                       "multiprocessing.pool": _env_over({"Pool": stubs.FakePool}),
                       "concurrent": _env_over({})})
    if mode == "sym":
        from . import pdx
        pdx.install()
        _factories.update({"numpy": _numpy_sym, "math": _math_sym, "json": _env_over(stubs.JSON),
                           "scipy.special": _special_sym, "scipy.stats": _stats_sym, "scipy": _env_over({})})
    else:
        _factories.update({"numpy": _env_over({})})
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = real_import(name, globals, locals, fromlist, level)
        return proxied(m)
    bi = dict(builtins.__dict__)
    bi["__import__"] = imp
    bi["print"] = quiet_print
    if mode == "sym":
        bi.update(SHIMS)
        bi["open"] = stubs.v_open
    sys.meta_path.insert(0, Finder(bi, mode == "sym"))


def fresh():
    """Forget the loaded package so that the next import executes it anew (no state leaks between runs)."""
    for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
        del sys.modules[n]


class Lib:
    """The public classes of a freshly executed package."""
    NAMES = {"Structure": "structure_graph.structure", "NetworkGraph": "structure_graph.network_graph",
             "Trajectory": "structure_graph.trajectory", "SamplePath": "structure_graph.sample_path",
             "SetOfCims": "structure_graph.set_of_cims", "NetworkGenerator": "structure_graph.network_generator",
             "ConditionalIntensityMatrix": "structure_graph.conditional_intensity_matrix",
             "TrajectoryGenerator": "structure_graph.trajectory_generator",
             "ParametersEstimator": "estimators.parameters_estimator",
             "FamScoreCalculator": "estimators.fam_score_calculator",
             "StructureEstimator": "estimators.structure_estimator",
             "StructureConstraintBasedEstimator": "estimators.structure_constraint_based_estimator",
             "StructureScoreBasedEstimator": "estimators.structure_score_based_estimator",
             "ConstraintBasedOptimizer": "optimizers.constraint_based_optimizer",
             "HillClimbing": "optimizers.hill_climbing_search", "TabuSearch": "optimizers.tabu_search",
             "Cache": "utility.cache", "AbstractImporter": "utility.abstract_importer",
             "JsonImporter": "utility.json_importer", "SampleImporter": "utility.sample_importer",
             "JsonExporter": "utility.json_exporter"}

    def __init__(self):
        fresh()
        importlib.import_module(PKG + ".PyCTBN")

    def __getattr__(self, n):
        return getattr(importlib.import_module(PKG + ".PyCTBN." + self.NAMES[n]), n)
