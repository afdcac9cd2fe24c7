"""Symbolic numpy arrays: an object-dtype ndarray subclass with an emulated dtype (`sdt`).

Calls that see no symbolic element run the real numpy routine on a native array of the emulated dtype;
otherwise element-wise/reduction semantics are rebuilt from core.py's scalar operations.
"""
import functools
import itertools
import math

import numpy as np

from . import core
from .core import (Sym, SBool, Num, is_sym, binop, ite, and_, or_, not_, boolexpr, to_float, trunc,
                   Unsupported, engine, mk, z3)

F64, I64, B1, OBJ = np.dtype(np.float64), np.dtype(np.int64), np.dtype(bool), np.dtype(object)
real_array = np.array


def base(x):
    return x.view(np.ndarray) if isinstance(x, SymArray) else x


def wrap(obj, sdt):
    r = np.asarray(obj, dtype=object).view(SymArray)
    r.sdt = np.dtype(sdt)
    return r


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, SymArray):
        return any(is_sym(v) for v in base(x).ravel().tolist())
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ and any(is_sym(v) for v in x.ravel().tolist())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 6:
        return any(has_sym(v, depth + 1) for v in x.values())
    return False


def native(x, depth=0):
    """Real numpy/python value of a structure without symbolic elements."""
    if isinstance(x, SymArray):
        return np.array(base(x).tolist(), dtype=x.sdt).reshape(x.shape)
    if isinstance(x, list) and depth < 6:
        return [native(v, depth + 1) for v in x] if any(isinstance(v, (SymArray, list, tuple)) for v in x) else x
    if isinstance(x, tuple) and depth < 6 and type(x) is tuple:
        return tuple(native(v, depth + 1) for v in x)
    return x


def concretised(x, depth=0):
    """Fork over (ints, bools) or pin (reals) every symbolic element, then native()."""
    if isinstance(x, SymArray) or (isinstance(x, np.ndarray) and x.dtype == OBJ and has_sym(x)):
        b = base(x)
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(b.shape):
            out[i] = conc_scalar(b[i])
        return np.array(out.tolist(), dtype=sdt_of(x)).reshape(b.shape)
    if is_sym(x):
        return conc_scalar(x)
    if isinstance(x, list) and depth < 6:
        return [concretised(v, depth + 1) for v in x]
    if isinstance(x, tuple) and depth < 6 and type(x) is tuple:
        return tuple(concretised(v, depth + 1) for v in x)
    return x


def conc_scalar(v):
    if isinstance(v, SBool):
        return bool(v)
    if is_sym(v):
        return int(v) if z3.is_int(v.e) else float(v)
    return v


def sdt_of(x):
    if isinstance(x, SymArray):
        return x.sdt
    if is_sym(x):
        return x.dtype
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ:
            return infer(x.ravel().tolist())
        return x.dtype
    if isinstance(x, (list, tuple)):
        return infer_nested(x)
    return np.asarray(x).dtype


def infer(elems):
    ds = set()
    for v in elems:
        ds.add(v.dtype if is_sym(v) else np.asarray(v).dtype)
    if not ds:
        return F64
    try:
        return np.result_type(*ds)
    except TypeError:
        return OBJ


def infer_nested(x):
    ds = []
    for v in x:
        if isinstance(v, (list, tuple)):
            ds.append(infer_nested(v))
        else:
            ds.append(sdt_of(v))
    if not ds:
        return F64
    try:
        return np.result_type(*ds)
    except TypeError:
        return OBJ


def as_obj(x):
    """Object ndarray (base class) of any array-like."""
    if isinstance(x, SymArray):
        return base(x)
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if is_sym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (list, tuple)):
        return np.array([base(v) if isinstance(v, SymArray) else list(v) if isinstance(v, tuple) else v
                         for v in x], dtype=object)
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def cast_elem(v, sdt):
    k = sdt.kind
    if is_sym(v):
        if k in "iu":
            return trunc(v) if sdt.itemsize >= 8 else core.narrow_int(trunc(v), sdt)
        if k == "f":
            return to_float(v) if sdt.itemsize >= 8 else core.narrow_float(v, sdt)
        if k == "b":
            return mk(boolexpr(v))
        return v
    if k in "iu":
        if isinstance(v, (float, np.floating)):
            if math.isnan(v):
                raise ValueError("cannot convert float NaN to integer")
            if math.isinf(v):
                raise OverflowError("cannot convert float infinity to integer")
        return sdt.type(int(v))
    if k == "f":
        return sdt.type(v)
    if k == "b":
        return np.bool_(v)
    return v


def cast_obj(o, sdt):
    sdt = np.dtype(sdt)
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        out[i] = cast_elem(o[i], sdt)
    return out


def symarray(x, dtype=None, copy=True):
    """np.array for data with (possible) symbolic elements."""
    sdt = np.dtype(dtype) if dtype is not None else sdt_of(x)
    if sdt == OBJ:
        raise Unsupported("object array with symbolic elements")
    return wrap(cast_obj(as_obj(x), sdt), sdt)


def _npscalar(v, sdt):
    if is_sym(v):
        return v if v.np else type(v)(v.e, True)
    if sdt.kind in "iufb":
        try:
            return sdt.type(v)
        except (TypeError, ValueError, OverflowError):
            return v
    return v


class SymArray(np.ndarray):
    sdt = F64

    def __array_finalize__(self, obj):
        if obj is not None:
            self.sdt = getattr(obj, "sdt", None) or F64

    @property
    def dtype(self):
        return self.sdt

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return wrap(base(self).copy(), self.sdt)

    def __copy__(self):
        return wrap(base(self).copy(), self.sdt)

    def __repr__(self):
        return "<symarray %s %s>" % (self.shape, self.sdt)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # ---- indexing
    def __getitem__(self, idx):
        fan = self._fancy(idx)
        if fan is not None:
            shape, cells = fan
            tail = self.shape[len(cells[0]):]
            o = np.empty(shape + tail, dtype=object)
            for c, i in zip(cells, np.ndindex(shape)):
                for j in np.ndindex(tail):
                    full = c + j
                    o[i + j] = self[full if len(full) > 1 else full[0]]
            return wrap(o, self.sdt)
        idx, symidx = self._index(idx)
        if symidx is not None:
            return self._ite_read(symidx)
        r = base(self)[idx]
        if isinstance(r, np.ndarray):
            return wrap_view(r, self.sdt)
        return _npscalar(r, self.sdt)

    def __setitem__(self, idx, value):
        fan = self._fancy(idx)
        if fan is not None:
            shape, cells = fan
            tail = self.shape[len(cells[0]):]
            v = np.broadcast_to(as_obj(value), shape + tail).copy()
            for c, i in zip(cells, np.ndindex(shape)):
                for j in np.ndindex(tail):
                    full = c + j
                    self[full if len(full) > 1 else full[0]] = v[i + j]
            return
        idx, symidx = self._index(idx)
        if symidx is not None:
            return self._ite_write(symidx, cast_elem(value, self.sdt))
        b = base(self)
        if isinstance(value, (SymArray, np.ndarray, list, tuple)):
            o = as_obj(value)
            b[idx] = cast_obj(o, self.sdt)
        else:
            b[idx] = cast_elem(value, self.sdt)

    def _fancy(self, idx):
        """Index arrays of symbolic integers (all of them arrays or integers): (shape, list of cell indices)."""
        parts = idx if type(idx) is tuple else (idx,)
        if not 1 <= len(parts) <= self.ndim or not any(isinstance(p, (SymArray, list)) and has_sym(p) for p in parts):
            return None
        if not all(isinstance(p, (int, np.integer, SymArray, np.ndarray, list)) or isinstance(p, Num) and z3.is_int(p.e)
                   for p in parts) or any(sdt_of(p).kind not in "iu" for p in parts):
            return None
        bs = np.broadcast_arrays(*[as_obj(p) for p in parts])
        return bs[0].shape, [tuple(b[i] if is_sym(b[i]) else int(b[i]) for b in bs) for i in np.ndindex(bs[0].shape)]

    def _index(self, idx):
        parts = idx if isinstance(idx, tuple) else (idx,)
        scalars = all(isinstance(p, (int, np.integer)) or (isinstance(p, Num) and z3.is_int(p.e)) for p in parts)
        if scalars and len(parts) == self.ndim and any(is_sym(p) for p in parts):
            return None, parts
        out = []
        for p in parts:
            if isinstance(p, SymArray):
                p = concretised(p) if has_sym(p) else native(p)
                if p.dtype.kind == "f":
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
            elif isinstance(p, SBool):
                p = bool(p)
            elif is_sym(p):
                p = p.__index__()
            elif isinstance(p, list) and has_sym(p):
                p = [conc_scalar(v) for v in p]
            elif isinstance(p, np.ndarray) and p.dtype == OBJ and has_sym(p):
                p = concretised(p)
            elif isinstance(p, slice):
                p = slice(*[v.__index__() if is_sym(v) else v for v in (p.start, p.stop, p.step)])
            out.append(p)
        return (tuple(out) if isinstance(idx, tuple) else out[0]), None

    def _norm(self, parts):
        res = []
        for p, n in zip(parts, self.shape):
            if is_sym(p):
                if engine().fork(p.e < 0):
                    p = p + n
                if is_sym(p):
                    if not engine().fork(z3.And(p.e >= 0, p.e < n)):
                        raise IndexError("index out of bounds for axis with size %d" % n)
            res.append(p)
        return res

    def _cells(self, parts):
        rngs = [range(n) if is_sym(p) else [int(p)] for p, n in zip(parts, self.shape)]
        for c in itertools.product(*rngs):
            yield c, and_(*[core.eq(p, v) for p, v in zip(parts, c) if is_sym(p)])

    def _ite_read(self, parts):
        parts = self._norm(parts)
        b = base(self)
        r = None
        for c, cond in self._cells(parts):
            r = b[c] if r is None else ite(cond, b[c], r)
        return _npscalar(r, self.sdt)

    def _ite_write(self, parts, v):
        parts = self._norm(parts)
        b = base(self)
        for c, cond in self._cells(parts):
            b[c] = ite(cond, v, b[c])

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(self.shape[0]))

    def __contains__(self, x):
        return bool(f_any(self == x))

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).ravel()[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def _one(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return base(self).ravel()[0]

    def __int__(self):
        return int(self._one())

    def __float__(self):
        return float(self._one())

    def __index__(self):
        return self._one().__index__()

    def item(self, *a):
        v = self[a if len(a) > 1 else a[0]] if a else self._one()
        return v.item() if hasattr(v, "item") else v

    def tolist(self):
        def conv(v):
            if isinstance(v, list):
                return [conv(x) for x in v]
            v = _npscalar(v, self.sdt)
            return v.item() if hasattr(v, "item") else v
        return conv(base(self).tolist())

    def fill(self, v):
        self[...] = v

    def astype(self, t, order="K", casting="unsafe", subok=True, copy=True):
        t = np.dtype(t)
        if t == OBJ:
            return wrap(base(self).copy(), self.sdt)
        if not copy and t == self.sdt:
            return self
        return wrap(cast_obj_unsafe(base(self), t), t)

    def copy(self, order="C"):
        return wrap(base(self).copy(), self.sdt)

    def view(self, *a, **k):
        if a and a[0] in (np.ndarray, SymArray):
            return np.ndarray.view(self, *a, **k)
        if not a and not k:
            return np.ndarray.view(self)
        raise Unsupported("view as another dtype")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return dispatch_function(np.sum, (self,), dict(axis=axis, keepdims=keepdims))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return dispatch_function(np.prod, (self,), dict(axis=axis, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return dispatch_function(np.mean, (self,), dict(axis=axis))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return dispatch_function(np.any, (self,), dict(axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return dispatch_function(np.all, (self,), dict(axis=axis, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return dispatch_function(np.amax, (self,), dict(axis=axis, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return dispatch_function(np.amin, (self,), dict(axis=axis, keepdims=keepdims))

    def argmin(self, axis=None, out=None, **k):
        return dispatch_function(np.argmin, (self,), dict(axis=axis))

    def argmax(self, axis=None, out=None, **k):
        return dispatch_function(np.argmax, (self,), dict(axis=axis))

    def cumsum(self, axis=None, dtype=None, out=None):
        return dispatch_function(np.cumsum, (self,), dict(axis=axis))

    def cumprod(self, axis=None, dtype=None, out=None):
        return dispatch_function(np.cumprod, (self,), dict(axis=axis))

    def nonzero(self):
        return dispatch_function(np.nonzero, (self,), {})

    def round(self, decimals=0, out=None):
        return dispatch_function(np.around, (self,), dict(decimals=decimals))

    def clip(self, min=None, max=None, out=None, **k):
        return dispatch_function(np.clip, (self, min, max), {})

    def dot(self, o):
        return dispatch_function(np.dot, (self, o), {})

    def sort(self, axis=-1, kind=None, order=None):
        r = dispatch_function(np.sort, (self,), dict(axis=axis))
        base(self)[...] = as_obj(r)

    def argsort(self, axis=-1, kind=None, order=None):
        return dispatch_function(np.argsort, (self,), dict(axis=axis))

    def repeat(self, repeats, axis=None):
        return dispatch_function(np.repeat, (self, repeats), dict(axis=axis))

    def trace(self, *a, **k):
        return dispatch_function(np.trace, (self,) + a, k)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return dispatch_function(np.take, (self, indices), dict(axis=axis))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)


def wrap_view(r, sdt):
    v = r.view(SymArray)
    v.sdt = sdt
    return v


def cast_obj_unsafe(o, sdt):
    """astype: nan/inf to int gives numpy's undefined-but-silent minimum."""
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        v = o[i]
        if sdt.kind in "iu" and not is_sym(v) and isinstance(v, (float, np.floating)) and not math.isfinite(v):
            out[i] = sdt.type(np.iinfo(sdt).min)
        else:
            out[i] = cast_elem(v, sdt)
    return out


# ------------------------------------------------------------------------------------------- ufuncs
def _minmax(name, nanskip=False):
    def f(a, b):
        for x, y in ((a, b), (b, a)):
            if not is_sym(x) and isinstance(x, (float, np.floating)) and math.isnan(x):
                return y if nanskip else x
        return ite(binop(name, a, b), a, b)
    return f


def _isnan(a):
    return np.False_


def _sign(a):
    e = core.to_num_expr(a.e)
    return mk(z3.If(e > 0, 1, z3.If(e < 0, -1, 0)))


def _logical(op):
    return lambda a, b: op(a, b)


EW = {
    "add": lambda a, b: or_(a, b) if _bools(a, b) else binop("add", a, b),
    "subtract": lambda a, b: binop("sub", a, b),
    "multiply": lambda a, b: and_(a, b) if _bools(a, b) else binop("mul", a, b),
    "divide": lambda a, b: binop("div", a, b), "true_divide": lambda a, b: binop("div", a, b),
    "floor_divide": lambda a, b: binop("floordiv", a, b), "remainder": lambda a, b: binop("mod", a, b),
    "mod": lambda a, b: binop("mod", a, b),
    "power": core.power, "float_power": lambda a, b: to_float(core.power(a, b)),
    "square": lambda a: binop("mul", a, a), "sqrt": core.sqrt,
    "reciprocal": lambda a: binop("div", np.float64(1), a),
    "negative": lambda a: -a, "positive": lambda a: a, "absolute": core.absolute, "fabs": core.absolute,
    "sign": _sign, "conjugate": lambda a: a,
    "less": lambda a, b: binop("lt", a, b), "less_equal": lambda a, b: binop("le", a, b),
    "greater": lambda a, b: binop("gt", a, b), "greater_equal": lambda a, b: binop("ge", a, b),
    "equal": lambda a, b: core.eq(a, b), "not_equal": lambda a, b: not_(core.eq(a, b)),
    "logical_and": and_, "logical_or": or_, "logical_not": not_,
    "logical_xor": lambda a, b: mk(z3.Xor(boolexpr(a), boolexpr(b))),
    "bitwise_and": lambda a, b: a & b, "bitwise_or": lambda a, b: a | b, "bitwise_xor": lambda a, b: a ^ b,
    "invert": lambda a: ~a, "left_shift": lambda a, b: a << b, "right_shift": lambda a, b: a >> b,
    "signbit": lambda a: binop("lt", a, 0),
    "maximum": _minmax("ge"), "minimum": _minmax("le"), "fmax": _minmax("ge", True), "fmin": _minmax("le", True),
    "isnan": _isnan, "isinf": _isnan, "isfinite": lambda a: np.True_,
    "rint": lambda a: core.round_(a), "floor": lambda a: to_float(core.floor(a)),
    "ceil": lambda a: to_float(-core.floor(-a)), "trunc": lambda a: to_float(trunc(a)),
    "exp": core.uf1("exp", math.exp), "log": None, "log10": core.uf1("log10", math.log10),
    "log2": core.uf1("log2", math.log2), "log1p": core.uf1("log1p", math.log1p),
    "expm1": core.uf1("expm1", math.expm1),
}


def np_log(a):
    """numpy log of a symbolic value."""
    e = core.to_real(a)
    if engine().fork(e <= 0):
        return np.float64(-math.inf) if engine().fork(e == 0) else np.float64(math.nan)
    return core.uf1("log", math.log)(a)


EW["log"] = np_log


def _bools(*xs):
    return all(isinstance(x, (bool, np.bool_, SBool)) for x in xs)


def _ew_call(ufunc, name):
    f = EW.get(name)

    def g(*args):
        if not any(is_sym(a) for a in args):
            return ufunc(*args)
        if f is None:
            return ufunc(*[conc_scalar(a) for a in args])
        args = [np.float64(a) if type(a) is float else np.int64(a) if type(a) is int else a for a in args]
        return f(*args)
    return g


def _result_dtype(ufunc, inputs):
    name = ufunc.__name__
    if name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "isnan", "isinf", "isfinite", "signbit",
                "logical_and", "logical_or", "logical_not", "logical_xor"):
        return B1
    ds = []
    for x in inputs:
        d = sdt_of(x)
        ds.append(np.ones(1, dtype=d) if np.ndim(as_obj(x)) else
                  (d.type(1) if not isinstance(x, (int, float)) or isinstance(x, bool) else type(x)(1)))
    try:
        with np.errstate(all="ignore"):
            return np.asarray(ufunc(*ds)).dtype
    except TypeError:
        return OBJ


def dispatch_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    name = ufunc.__name__
    if isinstance(out, tuple):
        out = out[0]
    if method == "__call__" and name == "matmul":
        r = f_matmul(*inputs)
        if out is not None:
            out[...] = r
            return out
        return r
    if method == "__call__" and ufunc.nout == 2 and has_sym(list(inputs)) and name in ("divmod", "modf"):
        if name == "divmod":
            return dispatch_ufunc(np.floor_divide, method, inputs, {}), dispatch_ufunc(np.remainder, method, inputs, {})
        w = dispatch_ufunc(np.trunc, method, inputs, {})
        return dispatch_ufunc(np.subtract, method, (inputs[0], w), {}), w
    if method == "__call__":
        where = kw.pop("where", True)
        kw.pop("casting", None)
        dtype = kw.pop("dtype", None)
        if kw:
            raise Unsupported("ufunc keyword " + ",".join(kw))
        if not has_sym(list(inputs)) and where is True:
            with np.errstate(all="ignore"):
                r = ufunc(*[native(x) for x in inputs], **({"dtype": dtype} if dtype else {}))
            if isinstance(r, tuple):
                return tuple(_renew(v) for v in r)
            if out is None:
                return _renew(r)
            sdt = np.asarray(r).dtype
            obj = as_obj(np.asarray(r))
        else:
            sdt = _result_dtype(ufunc, inputs)
            objs = [as_obj(x) for x in inputs]
            g = np.frompyfunc(_ew_call(ufunc, name), ufunc.nin, 1)
            with np.errstate(all="ignore"):
                r = g(*objs)
            obj = r if isinstance(r, np.ndarray) else as_obj(r)
            if dtype is not None:
                sdt = np.dtype(dtype)
                obj = cast_obj(obj, sdt)
            elif sdt.kind in "iuf" and sdt.itemsize < 8:
                obj = cast_obj(obj, sdt)
        if out is not None:
            if not np.can_cast(sdt, sdt_of(out), "same_kind"):
                raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'"
                                % (name, sdt, sdt_of(out)))
            if not isinstance(out, SymArray):
                if has_sym(obj):
                    raise Unsupported("symbolic result into a native array")
                out[...] = native(wrap(obj, sdt))
                return out
            if where is not True:
                w = np.broadcast_to(as_obj(where), out.shape)
                cur = base(out)
                o2 = np.broadcast_to(obj, out.shape)
                for i in np.ndindex(out.shape):
                    cur[i] = cast_elem(ite(w[i], o2[i], cur[i]), out.sdt)
                return out
            base(out)[...] = cast_obj(obj, out.sdt)
            return out
        if where is not True:
            raise Unsupported("ufunc where= without out=")
        if obj.ndim == 0:
            return _npscalar(obj[()], sdt)
        return wrap(obj, sdt)
    if method == "reduce":
        x = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", np._NoValue)
        if kw.get("where", True) is not True:
            raise Unsupported("reduce where=")
        return reduce_(ufunc, x, axis, keep, init, out)
    if method == "accumulate":
        return accumulate_(ufunc, inputs[0], kw.get("axis", 0))
    if method == "reduceat":
        a, at = inputs[0], [int(i) for i in inputs[1]]
        if kw.get("axis", 0) not in (0, None):
            raise Unsupported("reduceat axis")
        parts = []
        for k, i in enumerate(at):
            j = at[k + 1] if k + 1 < len(at) else len(a)
            parts.append(reduce_(ufunc, a[i:j] if j > i else a[i:i + 1], 0))
        return symarray(parts) if has_sym(parts) else _renew(np.array(native(parts)))
    if method == "outer":
        a, b = inputs
        oa, ob = as_obj(a), as_obj(b)
        return dispatch_ufunc(ufunc, "__call__",
                              (wrap(oa.reshape(oa.shape + (1,) * ob.ndim), sdt_of(a)), wrap(ob, sdt_of(b))), {})
    if method == "at":
        a, idx = inputs[0], inputs[1]
        v = inputs[2] if len(inputs) > 2 else None
        if not isinstance(a, SymArray):
            raise Unsupported("ufunc.at on a native array")
        idx = idx if isinstance(idx, tuple) else (idx,)
        if any(isinstance(i, slice) for i in idx) or len(idx) != a.ndim:
            idx = tuple(concretised(i) if has_sym(i) else native(i) for i in idx)
            lin = np.arange(a.size).reshape(a.shape)[idx]
            tgt = [np.unravel_index(int(k), a.shape) for k in np.ravel(lin)]
            shape = np.shape(lin)
        else:
            bs = np.broadcast_arrays(*[as_obj(i) for i in idx])
            shape = bs[0].shape
            tgt = [tuple(b[i] for b in bs) for i in np.ndindex(shape)]
        vals = [None] * len(tgt) if v is None else np.broadcast_to(as_obj(v), shape).ravel().tolist()
        for t, val in zip(tgt, vals):
            t = tuple(int(k) if not is_sym(k) else k for k in t)
            cur = a[t if len(t) > 1 else t[0]]
            a[t if len(t) > 1 else t[0]] = ufunc(cur) if v is None else _ew_call(ufunc, name)(cur, val)
        return None
    raise Unsupported("ufunc method " + method)


def _renew(r):
    """Native numeric results become SymArrays again (they may be mutated with symbolic values)."""
    if isinstance(r, np.ndarray) and r.dtype.kind in "iufb" and r.ndim:
        return wrap(r.astype(object), r.dtype)
    return r


def reduce_(ufunc, x, axis=0, keepdims=False, initial=np._NoValue, out=None):
    name = ufunc.__name__
    if not has_sym(x):
        with np.errstate(all="ignore"):
            kw = {} if initial is np._NoValue else {"initial": initial}
            return _renew(ufunc.reduce(native(x), axis=axis, keepdims=keepdims, **kw))
    o, sdt = as_obj(x), sdt_of(x)
    rd = np.asarray(ufunc.reduce(np.ones(1, dtype=sdt))).dtype
    if sdt == B1 and name in ("add", "multiply"):
        o, sdt = cast_obj(o, I64), I64
    f = _ew_call(ufunc, name)
    if axis is None:
        axes = tuple(range(o.ndim))
    else:
        axes = tuple(a % o.ndim for a in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(o.ndim) if i not in axes]
    t = o.transpose(rest + list(axes)).reshape([o.shape[i] for i in rest] + [-1])
    res = np.empty(t.shape[:-1], dtype=object)
    for i in np.ndindex(res.shape):
        vals = t[i].tolist()
        if initial is not np._NoValue:
            vals = [initial] + vals
        if name == "logical_and":
            res[i] = and_(*vals)
        elif name == "logical_or":
            res[i] = or_(*vals)
        elif not vals:
            if ufunc.identity is None:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            res[i] = rd.type(ufunc.identity)
        else:
            res[i] = functools.reduce(f, vals)
    if keepdims:
        res = res.reshape([1 if i in axes else o.shape[i] for i in range(o.ndim)])
    if out is not None:
        out[...] = wrap(res, rd)
        return out
    return _npscalar(res[()], rd) if res.ndim == 0 else wrap(res, rd)


def accumulate_(ufunc, x, axis=0):
    if not has_sym(x):
        return _renew(ufunc.accumulate(native(x), axis=axis or 0)) if axis is not None else \
            _renew(ufunc.accumulate(np.ravel(native(x))))
    o, sdt = as_obj(x), sdt_of(x)
    if axis is None:
        o, axis = o.ravel(), 0
    rd = np.asarray(ufunc.reduce(np.ones(1, dtype=sdt))).dtype
    f = _ew_call(ufunc, ufunc.__name__)
    t = np.moveaxis(o, axis, -1)
    res = np.empty(t.shape, dtype=object)
    for i in np.ndindex(t.shape[:-1]):
        for k, v in enumerate(itertools.accumulate(t[i].tolist(), f)):
            res[i + (k,)] = v
    return wrap(np.moveaxis(res, -1, axis), rd)


# --------------------------------------------------------------------------------------- functions
IMPL = {}


def impl(*funcs):
    def deco(f):
        for g in funcs:
            IMPL[g] = f
        return f
    return deco


@impl(np.sum)
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    r = reduce_(np.add, a, axis, keepdims is True, initial, out)
    return r


@impl(np.prod, np.product)
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    return reduce_(np.multiply, a, axis, keepdims is True, initial, out)


@impl(np.amax, np.max)
def f_max(a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    return reduce_(np.maximum, a, axis, keepdims is True, initial, out)


@impl(np.amin, np.min)
def f_min(a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    return reduce_(np.minimum, a, axis, keepdims is True, initial, out)


@impl(np.any)
def f_any(a, axis=None, out=None, keepdims=False, where=True):
    return reduce_(np.logical_or, a, axis, keepdims is True)


@impl(np.all)
def f_all(a, axis=None, out=None, keepdims=False, where=True):
    return reduce_(np.logical_and, a, axis, keepdims is True)


@impl(np.average)
def f_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return f_mean(a, axis)
    if returned or axis is not None and as_obj(a).ndim > 1:
        raise Unsupported("weighted average along an axis")
    a = a if isinstance(a, SymArray) else symarray(a)
    return reduce_(np.add, a * weights, None) / reduce_(np.add, symarray(weights), None)


@impl(np.mean)
def f_mean(a, axis=None, **k):
    n = as_obj(a).size if axis is None else as_obj(a).shape[axis]
    return reduce_(np.add, a, axis) / np.float64(n)


@impl(np.nansum)
def f_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    o = as_obj(a).copy()
    for i in np.ndindex(o.shape):
        if not is_sym(o[i]) and o[i] != o[i]:
            o[i] = 0.0
    return reduce_(np.add, wrap(o, sdt_of(a)), axis, keepdims is True)


@impl(np.nan_to_num)
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    o = as_obj(x).copy()
    for i in np.ndindex(o.shape):
        if not is_sym(o[i]):
            o[i] = np.nan_to_num(o[i], nan=nan, posinf=posinf, neginf=neginf)
    return wrap(o, sdt_of(x)) if o.ndim else o[()]


@impl(np.cumsum)
def f_cumsum(a, axis=None, dtype=None, out=None):
    return accumulate_(np.add, a, axis)


@impl(np.cumprod, np.cumproduct)
def f_cumprod(a, axis=None, dtype=None, out=None):
    return accumulate_(np.multiply, a, axis)


def _argbest(a, name, axis):
    o = as_obj(a)
    if axis is not None and o.ndim > 1:
        t = np.moveaxis(o, axis, -1)
        res = np.empty(t.shape[:-1], dtype=object)
        for i in np.ndindex(res.shape):
            res[i] = _argbest(wrap(t[i], sdt_of(a)), name, None)
        return wrap(res, I64)
    vals = o.ravel().tolist()
    if not vals:
        raise ValueError("attempt to get argmin/argmax of an empty sequence")
    for k, v in enumerate(vals):
        if not is_sym(v) and v != v:
            return np.int64(k)
    best = 0
    for k in range(1, len(vals)):
        c = binop(name, vals[k], vals[best]) if is_sym(vals[k]) or is_sym(vals[best]) else \
            {"lt": vals[k] < vals[best], "gt": vals[k] > vals[best]}[name]
        if bool(c):
            best = k
    return np.int64(best)


@impl(np.argmin)
def f_argmin(a, axis=None, out=None, **k):
    return _argbest(a, "lt", axis)


@impl(np.argmax)
def f_argmax(a, axis=None, out=None, **k):
    return _argbest(a, "gt", axis)


@impl(np.nonzero)
def f_nonzero(a):
    o = as_obj(a)
    m = np.zeros(o.shape, dtype=bool)
    for i in np.ndindex(o.shape):
        m[i] = bool(o[i])
    return np.nonzero(m)


@impl(np.argwhere)
def f_argwhere(a):
    return np.transpose(np.array(f_nonzero(a))) if as_obj(a).ndim else np.zeros((0, 0), int)


@impl(np.flatnonzero)
def f_flatnonzero(a):
    return f_nonzero(np.ravel(a))[0]


@impl(np.count_nonzero)
def f_count_nonzero(a, axis=None, keepdims=False):
    o = as_obj(a)
    c = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        c[i] = mk(core.to_num_expr(boolexpr(o[i])))
    return reduce_(np.add, wrap(c, I64), axis, keepdims)


@impl(np.where)
def f_where(c, *xy):
    if not xy:
        return f_nonzero(c)
    x, y = xy
    oc, ox, oy = np.broadcast_arrays(as_obj(c), as_obj(x), as_obj(y))
    r = np.empty(oc.shape, dtype=object)
    for i in np.ndindex(oc.shape):
        r[i] = ite(oc[i], ox[i], oy[i])
    sdt = np.result_type(sdt_of(x), sdt_of(y))
    return wrap(r, sdt) if r.ndim else _npscalar(r[()], sdt)


@impl(np.bincount)
def f_bincount(x, weights=None, minlength=0):
    if sdt_of(x).kind not in "iub":
        raise TypeError("Cannot cast array data from %r to dtype('int64') according to the rule 'safe'" % (sdt_of(x),))
    xs = as_obj(x).ravel().tolist()
    if as_obj(x).ndim > 1:
        raise ValueError("object too deep for desired array")
    ws = None if weights is None else as_obj(weights).ravel().tolist()
    if ws is not None and len(ws) != len(xs):
        raise ValueError("The weights and list don't have the same length.")
    minlength = int(minlength)
    neg = or_(*[v < 0 for v in xs])
    if bool(neg):
        raise ValueError("'list' argument must have no negative elements")
    big = or_(*[v >= minlength for v in xs])
    if bool(big):
        xs = [int(v) for v in xs]
        n = max(xs) + 1
        if n > 4096:
            raise MemoryError("bincount of %d" % n)
    else:
        n = minlength
    out = []
    for k in range(n):
        s = np.float64(0.0) if ws is not None else np.int64(0)
        for i, v in enumerate(xs):
            c = core.eq(v, k)
            if not is_sym(c) and not c:
                continue
            w = to_float(ws[i]) if ws is not None else np.int64(1)
            s = _add(s, ite(c, w, np.float64(0.0) if ws is not None else np.int64(0)))
        out.append(s)
    return wrap(_objlist(out), F64 if ws is not None else I64)


def _add(a, b):
    if not is_sym(a) and a == 0:
        return b
    return _ew_call(np.add, "add")(a, b)


def _objlist(v):
    o = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        o[i] = x
    return o


@impl(np.isin, np.in1d)
def f_isin(a, b, assume_unique=False, invert=False, **k):
    oa, vs = as_obj(a), as_obj(b).ravel().tolist()
    r = np.empty(oa.shape, dtype=object)
    for i in np.ndindex(oa.shape):
        c = or_(*[core.eq(oa[i], v) for v in vs])
        r[i] = not_(c) if invert else c
    return wrap(r, B1)


@impl(np.array_equal, np.array_equiv)
def f_array_equal(a, b, equal_nan=False):
    oa, ob = as_obj(a), as_obj(b)
    if oa.shape != ob.shape:
        return False
    return and_(*[core.eq(x, y) for x, y in zip(oa.ravel().tolist(), ob.ravel().tolist())])


@impl(np.isclose)
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a = a if isinstance(a, SymArray) else symarray(a)
    d = np.absolute(a - b)
    return d <= atol + rtol * np.absolute(b)


@impl(np.allclose)
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return f_all(f_isclose(a, b, rtol, atol))


@impl(np.around, np.round_)
def f_around(a, decimals=0, out=None):
    o = as_obj(a)
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        r[i] = core.round_(o[i], decimals) if is_sym(o[i]) else np.around(o[i], decimals)
    return wrap(r, sdt_of(a)) if r.ndim else r[()]


@impl(np.clip)
def f_clip(a, a_min, a_max, out=None, **k):
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


@impl(np.fill_diagonal)
def f_fill_diagonal(a, val, wrap=False):
    if not isinstance(a, SymArray):
        if has_sym(val):
            raise Unsupported("fill_diagonal of a native array")
        return np.fill_diagonal(a, native(val), wrap)
    np.fill_diagonal(base(a), cast_obj(as_obj(val), a.sdt), wrap)


@impl(np.copyto)
def f_copyto(dst, src, casting="same_kind", where=True):
    if not isinstance(dst, SymArray):
        raise Unsupported("copyto native")
    w = np.broadcast_to(as_obj(where), dst.shape)
    s = np.broadcast_to(as_obj(src), dst.shape)
    b = base(dst)
    for i in np.ndindex(dst.shape):
        b[i] = cast_elem(ite(w[i], s[i], b[i]), dst.sdt)


def _like(fn):
    def f(a, *args, dtype=None, **k):
        k.pop("order", None), k.pop("subok", None)
        shape = k.pop("shape", None) or as_obj(a).shape
        sdt = np.dtype(dtype) if dtype is not None else sdt_of(a)
        if fn == "full":
            o = np.empty(shape, dtype=object)
            o[...] = cast_elem(args[0], sdt)
            return wrap(o, sdt)
        return wrap(np.full(shape, 1 if fn == "ones" else 0, dtype=sdt).astype(object), sdt)
    return f


IMPL[np.zeros_like] = _like("zeros")
IMPL[np.ones_like] = _like("ones")
IMPL[np.empty_like] = _like("zeros")
IMPL[np.full_like] = _like("full")


@impl(np.ravel_multi_index)
def f_ravel_multi_index(multi_index, dims, mode="raise", order="C"):
    dims = [int(d) for d in dims]
    cols = [as_obj(m) for m in multi_index]
    for c, d in zip(cols, dims):
        bad = or_(*[or_(v < 0, v >= d) for v in c.ravel().tolist()])
        if mode == "raise" and bool(bad):
            raise ValueError("invalid entry in coordinates array")
    if mode != "raise":
        raise Unsupported("ravel_multi_index mode")
    st, s = [], 1
    seq = range(len(dims)) if order == "F" else reversed(range(len(dims)))
    st = [0] * len(dims)
    for i in seq:
        st[i] = s
        s *= dims[i]
    r = None
    for c, w in zip(cols, st):
        t = wrap(c, I64) * w if c.ndim else c[()] * w
        r = t if r is None else r + t
    return r


def f_matmul(a, b, out=None):
    if not has_sym(a) and not has_sym(b):
        return _renew(np.matmul(native(a), native(b)))
    oa, ob = as_obj(a), as_obj(b)
    if oa.ndim == 0 or ob.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    r = np.matmul(oa, ob)
    sdt = np.result_type(sdt_of(a), sdt_of(b))
    return wrap(r, sdt) if isinstance(r, np.ndarray) and r.ndim else _npscalar(r, sdt)


@impl(np.einsum)
def f_einsum(spec, *ops, out=None, optimize=False, **k):
    if not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum form")
    spec = spec.replace(" ", "")
    ins, _, res = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        al = "".join(ins)
        res = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    objs = [as_obj(o) for o in ops]
    dims = {}
    for i, o in zip(ins, objs):
        if len(i) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match the number of dimensions")
        for c, n in zip(i, o.shape):
            if dims.setdefault(c, n) != n and 1 not in (dims[c], n):
                raise ValueError("operands could not be broadcast together")
            dims[c] = max(dims[c], n)
    sdt = np.result_type(*[sdt_of(o) for o in ops])
    summed = [c for c in dims if c not in res]
    r = np.empty([dims[c] for c in res], dtype=object)
    for i in np.ndindex(r.shape):
        env = dict(zip(res, i))
        s = None
        for j in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, j))
            t = None
            for sub, o in zip(ins, objs):
                v = o[tuple(env[c] if o.shape[q] > 1 else 0 for q, c in enumerate(sub))]
                t = v if t is None else _ew_call(np.multiply, "multiply")(t, v)
            s = t if s is None else _ew_call(np.add, "add")(s, t)
        r[i] = sdt.type(0) if s is None else s
    return wrap(r, sdt) if r.ndim else _npscalar(r[()], sdt)


@impl(np.take)
def f_take(a, indices, axis=None, out=None, mode="raise"):
    if mode != "raise" or out is not None:
        raise Unsupported("take mode")
    a = a if isinstance(a, SymArray) else symarray(a)
    if axis is None:
        return a.reshape(-1)[indices]
    t = np.moveaxis(a, axis, 0)[indices]
    n = np.ndim(as_obj(indices))
    for k in range(n):
        t = np.moveaxis(t, n - 1 - k, axis) if axis else t
    return t


@impl(np.take_along_axis)
def f_take_along_axis(arr, indices, axis):
    a = arr if isinstance(arr, SymArray) else symarray(arr)
    ix = indices if isinstance(indices, SymArray) else symarray(indices)
    if axis is None:
        a, axis = a.reshape(-1), 0
    axis = axis % a.ndim
    o = np.empty(ix.shape, dtype=object)
    for i in np.ndindex(ix.shape):
        c = tuple(ix[i] if d == axis else (i[d] if a.shape[d] > 1 else 0) for d in range(a.ndim))
        o[i] = a[c if len(c) > 1 else c[0]]
    return wrap(o, a.sdt)


@impl(np.choose)
def f_choose(a, choices, out=None, mode="raise"):
    cs = [as_obj(c) for c in choices]
    ob = np.broadcast_arrays(as_obj(a), *cs)
    bad = or_(*[or_(v < 0, v >= len(cs)) for v in ob[0].ravel().tolist()])
    if bool(bad):
        raise ValueError("invalid entry in choice array")
    r = np.empty(ob[0].shape, dtype=object)
    for i in np.ndindex(r.shape):
        v = ob[1][i]
        for k in range(1, len(cs)):
            v = ite(core.eq(ob[0][i], k), ob[k + 1][i], v)
        r[i] = v
    sdt = np.result_type(*[sdt_of(c) for c in choices])
    return wrap(r, sdt) if r.ndim else _npscalar(r[()], sdt)


@impl(np.select)
def f_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = f_where(c, v, r)
    return r


@impl(np.digitize)
def f_digitize(x, bins, right=False):
    bs = as_obj(bins).ravel().tolist()
    up = all(not is_sym(p) and not is_sym(q) for p, q in zip(bs, bs[1:])) and list(bs) == sorted(bs)
    if not up:
        raise Unsupported("digitize with decreasing or symbolic bins")
    o = as_obj(x)
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        r[i] = _count([binop("gt", o[i], b) if right else binop("ge", o[i], b) for b in bs])
    return wrap(r, I64) if r.ndim else _npscalar(r[()], I64)


@impl(np.searchsorted)
def f_searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        a = np.take(a, sorter)
    o, bs = as_obj(v), as_obj(a).ravel().tolist()
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        r[i] = _count([_cmp("lt", b, o[i]) if side == "left" else _cmp("le", b, o[i]) for b in bs])
    return wrap(r, I64) if r.ndim else _npscalar(r[()], I64)


def _cmp(op, a, b):
    return binop(op, a, b) if is_sym(a) or is_sym(b) else (a < b if op == "lt" else a <= b)


def _count(conds):
    """How many of the conditions hold."""
    r = np.int64(0)
    for c in conds:
        r = _add(r, ite(c, np.int64(1), np.int64(0)))
    return r


@impl(np.unravel_index)
def f_unravel_index(indices, shape, order="C"):
    dims = [int(d) for d in (shape if isinstance(shape, (tuple, list, np.ndarray)) else (shape,))]
    x = indices if isinstance(indices, SymArray) or is_sym(indices) else symarray(indices)
    n = math.prod(dims)
    if bool(or_(*[or_(v < 0, v >= n) for v in as_obj(x).ravel().tolist()])):
        raise ValueError("index is out of bounds for array with size %d" % n)
    out = []
    for d in (reversed(dims) if order == "C" else dims):
        out.append(x % d)
        x = x // d
    return tuple(reversed(out) if order == "C" else out)


def _hist(x, edges, w):
    """Per bin [e_k, e_{k+1}) (the last closed) the sum of the weights."""
    out = []
    for k in range(len(edges) - 1):
        s = None
        for v, ww in zip(x, w):
            last = k == len(edges) - 2
            c = and_(_cmp("le", edges[k], v), _cmp("le" if last else "lt", v, edges[k + 1]))
            t = ite(c, ww, type(ww)(0) if not is_sym(ww) else np.float64(0.0))
            s = t if s is None else _add(s, t)
        out.append(np.int64(0) if s is None else s)
    return out


def _edges(bins, rng, vals):
    if isinstance(bins, (int, np.integer)) and rng is None and any(is_sym(v) for v in vals):
        raise Unsupported("histogram with data-dependent edges")
    return np.histogram_bin_edges([float(v) for v in vals if not is_sym(v)] or [0.0], native(bins), rng)


@impl(np.histogram)
def f_histogram(a, bins=10, range=None, weights=None, density=None, **k):
    if density:
        raise Unsupported("histogram density")
    x = as_obj(a).ravel().tolist()
    e = _edges(bins, range, x)
    w = [np.int64(1)] * len(x) if weights is None else as_obj(weights).ravel().tolist()
    return wrap(_objlist(_hist(x, e.tolist(), w)), I64 if weights is None else sdt_of(weights)), e


@impl(np.histogram2d)
def f_histogram2d(x, y, bins=10, range=None, weights=None, density=None, **k):
    if density:
        raise Unsupported("histogram density")
    xs, ys = as_obj(x).ravel().tolist(), as_obj(y).ravel().tolist()
    bins = [bins, bins] if np.ndim(bins) == 0 or (np.ndim(bins) == 1 and len(bins) not in (1, 2)) else bins
    ex = _edges(bins[0], None if range is None else range[0], xs)
    ey = _edges(bins[1], None if range is None else range[1], ys)
    w = [np.float64(1.0)] * len(xs) if weights is None else [to_float(v) for v in as_obj(weights).ravel().tolist()]
    o = np.empty((len(ex) - 1, len(ey) - 1), dtype=object)

    def inside(v, e, k):
        return and_(_cmp("le", e[k], v), _cmp("le" if k == len(e) - 2 else "lt", v, e[k + 1]))
    for i, j in np.ndindex(o.shape):
        s = np.float64(0.0)
        for a, b, ww in zip(xs, ys, w):
            s = _add(s, ite(and_(inside(a, ex, i), inside(b, ey, j)), ww, np.float64(0.0)))
        o[i, j] = s
    return wrap(o, F64), ex, ey


@impl(np.ptp)
def f_ptp(a, axis=None, **k):
    return f_max(a, axis) - f_min(a, axis)


@impl(np.median)
def f_median(a, axis=None, **k):
    if axis is not None and as_obj(a).ndim > 1:
        raise Unsupported("median along an axis")
    s = np.sort(as_obj(a).ravel())
    n = len(s)
    return to_float(s[n // 2]) if n % 2 else (to_float(s[n // 2 - 1]) + to_float(s[n // 2])) / 2


@impl(np.var)
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    n = as_obj(a).size if axis is None else as_obj(a).shape[axis]
    m = f_mean(a, axis)
    if axis is not None and as_obj(a).ndim > 1:
        m = np.expand_dims(m, axis)
    d = (a if isinstance(a, SymArray) else symarray(a)) - m
    return reduce_(np.add, d * d, axis) / np.float64(n - ddof)


@impl(np.std)
def f_std(a, *x, **k):
    return np.sqrt(f_var(a, *x, **k))


def _nanfree(a):
    return all(is_sym(v) or v == v for v in as_obj(a).ravel().tolist())


def _nanfn(f, g):
    def h(a, axis=None, **k):
        if not _nanfree(a):
            raise Unsupported("nan-skipping reduction with nan")
        return g(a, axis)
    IMPL[f] = h


_nanfn(np.nanargmin, lambda a, x: f_argmin(a, x))
_nanfn(np.nanargmax, lambda a, x: f_argmax(a, x))
_nanfn(np.nanmean, lambda a, x: f_mean(a, x))
IMPL[np.nanmax] = lambda a, axis=None, **k: reduce_(np.fmax, a, axis)
IMPL[np.nanmin] = lambda a, axis=None, **k: reduce_(np.fmin, a, axis)


@impl(np.unique)
def f_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    o = as_obj(ar)
    if axis is None:
        items = [(v,) for v in o.ravel().tolist()]
    elif axis == 0:
        items = [tuple(r.ravel().tolist()) for r in o]
    else:
        raise Unsupported("unique along axis %r" % (axis,))
    order = sorted(builtins_range(len(items)), key=functools.cmp_to_key(lambda i, j: _tuplecmp(items[i], items[j])))
    groups = []
    for i in order:
        if groups and all(bool(core.eq(p, q)) for p, q in zip(items[groups[-1][0]], items[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    rows = [items[g[0]] for g in groups]
    if axis is None:
        u = wrap(_objlist([r[0] for r in rows]), sdt_of(ar))
    else:
        b = np.empty((len(rows),) + o.shape[1:], dtype=object)
        for k_, r in enumerate(rows):
            b[k_] = _objlist(list(r)).reshape(o.shape[1:])
        u = wrap(b, sdt_of(ar))
    res = [u]
    if return_index:
        res.append(np.array([min(g) for g in groups], dtype=np.int64))
    if return_inverse:
        inv = np.zeros(len(items), dtype=np.int64)
        for k_, g in enumerate(groups):
            inv[g] = k_
        res.append(inv)
    if return_counts:
        res.append(np.array([len(g) for g in groups], dtype=np.int64))
    return res[0] if len(res) == 1 else tuple(res)


builtins_range = range


def _tuplecmp(a, b):
    for p, q in zip(a, b):
        if bool(_cmp("lt", p, q)):
            return -1
        if bool(_cmp("lt", q, p)):
            return 1
    return 0


IMPL[np.matmul] = f_matmul


@impl(np.dot)
def f_dot(a, b, out=None):
    oa, ob = as_obj(a), as_obj(b)
    r = np.dot(oa, ob)
    sdt = np.result_type(sdt_of(a), sdt_of(b))
    return wrap(r, sdt) if isinstance(r, np.ndarray) and r.ndim else r


@impl(np.lexsort)
def f_lexsort(keys, axis=-1):
    return np.lexsort(concretised(keys))


_STRUCT = """reshape ravel transpose moveaxis rollaxis swapaxes concatenate stack hstack vstack row_stack column_stack
dstack split array_split hsplit vsplit squeeze expand_dims broadcast_to broadcast_arrays repeat tile flip fliplr flipud
roll rot90 delete insert append diagonal diag diagflat tril triu compress extract meshgrid atleast_1d atleast_2d
atleast_3d copy sort argsort outer inner tensordot trace diff ediff1d apply_along_axis ix_ pad vdot kron
place put putmask result_type shape ndim size iscomplexobj resize trim_zeros block shares_memory may_share_memory
""".split()
STRUCT = {getattr(np, n) for n in _STRUCT if hasattr(np, n)}


def _debase(x, depth=0):
    if isinstance(x, SymArray):
        return base(x)
    if is_sym(x):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if type(x) in (list, tuple) and depth < 6:
        return type(x)(_debase(v, depth + 1) for v in x)
    return x


def _sdts(x, acc, depth=0):
    if isinstance(x, SymArray):
        acc.append(x.sdt)
    elif is_sym(x):
        acc.append(x.dtype)
    elif isinstance(x, np.ndarray) and x.dtype.kind in "iufb":
        acc.append(x.dtype)
    elif type(x) in (list, tuple) and depth < 6:
        for v in x:
            _sdts(v, acc, depth + 1)


def _text(x, depth=0):
    """Strings (or string arrays) among the arguments: then nothing is numeric, and real numpy runs."""
    if isinstance(x, str):
        return depth > 0
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        return x.dtype.kind in "US" or x.dtype == OBJ and any(isinstance(v, str) for v in x.ravel().tolist())
    if type(x) in (list, tuple) and depth < 6:
        return any(_text(v, depth + 1) for v in x)
    return False


def _rewrap(r, sdt):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == OBJ:
            vals = r.ravel().tolist()
            d = B1 if vals and all(isinstance(v, (bool, np.bool_, SBool)) for v in vals) else sdt
            return wrap_view(r, d)
        return r
    if isinstance(r, tuple):
        return tuple(_rewrap(v, sdt) for v in r)
    if isinstance(r, list):
        return [_rewrap(v, sdt) for v in r]
    return r


def dispatch_function(func, args, kwargs):
    if func in STRUCT and not (_text(args[:2]) and not has_sym(list(args))):
        acc = []
        _sdts(list(args), acc)
        sdt = np.result_type(*acc) if acc else F64
        if func is np.result_type:
            return np.result_type(*[a.sdt if isinstance(a, SymArray) else a for a in args])
        if "dtype" in kwargs and kwargs["dtype"] is None:
            kwargs = {k: v for k, v in kwargs.items() if k != "dtype"}
        r = func(*[_debase(a) for a in args], **{k: _debase(v) for k, v in kwargs.items()})
        return _rewrap(r, sdt)
    f = IMPL.get(func)
    mutating = func in (np.fill_diagonal, np.copyto)
    if not mutating and not has_sym(list(args)) and not has_sym(kwargs):
        with np.errstate(all="ignore"):
            r = func(*[native(a) for a in args], **{k: native(v) for k, v in kwargs.items()})
        if isinstance(r, tuple):
            return tuple(_renew(v) for v in r)
        return _renew(r)
    if f is not None:
        return f(*args, **kwargs)
    engine().stats.setdefault("concretised_calls", {})
    d = engine().stats["concretised_calls"]
    d[func.__name__] = d.get(func.__name__, 0) + 1
    with np.errstate(all="ignore"):
        r = func(*[concretised(a) for a in args], **{k: concretised(v) for k, v in kwargs.items()})
    return _renew(r)


class NativeView:
    """Subscripting of a real array inside the code under test, where the index or the stored value may be symbolic."""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def _idx(self, i):
        if not has_sym(i):
            return native(i) if isinstance(i, (SymArray, tuple)) else i
        if isinstance(i, tuple):
            return tuple(self._one(p) for p in i)
        return self._one(i)

    def _one(self, p):
        if isinstance(p, slice):
            return slice(*[v.__index__() if is_sym(v) else v for v in (p.start, p.stop, p.step)])
        if not has_sym(p):
            return native(p) if isinstance(p, SymArray) else p
        if isinstance(p, SBool):
            return bool(p)
        if is_sym(p):
            return p.__index__()
        p = concretised(symarray(p) if isinstance(p, list) else p)
        return p

    def __getitem__(self, i):
        parts = i if type(i) is tuple else (i,)
        if has_sym(i) and self.a.dtype.kind in "iufb" and (
                any(isinstance(p, (list, np.ndarray)) for p in parts) or
                len(parts) == self.a.ndim and not any(isinstance(p, slice) or p is None or p is Ellipsis for p in parts)):
            return wrap(self.a.astype(object), self.a.dtype)[i]
        return self.a[self._idx(i)]

    def __setitem__(self, i, v):
        if has_sym(v) and self.a.dtype.kind in "iufb":
            raise Unsupported("a symbolic value stored into an array numpy made itself")
        self.a[self._idx(i)] = native(v) if isinstance(v, SymArray) and self.a.dtype != OBJ else v

    def __delitem__(self, i):
        del self.a[self._idx(i)]
