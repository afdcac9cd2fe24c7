"""pandas with symbolic cells: real pandas on object columns, plus the conversions that must not lose symbols."""
import sys

import numpy as np
import pandas as pd

from . import arr, core
from .arr import SymArray, has_sym, base, wrap, cast_obj_unsafe, infer
from .core import is_sym

REPO = "/repo/"
_installed = False


def _from_code_under_test(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(REPO)


def _plain(data):
    if isinstance(data, SymArray):
        return base(data).copy() if has_sym(data) else arr.native(data)
    if isinstance(data, list):
        return [_plain(v) if isinstance(v, (SymArray, list, dict)) else v for v in data]
    if isinstance(data, dict):
        return {k: _plain(v) if isinstance(v, (SymArray, list)) else v for k, v in data.items()}
    return data


def _cells_sym(o):
    return any(is_sym(v) for v in np.ravel(o).tolist()) if getattr(o, "dtype", None) == object else False


class SymText(str):
    """JSON text that carries symbolic values: the parsed document travels with it."""
    doc = None


def symtext(doc):
    t = SymText("\0symbolic json")
    t.doc = doc
    return t


def install():
    global _installed
    if _installed:
        return
    _installed = True
    DF, SR = pd.DataFrame, pd.Series
    df_init, sr_init = DF.__init__, SR.__init__

    def df_init2(self, data=None, *a, **k):
        df_init(self, _plain(data) if isinstance(data, (SymArray, list, dict)) else data, *a, **k)
        if k.get("dtype") in (object, "object", "O") or (type(data) is np.ndarray and data.dtype == object):
            self.attrs["symx_object"] = True             # object cells in the real run too: no common number type

    def sr_init2(self, data=None, *a, **k):
        sr_init(self, _plain(data) if isinstance(data, (SymArray, list, dict)) else data, *a, **k)
    DF.__init__, SR.__init__ = df_init2, sr_init2

    def frame_has_sym(f):
        if isinstance(f, DF):
            return any(_cells_sym(f.iloc[:, i]._values) for i in range(f.shape[1]) if f.dtypes.iloc[i] == object)
        return _cells_sym(f._values)

    infer_objects = DF.infer_objects

    def infer_objects2(self, *a, **k):
        out = infer_objects(self, *a, **k)
        out.attrs.pop("symx_object", None)
        return out
    DF.infer_objects = infer_objects2

    def to_sym(f):
        vals = orig_to_numpy[type(f) if type(f) in orig_to_numpy else DF](f)
        if isinstance(f, DF) and f.attrs.get("symx_object"):
            return vals
        if vals.dtype == object and _cells_sym(vals):
            d = infer(vals.ravel().tolist())
            if d == object:
                return vals
            return wrap(cast_obj_unsafe(vals, d), d)
        return vals

    orig_to_numpy = {DF: DF.to_numpy, SR: SR.to_numpy}
    orig_values = {DF: DF.values, SR: SR.values}

    for C in (DF, SR):
        def to_numpy(self, *a, _o=C.to_numpy, **k):
            if not a and not {x for x in k if x != "copy"} and frame_has_sym(self):
                return to_sym(self)
            r = _o(self, *a, **k) if not frame_has_sym(self) else to_sym(self)
            if frame_has_sym(self) and isinstance(r, SymArray) and (a or k.get("dtype") is not None):
                return r.astype(a[0] if a else k["dtype"])
            return r
        C.to_numpy = to_numpy

        def values(self, _o=C.values):
            if _from_code_under_test() and frame_has_sym(self):
                return to_sym(self)
            return _o.fget(self)
        C.values = property(values)

        def astype(self, dtype, *a, _o=C.astype, **k):
            if not frame_has_sym(self):
                return _o(self, dtype, *a, **k)
            if isinstance(self, SR):
                d = np.dtype(dtype if not isinstance(dtype, dict) else dtype[self.name])
                v = self._values.astype(object)
                return SR(cast_obj_unsafe(v, d), index=self.index, name=self.name, dtype=object)
            out = self.copy()
            cols = []
            for i in range(self.shape[1]):
                name = self.columns[i]
                col = self.iloc[:, i]
                if isinstance(dtype, dict):
                    cols.append(col.astype(dtype[name]) if name in dtype else col)
                else:
                    cols.append(col.astype(dtype))
            out = pd.concat(cols, axis=1)
            out.columns = self.columns
            return out
        C.astype = astype

        def round_(self, decimals=0, *a, _o=C.round, **k):
            if not frame_has_sym(self):
                return _o(self, decimals, *a, **k)
            one = lambda v, d: core.round_(v, d) if is_sym(v) else (v if isinstance(v, (str, type(None))) else np.round(v, d))
            if isinstance(self, SR):
                return SR([one(v, decimals) for v in self._values], index=self.index, name=self.name, dtype=object)
            out = self.copy()
            for i, c in enumerate(self.columns):
                if isinstance(decimals, dict) and c not in decimals:
                    continue
                d = decimals[c] if isinstance(decimals, dict) else decimals
                out.isetitem(i, SR([one(v, d) for v in self.iloc[:, i]._values], index=self.index, dtype=object))
            return out
        C.round = round_

        def clip(self, lower=None, upper=None, *a, _o=C.clip, **k):
            if not frame_has_sym(self):
                return _o(self, lower, upper, *a, **k)
            if isinstance(self, DF):
                out = self.copy()
                for i in range(self.shape[1]):
                    out.isetitem(i, self.iloc[:, i].clip(lower, upper))
                return out
            vals = []
            for v in self._values:
                if lower is not None and bool(v < lower):
                    v = lower
                elif upper is not None and bool(v > upper):
                    v = upper
                vals.append(v)
            return SR(vals, index=self.index, name=self.name, dtype=object)
        C.clip = clip

        def to_json(self, *a, _o=C.to_json, **k):
            if not frame_has_sym(self):
                return _o(self, *a, **k)
            orient = k.get("orient", a[1] if len(a) > 1 else "columns")
            if isinstance(self, SR) or orient != "records":
                raise core.Unsupported("symbolic to_json(orient=%s)" % orient)
            prec = k.get("double_precision", 10)
            recs = []
            for r in range(self.shape[0]):
                rec = {}
                for c in range(self.shape[1]):
                    v = self.iat[r, c]
                    if is_sym(v):
                        v = v.item()
                        if core.z3.is_real(core.to_num_expr(v.e)):
                            v = core.round_(v, prec)
                    elif isinstance(v, np.generic):
                        v = v.item()
                    if isinstance(v, float):
                        v = None if v != v or v in (float("inf"), float("-inf")) else round(v, prec)
                    rec[str(self.columns[c])] = v
                recs.append(rec)
            return symtext(recs)
        C.to_json = to_json
