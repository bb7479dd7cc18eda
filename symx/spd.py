"""A small model of the pandas API used by cyclic_boosting.

Columns are SArr; single-column access shares memory with the frame (as pandas
2.1 without copy-on-write does), multi-column access copies.
"""
import types

import numpy as np
import pandas as real_pd

from symx import core, snp
from symx.core import Sym, Unsupported, truth
from symx.snp import SArr, box_list, from_any, norm_scalar, raw


class _Columns:
    _symx_list = True

    def __init__(self, names):
        self.names = list(names)

    def __iter__(self):
        return iter(self.names)

    def __len__(self):
        return len(self.names)

    def __contains__(self, x):
        return x in self.names

    def __getitem__(self, i):
        if isinstance(i, slice):
            return _Columns(self.names[i])
        return self.names[i]

    def tolist(self):
        return list(self.names)

    def get_loc(self, n):
        return self.names.index(n)

    @property
    def values(self):
        return np.array(self.names, dtype=object)

    def __eq__(self, o):
        return self.names == list(o)

    def isin(self, x):
        return np.array([n in x for n in self.names])


class _ILoc:
    def __init__(self, obj, loc=False):
        self.o, self.is_loc = obj, loc

    def __call__(self, axis=0):
        return self

    def __getitem__(self, key):
        o = self.o
        if isinstance(o, Series):
            if self.is_loc and not _is_mask_or_slice(key):
                return o._lookup(key)
            k = key._symx_values() if hasattr(key, "_symx_values") else key
            if isinstance(k, (int, np.integer, core.SI)):
                if not self.is_loc:
                    if not -len(o) <= int(k) < len(o):
                        raise IndexError("single positional indexer is out-of-bounds")
                    return o._v[int(k)]
            sel = snp._concrete_index(k)
            return Series(o._v[sel], index=[o.index[i] for i in np.arange(len(o))[sel]], name=o.name)
        # DataFrame
        if isinstance(key, tuple):
            rk, ck = key
        else:
            rk, ck = key, slice(None)
        if self.is_loc:
            if isinstance(ck, slice) and ck == slice(None):
                cols = list(o._c)
                one = False
            elif isinstance(ck, list):
                cols, one = ck, False
            else:
                cols, one = [ck], True
        else:
            names = list(o._c)
            if isinstance(ck, slice):
                cols, one = names[ck], False
            elif isinstance(ck, (list, np.ndarray)):
                cols, one = [names[i] for i in ck], False
            else:
                cols, one = [names[ck]], True
        if hasattr(rk, "_symx_values"):
            rk = rk._symx_values()
        if self.is_loc and not _is_mask_or_slice(rk):
            if isinstance(rk, (list, np.ndarray)):
                rk = [o.index.index(x) for x in rk]
            else:
                rk = o.index.index(rk)
        sel = snp._concrete_index(rk)
        if isinstance(sel, (int, np.integer)):
            if one:
                return o._c[cols[0]][sel]
            return Series(box_list([o._c[c][sel] for c in cols]), index=list(cols), name=o.index[sel])
        idx = [o.index[i] for i in np.arange(len(o))[sel]]
        if one:
            return Series(o._c[cols[0]][sel], index=idx, name=cols[0])
        return DataFrame({c: o._c[c][sel] for c in cols}, index=idx)

    def __setitem__(self, key, value):
        o = self.o
        if hasattr(value, "_symx_values"):
            value = value._symx_values()
        if isinstance(o, Series):
            o._v[key._symx_values() if hasattr(key, "_symx_values") else key] = value
            return
        if isinstance(key, tuple):
            rk, ck = key
        else:
            rk, ck = key, slice(None)
        if hasattr(rk, "_symx_values"):
            rk = rk._symx_values()
        names = list(o._c)
        if self.is_loc:
            cols = names if isinstance(ck, slice) else (ck if isinstance(ck, list) else [ck])
        else:
            cols = names[ck] if isinstance(ck, slice) else ([names[ck]] if not isinstance(ck, list) else [names[i] for i in ck])
        for c in cols:
            if c not in o._c:
                o._c[c] = snp.full(len(o), np.nan)
            o._c[c][rk] = value


def _is_mask_or_slice(k):
    if isinstance(k, slice):
        return True
    if hasattr(k, "_symx_values"):
        k = k._symx_values()
    if isinstance(k, np.ndarray):
        return from_any(k).nominal_dtype().kind == "b"
    if isinstance(k, list):
        return bool(k) and isinstance(k[0], (bool, np.bool_, core.SB))
    return False


class _Index(list):
    """row labels"""

    @property
    def values(self):
        return from_any(list(self))

    def tolist(self):
        return list(self)

    def get_loc(self, k):
        return self.index(k)


class NDFrame:
    _symx_container = True
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        for i, x in enumerate(inputs):
            if x is self:
                return self._symx_ufunc(ufunc, i, inputs)


class Series(NDFrame):
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, Series):
            index = data.index if index is None else index
            name = data.name if name is None else name
            data = data._v
        if isinstance(data, dict):
            index = list(data)
            data = list(data.values())
        if data is not None and not isinstance(data, (np.ndarray, list, tuple)) and index is not None:
            data = [data] * len(list(index))
        if isinstance(data, list) and any(not isinstance(x, (Sym, int, float, np.generic, bool)) for x in data):
            self._v = _objarr(data)
        else:
            self._v = from_any([] if data is None else data, dtype)
        self.index = _Index(index) if index is not None else _Index(range(len(self._v)))
        self.name = name

    def _symx_values(self):
        return self._v

    @property
    def values(self):
        return self._v

    def to_numpy(self, dtype=None, copy=False):
        r = self._v if dtype is None else self._v.astype(dtype)
        return r.copy() if copy else r

    def __array__(self, dtype=None):
        return self._v

    @property
    def shape(self):
        return self._v.shape

    @property
    def size(self):
        return self._v.size

    @property
    def dtype(self):
        return self._v.dtype

    ndim = 1

    @property
    def empty(self):
        return len(self._v) == 0

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def _symx_ufunc(self, ufunc, i, inputs):
        args = [x._v if isinstance(x, Series) else x for x in inputs]
        r = snp.ufunc_dispatch(ufunc, "__call__", *args)
        return Series(r, index=self.index, name=self.name)

    def _op(self, ufunc, o, rev=False):
        o = o._v if isinstance(o, Series) else o
        a, b = (o, self._v) if rev else (self._v, o)
        return Series(snp.ufunc_dispatch(ufunc, "__call__", a, b), index=self.index, name=self.name)

    def __getitem__(self, key):
        if _is_mask_or_slice(key):
            return _ILoc(self)[key]
        return self._lookup(key)

    def __setitem__(self, key, value):
        if hasattr(value, "_symx_values"):
            value = value._symx_values()
        if _is_mask_or_slice(key):
            self._v[key._symx_values() if hasattr(key, "_symx_values") else key] = value
        else:
            self._v[self.index.index(key)] = value

    def _lookup(self, key):
        if isinstance(key, (list, np.ndarray)):
            return Series([self._lookup(k) for k in key], index=list(key), name=self.name)
        for i, k in enumerate(self.index):
            if isinstance(k, tuple) and isinstance(key, tuple):
                if len(k) == len(key) and all(truth(core.eq(norm_scalar(a), norm_scalar(b))) for a, b in zip(k, key)):
                    return raw(self._v)[i]
                continue
            if isinstance(k, tuple) != isinstance(key, tuple):
                if isinstance(k, tuple) and len(k) == 1:
                    k = k[0]
                elif isinstance(key, tuple) and len(key) == 1:
                    key = key[0]
                else:
                    continue
            if isinstance(k, str) or isinstance(key, str):
                if k == key:
                    return raw(self._v)[i]
                continue
            if truth(core.eq(norm_scalar(k), norm_scalar(key))):
                return raw(self._v)[i]
        raise KeyError(key)

    @property
    def loc(self):
        return _ILoc(self, True)

    @property
    def iloc(self):
        return _ILoc(self)

    def sum(self, **k):
        return snp.np_nansum(self._v)

    def mean(self, **k):
        return snp.np_nanmean(self._v)

    def median(self, **k):
        return snp.np_median(self._v)

    def quantile(self, q=0.5, **k):
        return snp.np_quantile(self._v, q)

    def min(self, **k):
        return snp.np_nanmin(self._v)

    def max(self, **k):
        return snp.np_nanmax(self._v)

    def cumsum(self, **k):
        return Series(self._v.cumsum(), index=self.index, name=self.name)

    def isnull(self):
        return Series(snp.proxy_call(np.isnan, self._v), index=self.index)

    isna = isnull

    def notnull(self):
        return Series(~snp.proxy_call(np.isnan, self._v), index=self.index)

    notna = notnull

    def any(self):
        return self._v.any()

    def all(self):
        return self._v.all()

    def abs(self):
        return Series(abs(self._v), index=self.index, name=self.name)

    def astype(self, dt, **k):
        return Series(self._v.astype(dt), index=self.index, name=self.name)

    def copy(self, deep=True):
        return Series(self._v.copy(), index=self.index, name=self.name)

    def fillna(self, v):
        return Series([v if core.isnan_(x) else x for x in raw(self._v)], index=self.index, name=self.name)

    def tolist(self):
        return list(raw(self._v))

    to_list = tolist

    def unique(self):
        seen = []
        for x in raw(self._v):
            if not any((core.isnan_(x) and core.isnan_(y)) or truth(core.eq(x, y)) for y in seen):
                seen.append(x)
        return box_list(seen)

    def nunique(self):
        return len(self.unique())

    def sort_values(self, ascending=True, **k):
        o = snp._argsort1(list(raw(self._v)))
        if not ascending:
            o = o[::-1]
        return Series(self._v[np.array(o, dtype=int)], index=[self.index[i] for i in o], name=self.name)

    def sort_index(self, ascending=True, **k):
        o = sorted(range(len(self._v)), key=lambda i: self.index[i])
        if not ascending:
            o = o[::-1]
        return Series(self._v[np.array(o, dtype=int)], index=[self.index[i] for i in o], name=self.name)

    def reindex(self, labels=None, index=None):
        labels = list(raw(from_any(index if labels is None else labels)))
        at = {k: i for i, k in enumerate(self.index)}
        return Series([self._v[at[k]] if k in at else np.float64("nan") for k in labels], index=labels, name=self.name)

    def reset_index(self, drop=False, name=None):
        if drop:
            return Series(self._v, name=self.name)
        names = getattr(self, "_index_names", None) or ["index"]
        cols = {}
        for j, nm in enumerate(names):
            cols[nm] = from_any([x[j] if isinstance(x, tuple) else x for x in self.index])
        cols[name if name is not None else (self.name if self.name is not None else 0)] = self._v
        return DataFrame(cols)

    def isin(self, vals):
        return Series(snp.np_isin(self._v, list(vals)), index=self.index)

    def apply(self, f):
        return Series([f(x) for x in self._v], index=self.index, name=self.name)

    map = apply

    def items(self):
        return zip(self.index, self._v)

    def groupby(self, by, sort=True, **k):
        b = by._v if isinstance(by, Series) else from_any(by)
        return GroupBy(DataFrame({"__v": self._v, "__b": b}, index=self.index), ["__b"], sort, select="__v", squeeze=True)


def _objarr(items):
    out = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        out[i] = x
    return out.view(SArr)


def _cmpop(name, u):
    def f(self, o):
        return self._op(u, o)

    return f


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.divide),
               ("floordiv", np.floor_divide), ("mod", np.remainder), ("pow", np.power), ("and", np.bitwise_and),
               ("or", np.bitwise_or), ("lt", np.less), ("le", np.less_equal), ("gt", np.greater),
               ("ge", np.greater_equal), ("eq", np.equal), ("ne", np.not_equal)):
    setattr(Series, "__%s__" % _n, (lambda u: lambda self, o: self._op(u, o))(_u))
    if _n not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(Series, "__r%s__" % _n, (lambda u: lambda self, o: self._op(u, o, True))(_u))
        if _n not in ("and", "or"):
            def _mk(u):
                def f(self, o):
                    r = self._op(u, o)
                    self._v[...] = r._v  # in place, as pandas does
                    return self

                return f

            setattr(Series, "__i%s__" % _n, _mk(_u))
Series.__hash__ = None
Series.__invert__ = lambda self: Series(~self._v, index=self.index, name=self.name)
Series.__neg__ = lambda self: Series(-self._v, index=self.index, name=self.name)
Series.__abs__ = Series.abs


class DataFrame(NDFrame):
    ndim = 2

    def __init__(self, data=None, columns=None, index=None, dtype=None, copy=None):
        self._c = {}
        self._block = None
        n = None
        if isinstance(data, DataFrame):
            for k, v in data._c.items():
                if columns is None or k in columns:
                    self._c[k] = v
            n = len(data)
            index = data.index if index is None else index
        elif isinstance(data, dict):
            arrs = {}
            for k, v in data.items():
                if isinstance(v, Series):
                    v = v._v
                if isinstance(v, (np.ndarray, list, tuple, range)) and np.ndim(v) > 0 or isinstance(v, (list, tuple)):
                    arrs[k] = from_any(v, copy=True)
                    n = len(arrs[k])
                else:
                    arrs[k] = v
            for k, v in arrs.items():
                if not (isinstance(v, np.ndarray) and v.ndim):
                    v = snp.full(n if n is not None else len(index), v)
                if n is not None and len(v) != n:
                    raise ValueError("All arrays must be of the same length")
                self._c[k] = v
            if columns is not None:
                self._c = {k: self._c[k] for k in columns}
        elif isinstance(data, np.ndarray) or isinstance(data, list):
            a = from_any(data)
            if a.ndim == 1:
                a = a.reshape(-1, 1)
            names = list(columns) if columns is not None else list(range(a.shape[1]))
            if len(names) != a.shape[1]:
                raise ValueError("Shape of passed values")
            # pandas does not copy an ndarray
            for j, k in enumerate(names):
                self._c[k] = a[:, j]
            n = a.shape[0]
            self._block = (a, dict(self._c))
        elif data is None:
            n = 0 if index is None else len(list(index))
            for k in columns or []:
                self._c[k] = snp.full(n, np.nan)
        else:
            raise Unsupported("DataFrame(%s)" % type(data))
        self._n = n if n is not None else 0
        self.index = _Index(index) if index is not None else _Index(range(self._n))
        if isinstance(data, dict):
            self._consolidate()

    def _consolidate(self):
        """Columns of one dtype share a block, so ``values`` is a view."""
        arrs = list(self._c.values())
        if not arrs or not self._n or len({a.nominal_dtype() for a in arrs}) != 1:
            return
        blk = np.empty((self._n, len(arrs)), dtype=object).view(SArr)
        for j, (k, a) in enumerate(self._c.items()):
            raw(blk)[:, j] = raw(a)
            self._c[k] = blk[:, j]
        self._block = (blk, dict(self._c))

    def _symx_values(self):
        return self.values

    def __array__(self, dtype=None):
        return self.values

    @property
    def columns(self):
        return _Columns(list(self._c))

    @columns.setter
    def columns(self, names):
        self._c = dict(zip(list(names), self._c.values()))

    @property
    def values(self):
        return self.to_numpy()

    def to_numpy(self, dtype=None, copy=False):
        if not self._c:
            return snp.full((self._n, 0), 0.0)
        arrs = list(self._c.values())
        b = self.__dict__.get("_block")
        if b is not None and not copy and list(b[1]) == list(self._c) and all(b[1][k] is self._c[k] for k in self._c):
            return b[0] if dtype is None else from_any(b[0], dtype)
        r = snp._OVERRIDES["column_stack"](arrs)
        dts = {a.nominal_dtype() for a in arrs if a.size}
        if len(dts) > 1 and all(d.kind in "fiub" for d in dts):
            r = r.astype(np.result_type(*dts))
        return r if dtype is None else r.astype(dtype)

    @property
    def shape(self):
        return (self._n, len(self._c))

    @property
    def size(self):
        return self._n * len(self._c)

    @property
    def empty(self):
        return self._n == 0 or not self._c

    @property
    def dtypes(self):
        return Series(_objarr([v.dtype for v in self._c.values()]), index=list(self._c))

    @property
    def T(self):
        raise Unsupported("DataFrame.T")

    def __len__(self):
        return self._n

    def __iter__(self):
        return iter(self._c)

    def __contains__(self, k):
        return k in self._c

    def items(self):
        return ((k, self[k]) for k in self._c)

    def keys(self):
        return self.columns

    def __getitem__(self, key):
        if isinstance(key, _Columns):
            key = list(key)
        if isinstance(key, (Series, np.ndarray, slice)) or isinstance(key, list) and _is_mask_or_slice(key):
            if _is_mask_or_slice(key):
                return _ILoc(self, True)[key]
            key = list(key)
        if isinstance(key, list):
            for k in key:
                if k not in self._c:
                    raise KeyError("None of [%s] are in the columns" % key)
            return DataFrame({k: self._c[k].copy() for k in key}, index=self.index) if key else DataFrame(index=self.index)
        if key not in self._c:
            raise KeyError(key)
        return Series(self._c[key], index=self.index, name=key)

    def get(self, key, default=None):
        return self[key] if key in self._c else default

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        c = self.__dict__.get("_c", {})
        if name in c:
            return self[name]
        raise AttributeError(name)

    def __setitem__(self, key, value):
        if isinstance(key, (Series, np.ndarray)) and _is_mask_or_slice(key):
            _ILoc(self, True)[key] = value
            return
        if isinstance(key, list):
            v = from_any(value)
            for j, k in enumerate(key):
                self[k] = v[:, j] if v.ndim == 2 else v
            return
        if isinstance(value, Series):
            value = value._v
        elif hasattr(value, "_symx_values"):
            value = value._symx_values()
        if isinstance(value, (np.ndarray, list, tuple)) and np.ndim(value) > 0:
            v = from_any(value, copy=True)
            if v.ndim == 2 and v.shape[1] == 1:
                v = v[:, 0]
            if self._c and len(v) != self._n:
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), self._n))
            if not self._c:
                self._n = len(v)
                self.index = _Index(range(self._n))
        else:
            v = snp.full(self._n, value[()] if isinstance(value, np.ndarray) else value)
        self._c[key] = v

    def __delitem__(self, key):
        del self._c[key]

    def pop(self, key):
        s = self[key]
        del self._c[key]
        return s

    def copy(self, deep=True):
        if not deep:
            r = DataFrame(index=self.index)
            r._c = dict(self._c)
            r._n = self._n
            return r
        return DataFrame({k: v.copy() for k, v in self._c.items()}, index=self.index) if self._c else DataFrame(index=self.index)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **k):
        if isinstance(dt, dict):
            return DataFrame({k: (v.astype(dt[k]) if k in dt else v.copy()) for k, v in self._c.items()}, index=self.index)
        return DataFrame({k: v.astype(dt) for k, v in self._c.items()}, index=self.index)

    def drop(self, labels=None, axis=0, columns=None, inplace=False, errors="raise", **k):
        cols = columns if columns is not None else (labels if axis in (1, "columns") else None)
        if cols is None:
            raise Unsupported("drop rows")
        cols = [cols] if isinstance(cols, str) else list(cols)
        for c in cols:
            if c not in self._c and errors == "raise":
                raise KeyError(c)
        r = DataFrame({k: v.copy() for k, v in self._c.items() if k not in cols}, index=self.index)
        if inplace:
            self._c = r._c
            return None
        return r

    def rename(self, columns=None, **k):
        return DataFrame({columns.get(k, k): v.copy() for k, v in self._c.items()}, index=self.index)

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    @property
    def loc(self):
        return _ILoc(self, True)

    @property
    def iloc(self):
        return _ILoc(self)

    def _symx_ufunc(self, ufunc, i, inputs):
        args = [x.values if isinstance(x, DataFrame) else (x._v if isinstance(x, Series) else x) for x in inputs]
        r = snp.ufunc_dispatch(ufunc, "__call__", *args)
        return DataFrame(r, columns=list(self._c), index=self.index)

    def _op(self, u, o, rev=False):
        o = o.values if hasattr(o, "_symx_container") else o
        a, b = (o, self.values) if rev else (self.values, o)
        return DataFrame(snp.ufunc_dispatch(u, "__call__", a, b), columns=list(self._c), index=self.index)

    def isnull(self):
        return DataFrame(snp.proxy_call(np.isnan, self.values), columns=list(self._c), index=self.index)

    isna = isnull

    def sum(self, axis=0, **k):
        v = snp.np_nansum(self.values, axis=axis)
        return Series(v, index=list(self._c) if axis == 0 else self.index)

    def mean(self, axis=0, **k):
        v = snp.np_nanmean(self.values, axis=axis)
        return Series(v, index=list(self._c) if axis == 0 else self.index)

    def min(self, axis=0, **k):
        return Series(snp.np_nanmin(self.values, axis=axis), index=list(self._c) if axis == 0 else self.index)

    def max(self, axis=0, **k):
        return Series(snp.np_nanmax(self.values, axis=axis), index=list(self._c) if axis == 0 else self.index)

    def sort_values(self, by, ascending=True, **k):
        by = by if isinstance(by, list) else [by]
        order = list(range(self._n))
        for b in reversed(by):
            vals = [raw(self._c[b])[i] for i in order]
            order = [order[i] for i in snp._argsort1(vals)]
        if not ascending:
            order = order[::-1]
        return _ILoc(self)[np.array(order, dtype=int)]

    def sort_index(self, ascending=True, **k):
        order = sorted(range(self._n), key=lambda i: self.index[i])
        if not ascending:
            order = order[::-1]
        return _ILoc(self)[np.array(order, dtype=int)]

    def reset_index(self, drop=False, **k):
        r = DataFrame(dict(self._c)) if self._c else DataFrame()
        if not drop:
            names = getattr(self, "_index_names", None)
            if names is None:
                names = ["index"]
            cols = {}
            for j, nm in enumerate(names):
                cols[nm] = from_any([x[j] if isinstance(x, tuple) else x for x in self.index])
            cols.update(self._c)
            r = DataFrame(cols)
        return r

    def set_index(self, key, **k):
        keys = key if isinstance(key, list) else [key]
        idx = [tuple(raw(self._c[q])[i] for q in keys) for i in range(self._n)]
        if len(keys) == 1:
            idx = [x[0] for x in idx]
        r = DataFrame({k: v.copy() for k, v in self._c.items() if k not in keys}, index=idx)
        r._index_names = keys
        return r

    def groupby(self, by, sort=True, as_index=True, **k):
        if isinstance(by, (Series, np.ndarray)):
            r = self.copy()
            r._c["__by"] = from_any(by)
            return GroupBy(r, ["__by"], sort)
        by_list = list(by) if isinstance(by, (list, tuple, _Columns)) else [by]
        return GroupBy(self, by_list, sort, as_index=as_index, squeeze=not isinstance(by, (list, tuple, _Columns)))

    def apply(self, f, axis=0, **k):
        if axis in (1, "columns"):
            return Series([f(_ILoc(self)[i]) for i in range(self._n)], index=self.index)
        return Series([f(self[c]) for c in self._c], index=list(self._c))

    def merge(self, right, how="inner", on=None, **k):
        on = [on] if isinstance(on, str) else list(on)
        if how != "left":
            raise Unsupported("merge how=%s" % how)
        extra = [c for c in right._c if c not in on]
        out = {c: [] for c in list(self._c) + extra}
        for i in range(self._n):
            key = [raw(self._c[o])[i] for o in on]
            hits = [j for j in range(len(right)) if all(truth(core.eq(a, raw(right._c[o])[j])) for a, o in zip(key, on))]
            for j in hits or [None]:
                for c in self._c:
                    out[c].append(raw(self._c[c])[i])
                for c in extra:
                    out[c].append(np.float64(np.nan) if j is None else raw(right._c[c])[j])
        return DataFrame({c: from_any(v) for c, v in out.items()})

    def head(self, n=5):
        return _ILoc(self)[slice(0, n)]

    def itertuples(self, index=True, name="Pandas"):
        for i in range(self._n):
            t = tuple(raw(v)[i] for v in self._c.values())
            yield ((self.index[i],) + t) if index else t


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.divide),
               ("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal),
               ("eq", np.equal), ("ne", np.not_equal), ("and", np.bitwise_and), ("or", np.bitwise_or)):
    setattr(DataFrame, "__%s__" % _n, (lambda u: lambda self, o: self._op(u, o))(_u))
    if _n in ("add", "sub", "mul", "truediv"):
        setattr(DataFrame, "__r%s__" % _n, (lambda u: lambda self, o: self._op(u, o, True))(_u))
DataFrame.__hash__ = None


class GroupBy:
    def __init__(self, df, by, sort=True, select=None, as_index=True, squeeze=False):
        self.df, self.by, self.sort, self.select, self.as_index, self.squeeze = df, by, sort, select, as_index, squeeze
        self._groups = None

    def __getitem__(self, sel):
        if isinstance(sel, (tuple, _Columns)):
            sel = list(sel)
        return GroupBy(self.df, self.by, self.sort, sel, self.as_index, self.squeeze)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self.df._c:
            return self[n]
        raise AttributeError(n)

    def groups_(self):
        """[(key tuple, row positions)], NaN keys dropped; forks on key
        equality and (sort) order."""
        if self._groups is None:
            keys, rows = [], []
            cols = [raw(self.df._c[b]) for b in self.by]
            for i in range(len(self.df)):
                k = tuple(c[i] for c in cols)
                if any(core.isnan_(x) for x in k):
                    continue
                for g, kk in enumerate(keys):
                    if all(truth(core.eq(a, b)) for a, b in zip(k, kk)):
                        rows[g].append(i)
                        break
                else:
                    keys.append(k)
                    rows.append([i])
            order = list(range(len(keys)))
            if self.sort:
                for j in range(len(self.by) - 1, -1, -1):
                    vals = [keys[o][j] for o in order]
                    order = [order[x] for x in snp._argsort1(vals)]
            self._groups = [(keys[o], rows[o]) for o in order]
        return self._groups

    def __iter__(self):
        for k, r in self.groups_():
            yield (k[0] if self.squeeze else k), self._sub(r)

    def __len__(self):
        return len(self.groups_())

    @property
    def ngroups(self):
        return len(self.groups_())

    def _sub(self, rows):
        d = _ILoc(self.df)[np.array(rows, dtype=int)]
        if self.select is None:
            return d
        return d[self.select]

    def _keys(self):
        return [k[0] if len(self.by) == 1 else k for k, _ in self.groups_()]

    def _agg1(self, col, how):
        out = []
        for _, rows in self.groups_():
            v = self.df._c[col][np.array(rows, dtype=int)]
            if callable(how):
                out.append(how(Series(v)))
            elif how == "sum":
                out.append(snp.np_nansum(v))
            elif how == "mean":
                out.append(snp.np_nanmean(v))
            elif how == "median":
                out.append(snp.np_median(v))
            elif how == "min":
                out.append(snp.np_nanmin(v))
            elif how == "max":
                out.append(snp.np_nanmax(v))
            elif how in ("count", "size"):
                out.append(np.int64(len(rows)))
            elif how == "first":
                out.append(v[0])
            elif how == "last":
                out.append(v[-1])
            else:
                raise Unsupported("agg %s" % how)
        return from_any(out)

    def _result(self, cols):
        r = DataFrame(cols, index=self._keys()) if cols else DataFrame(index=self._keys())
        r._index_names = list(self.by)
        if not self.as_index:
            r = r.reset_index()
        return r

    def _all(self, how):
        sel = self.select
        if sel is None:
            return self._result({c: self._agg1(c, how) for c in self.df._c if c not in self.by})
        if isinstance(sel, list):
            return self._result({c: self._agg1(c, how) for c in sel})
        if not self.as_index:
            return self._result({sel: self._agg1(sel, how)})
        r = Series(self._agg1(sel, how), index=self._keys(), name=sel)
        r._index_names = list(self.by)
        return r

    def agg(self, spec=None, **kw):
        if isinstance(spec, dict):
            return self._result({c: self._agg1(c, h) for c, h in spec.items()})
        if kw:
            return self._result({n: self._agg1(c, h) for n, (c, h) in kw.items()})
        return self._all(spec)

    aggregate = agg

    def sum(self, *a, **k):
        return self._all("sum")

    def mean(self, *a, **k):
        return self._all("mean")

    def median(self, *a, **k):
        return self._all("median")

    def min(self, *a, **k):
        return self._all("min")

    def max(self, *a, **k):
        return self._all("max")

    def first(self, *a, **k):
        return self._all("first")

    def count(self, *a, **k):
        return self._all("count")

    def quantile(self, q=0.5, **k):
        return self._all(lambda s: snp.np_quantile(s._v, q))

    def size(self):
        return Series([np.int64(len(r)) for _, r in self.groups_()], index=self._keys())

    def apply(self, f, *args, **kw):
        res = []
        for k, rows in self.groups_():
            sub = self._sub(rows)
            try:
                sub.name = k if len(self.by) > 1 or not self.squeeze else k[0]
            except AttributeError:
                pass
            res.append(f(sub, *args, **kw))
        if res and isinstance(res[0], Series):
            raise Unsupported("groupby.apply returning Series")
        if res and all(isinstance(x, (Sym, int, float, np.generic)) for x in res):
            return Series(from_any(res), index=self._keys())
        return Series(_objarr(res), index=self._keys())

    def transform(self, f, *args, **kw):
        col = self.select
        out = [None] * len(self.df)
        for k, rows in self.groups_():
            v = Series(self.df._c[col][np.array(rows, dtype=int)], index=list(rows))
            v.name = k if len(self.by) > 1 else k[0]
            if isinstance(f, str):
                r = self._agg_series(v, f)
            else:
                r = f(v, *args, **kw)
            if hasattr(r, "_symx_values"):
                r = r._symx_values()
            for j, i in enumerate(rows):
                out[i] = r[j] if isinstance(r, np.ndarray) and r.ndim else r
        for i, x in enumerate(out):
            if x is None:
                out[i] = np.float64(np.nan)
        return Series(from_any(out), index=self.df.index, name=col)

    def _agg_series(self, v, how):
        return {"sum": v.sum, "mean": v.mean, "min": v.min, "max": v.max, "median": v.median}[how]()


def isnull(x):
    if hasattr(x, "isnull"):
        return x.isnull()
    if isinstance(x, Sym):
        return False
    if isinstance(x, np.ndarray):
        return snp.proxy_call(np.isnan, x)
    return real_pd.isnull(x)


def concat(objs, axis=0, ignore_index=False, **k):
    objs = list(objs)
    if axis in (1, "columns"):
        d = {}
        for o in objs:
            if isinstance(o, Series):
                d[o.name] = o._v
            else:
                d.update(o._c)
        return DataFrame(d, index=objs[0].index)
    if all(isinstance(o, Series) for o in objs):
        return Series(snp.np_concatenate([o._v for o in objs]), index=None if ignore_index else sum([o.index for o in objs], []))
    cols = list(objs[0]._c)
    return DataFrame({c: snp.np_concatenate([o._c[c] for o in objs]) for c in cols},
                     index=None if ignore_index else sum([o.index for o in objs], []))


class PandasProxy(types.ModuleType):
    def __init__(self):
        super().__init__("pandas")
        self.DataFrame, self.Series = DataFrame, Series
        self.isnull = self.isna = isnull
        self.notnull = self.notna = lambda x: ~isnull(x) if not isinstance(isnull(x), bool) else not isnull(x)
        self.concat = concat
        self.unique = lambda x: (x if isinstance(x, Series) else Series(x)).unique()

    def __getattr__(self, name):
        return getattr(real_pd, name)


proxy = PandasProxy()
