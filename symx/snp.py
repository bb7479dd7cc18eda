"""numpy for symbolic values.

``SArr`` is a real ``np.ndarray`` (object dtype) whose elements are numpy
scalars or symbolic scalars, so indexing, views, broadcasting and aliasing are
numpy's own.  ``proxy`` is the module object that the code under test receives
for ``import numpy``.
"""
import builtins
import functools
import itertools
import math
import operator
import types

import numpy as np

from symx import core
from symx.core import SB, SF, SI, Sym, Unsupported, cur, is_finite_number, ite, truth

_REALDT = {"f": np.float64, "i": np.int64, "u": np.int64, "b": np.bool_}


def norm_dtype(dt):
    if dt is None:
        return None
    if dt in (float, "float", "f8", "d", "float64", "float32", np.float64, np.float32, np.double):
        return np.float64
    if dt in (int, "int", "i8", "int64", np.int64):
        return np.int64
    if dt in (bool, "bool", np.bool_):
        return np.bool_
    if isinstance(dt, type) and issubclass(dt, builtins.float) and not issubclass(dt, np.generic):
        return np.float64
    if isinstance(dt, type) and issubclass(dt, builtins.int) and not issubclass(dt, (np.generic, bool)):
        return np.int64
    return dt


def norm_scalar(x):
    """Canonical element: numpy scalar, symbolic scalar or any other object."""
    if isinstance(x, (Sym, np.generic)):
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, float):
        return np.float64(x)
    if isinstance(x, int):
        try:
            return np.int64(x)
        except OverflowError:
            return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm_scalar(x.item() if x.dtype != object else x[()])
    return x


def _wrap_int(x, d):
    """Two's complement wrap-around into a narrower integer type."""
    if d.itemsize >= 8 or not isinstance(x, SI):
        return x if isinstance(x, SI) else np.asarray([x]).astype(d)[0]
    lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
    import z3

    if cur().entails(z3.And(x.t >= lo, x.t <= hi)):
        return x
    return SI((x.t - lo) % (hi - lo + 1) + lo)


def cast(x, dt):
    """Element conversion to a nominal dtype."""
    x = norm_scalar(x)
    k = np.dtype(dt).kind
    if k == "O":
        return x
    if isinstance(x, Sym):
        if k == "f":
            return x if isinstance(x, SF) else SF(core.real_term(x))
        if k in "iu":
            return _wrap_int(core.cast_int(x), np.dtype(dt))
        if k == "b":
            return x if isinstance(x, SB) else core.mkb(core.bool_term(x))
        raise Unsupported("cast of a symbol to %s" % dt)
    if k == "f":
        if x is None:
            return np.float64(np.nan)
        return np.float64(x)
    if k == "b":
        return np.bool_(x)
    if k in "iu":
        d = np.dtype(dt)
        if isinstance(x, (float, np.floating)):
            if not math.isfinite(x):
                return np.array([x]).astype(d)[0]
            x = core.cast_int(x)
        if isinstance(x, str):
            x = np.int64(int(x))
        return np.asarray([x]).astype(d)[0]
    if k in "US":
        return str(x)
    raise Unsupported("cast to %s" % dt)


def raw(a):
    """Base-class object view of an SArr / any array."""
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray):
        return a
    return a


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, np.ndarray):
        if a.dtype.kind != "O" and not isinstance(a, SArr):
            return False
        for x in raw(a).flat:
            if isinstance(x, Sym):
                return True
        return False
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    if isinstance(a, dict):
        return any(has_sym(x) for x in a.values())
    if isinstance(a, slice):
        return any(has_sym(x) for x in (a.start, a.stop, a.step))
    return False


def elem_kind(x):
    if isinstance(x, SF):
        return np.dtype(np.float64)
    if isinstance(x, SI):
        return np.dtype(np.int64)
    if isinstance(x, SB):
        return np.dtype(np.bool_)
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, bool):
        return np.dtype(np.bool_)
    if isinstance(x, float):
        return np.dtype(np.float64)
    if isinstance(x, int):
        return np.dtype(np.int64)
    return np.dtype(object)


def infer_dtype(a):
    dts = {elem_kind(x) for x in raw(a).flat}
    if not dts:
        return np.dtype(np.float64)
    if len(dts) == 1:
        return next(iter(dts))
    if any(d.kind == "O" for d in dts):
        return np.dtype(object)
    if all(d.kind in "US" for d in dts):
        return np.result_type(*dts)
    if any(d.kind in "US" for d in dts):
        return np.dtype(object)
    if np.dtype(np.bool_) in dts:
        dts = dts - {np.dtype(np.bool_)} or dts
    return np.result_type(*dts)


def unbox(a):
    """Concrete SArr -> ordinary ndarray of its nominal dtype."""
    if isinstance(a, SArr):
        dt = a.nominal_dtype()
        r = raw(a)
        if has_sym(a):
            raise Unsupported("concrete array needed")
        if dt.kind == "O":
            return r
        out = np.empty(r.shape, dtype=dt)
        of = out.reshape(-1)
        for i, x in enumerate(r.flat):
            of[i] = x
        return out
    if isinstance(a, tuple) and type(a) is tuple:
        return tuple(unbox(x) for x in a)
    if isinstance(a, list):
        return [unbox(x) for x in a]
    if isinstance(a, dict):
        return {k: unbox(v) for k, v in a.items()}
    return a


def box(a):
    """ndarray (any dtype) -> SArr; scalars are canonicalised."""
    if isinstance(a, SArr):
        return a
    if isinstance(a, np.ndarray):
        if isinstance(a, np.ma.MaskedArray):
            raise Unsupported("masked array")
        out = np.empty(a.shape, dtype=object)
        if a.dtype.kind == "O":
            flat = [norm_scalar(x) for x in a.flat]
        else:
            flat = list(a.flat)
        of = out.reshape(-1)
        for i, x in enumerate(flat):
            of[i] = x
        if a.flags.f_contiguous and not a.flags.c_contiguous:
            out = np.asfortranarray(out)
        r = out.view(SArr)
        r._dt = a.dtype if a.dtype.kind != "O" else None
        return r
    return norm_scalar(a)


def box_list(items, shape=None):
    out = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        out[i] = norm_scalar(x)
    r = out.view(SArr)
    r._dt = None
    if shape is not None:
        r = r.reshape(shape)
    return r


def boxres(r):
    """Box whatever a numpy function returned."""
    if isinstance(r, np.ndarray):
        if isinstance(r, SArr):
            return r
        return box(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(boxres(x) for x in r)
    if isinstance(r, list):
        return [boxres(x) for x in r]
    return r


def from_any(x, dtype=None, copy=False):
    """np.array / np.asarray."""
    dtype = norm_dtype(dtype)
    if hasattr(x, "_symx_values"):
        x = x._symx_values()
    if isinstance(x, SArr):
        if dtype is None or np.dtype(dtype) == x.nominal_dtype():
            return x.copy() if copy else x
        return x.astype(dtype)
    if isinstance(x, np.ndarray):
        r = box(x)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, Sym):
        r = np.empty((), dtype=object)
        r[()] = x
        r = r.view(SArr)
        r._dt = None
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, (list, tuple, set, frozenset, range, map, zip)) or (
        hasattr(x, "__iter__") and not isinstance(x, (str, bytes, dict))
    ):
        items = list(x)
        if has_sym(items) or any(isinstance(i, SArr) or hasattr(i, "_symx_values") for i in items):
            subs = [
                from_any(i) if isinstance(i, (list, tuple, np.ndarray)) or hasattr(i, "_symx_values") else norm_scalar(i)
                for i in items
            ]
            if subs and all(isinstance(i, np.ndarray) for i in subs):
                shp = subs[0].shape
                if any(s.shape != shp for s in subs):
                    raise ValueError("inhomogeneous array")
                out = np.empty((len(subs),) + shp, dtype=object)
                for k, s in enumerate(subs):
                    out[k] = raw(s) if s.ndim else s[()]
                r = out.view(SArr)
                r._dt = None
            elif any(isinstance(i, np.ndarray) and i.ndim for i in subs):
                raise ValueError("setting an array element with a sequence")
            else:
                r = box_list([i[()] if isinstance(i, np.ndarray) else i for i in subs])
            dt = infer_dtype(r)
            r = r.astype(dt if dtype is None else dtype)
            return r
        return box(np.array(items, dtype=dtype))
    return box(np.array(x, dtype=dtype))


def _concrete_index(key):
    """Make an index expression concrete, forking where it is symbolic."""
    if isinstance(key, tuple):
        return tuple(_concrete_index(k) for k in key)
    if isinstance(key, Sym):
        if isinstance(key, SB):
            return bool(truth(key))
        return int(key)
    if isinstance(key, slice):
        return slice(*[int(v) if isinstance(v, Sym) else v for v in (key.start, key.stop, key.step)])
    if hasattr(key, "_symx_values"):
        key = key._symx_values()
    if isinstance(key, list) and (has_sym(key) or any(isinstance(k, SArr) for k in key)):
        key = from_any(key)
    if isinstance(key, SArr):
        dt = key.nominal_dtype()
        r = raw(key)
        if dt.kind == "b":
            out = np.empty(r.shape, dtype=bool)
            of = out.reshape(-1)
            for i, x in enumerate(r.flat):
                of[i] = truth(x)
            return out
        if dt.kind in "iu":
            out = np.empty(r.shape, dtype=np.int64)
            of = out.reshape(-1)
            for i, x in enumerate(r.flat):
                of[i] = int(x)
            return out
        if r.size == 0:
            return np.empty(r.shape, dtype=np.int64)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return key


def _gatherable(a):
    return all(is_finite_number(x) for x in raw(a).flat)


class SArr(np.ndarray):
    _dt = None

    def __array_finalize__(self, obj):
        self._dt = getattr(obj, "_dt", None)  # consulted only while empty

    # -- dtype -------------------------------------------------------------- #
    def nominal_dtype(self):
        if self._dt is not None and self.size == 0:
            return np.dtype(self._dt)
        if self.size == 0:
            return np.dtype(np.float64)
        return infer_dtype(self)

    @property
    def dtype(self):
        return self.nominal_dtype()

    @property
    def itemsize(self):
        return self.nominal_dtype().itemsize

    @property
    def nbytes(self):
        return self.nominal_dtype().itemsize * self.size

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(norm_dtype(dtype))
        if not copy and dt == self.nominal_dtype():
            return self
        r = raw(self)
        out = np.empty(r.shape, dtype=object)
        of = out.reshape(-1)
        for i, x in enumerate(r.flat):
            of[i] = cast(x, dt)
        o = out.view(SArr)
        o._dt = dt
        return o

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self, SArr)
        if a and a[0] in (np.ndarray, SArr):
            return np.ndarray.view(self, a[0])
        raise Unsupported("ndarray.view")

    def tolist(self):
        return np.ndarray.tolist(np.ndarray.view(self, np.ndarray))

    def item(self, *args):
        return np.ndarray.view(self, np.ndarray).item(*args)

    def __float__(self):
        return float(self.item())

    # -- indexing ------------------------------------------------------------ #
    def __getitem__(self, key):
        g = self._gather(key)
        if g is not None:
            return g
        key = _concrete_index(key)
        r = np.ndarray.view(self, np.ndarray)[key]
        if isinstance(r, np.ndarray):
            r = np.ndarray.view(r, SArr)
            if r.size == 0:
                r._dt = self.nominal_dtype()
            return r
        return r

    def _gather(self, key):
        """a[i] with symbolic integers i: if-then-else chains, no fork."""
        if self.ndim == 0:
            return None
        if isinstance(key, SI):
            idx = [key]
        elif isinstance(key, SArr) and has_sym(key) and key.nominal_dtype().kind in "iu":
            idx = list(raw(key).flat)
        else:
            return None
        n = self.shape[0]
        rows = raw(self)
        if n == 0 or not _gatherable(self):
            return None
        outs = []
        for i in idx:
            if not isinstance(i, Sym):
                outs.append(rows[i])
                continue
            if not truth(core.and_(core.le(-n, i), core.lt(i, n))):
                raise IndexError("index is out of bounds for axis 0 with size %d" % n)
            if not truth(core.le(0, i)):
                i = core.add(i, n)
            r = rows[n - 1]
            for k in range(n - 2, -1, -1):
                c = core.eq(i, k)
                if self.ndim == 1:
                    r = ite(c, rows[k], r)
                else:
                    r = _ITE(c, rows[k], r)
            outs.append(r)
        if isinstance(key, SI):
            r = outs[0]
            return np.ndarray.view(r, SArr) if isinstance(r, np.ndarray) else r
        out = np.empty((len(outs),) + self.shape[1:], dtype=object)
        for k, r in enumerate(outs):
            out[k] = r
        out = out.reshape(key.shape + self.shape[1:])
        return np.ndarray.view(out, SArr)

    def __setitem__(self, key, value):
        if hasattr(value, "_symx_values"):
            value = value._symx_values()
        dt = self.nominal_dtype()
        me = np.ndarray.view(self, np.ndarray)
        if hasattr(key, "_symx_values"):
            key = key._symx_values()

        def conv(v):
            if isinstance(v, (list, tuple)):
                v = from_any(v)
            if isinstance(v, np.ndarray):
                v = box(v)
                if dt.kind != "O":
                    v = v.astype(dt)
                return raw(v)
            return cast(v, dt) if dt.kind != "O" else norm_scalar(v)

        # symbolic boolean mask, scalar value: merge instead of forking
        if isinstance(key, SArr) and has_sym(key) and key.nominal_dtype().kind == "b":
            v = conv(value)
            scalar = not (isinstance(v, np.ndarray) and v.ndim)
            if scalar and key.shape == self.shape:
                v = v[()] if isinstance(v, np.ndarray) else v
                kr = raw(key)
                for ix in np.ndindex(*self.shape):
                    me[ix] = ite(kr[ix], v, me[ix])
                return
        if isinstance(key, SI) and self.ndim == 1 and _gatherable(self) and is_finite_number(norm_scalar(value)):
            n = self.shape[0]
            if not truth(core.and_(core.le(-n, key), core.lt(key, n))):
                raise IndexError("index is out of bounds")
            if not truth(core.le(0, key)):
                key = core.add(key, n)
            v = conv(value)
            for k in range(n):
                me[k] = ite(core.eq(key, k), v, me[k])
            return
        key = _concrete_index(key)
        v = conv(value)
        if isinstance(v, np.ndarray) and v.size == 1 and isinstance(key, (int, np.integer)) and self.ndim == 1:
            v = v.reshape(())
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        me[key] = v

    # -- arithmetic ---------------------------------------------------------- #
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __bool__(self):
        if self.size == 1:
            return truth(raw(self).flat[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __contains__(self, x):
        return bool((self == x).any())

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def __deepcopy__(self, memo):
        r = np.ndarray.view(np.array(raw(self), copy=True), SArr)
        r._dt = self._dt
        return r

    def copy(self, order="C"):
        r = np.ndarray.view(np.array(raw(self), copy=True, order=order), SArr)
        r._dt = self._dt
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(np.add, self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(np.multiply, self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return reduce_(np.add, self, axis, keepdims) / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis=axis, keepdims=True) if axis is not None else self.mean()
        n = self.size if axis is None else self.shape[axis]
        d = self - m
        return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return proxy_call(np.sqrt, self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.minimum, self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.maximum, self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_and, self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_or, self, axis, keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate_(np.add, self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate_(np.multiply, self, axis)

    def dot(self, o, out=None):
        return dot(self, o)

    def argmin(self, axis=None, out=None, **k):
        return argminmax(self, axis, True)

    def argmax(self, axis=None, out=None, **k):
        return argminmax(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        self[...] = sort(self, axis)

    def round(self, decimals=0, out=None):
        if decimals:
            return around(self, decimals)
        return ufunc_dispatch(np.rint, "__call__", self)

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max, out)

    def nonzero(self):
        return boxres(np.nonzero(_concrete_index(self != 0)))

    def fill(self, v):
        self[...] = v

    def repeat(self, repeats, axis=None):
        r = np.repeat(raw(self), unbox(_concrete_index(repeats) if has_sym(repeats) else repeats), axis)
        return np.ndarray.view(r, SArr)

    def take(self, idx, axis=None, out=None, mode="raise"):
        if axis is None:
            return self.ravel()[idx]
        return np.moveaxis(np.moveaxis(self, axis, 0)[idx], 0, axis)

    def tobytes(self, *a):
        raise Unsupported("tobytes")


def _ITE(c, a, b):
    f = np.frompyfunc(lambda x, y: ite(c, x, y), 2, 1)
    return f(a, b)


# --------------------------------------------------------------------------- #
# ufuncs
# --------------------------------------------------------------------------- #
def _logical(f):
    return f


_ELEM = {
    "add": lambda a, b: core.or_(a, b) if _isb(a) and _isb(b) else core.add(a, b),
    "subtract": core.sub,
    "multiply": lambda a, b: core.and_(a, b) if _isb(a) and _isb(b) else core.mul(a, b),
    "divide": core.div,
    "true_divide": core.div,
    "floor_divide": core.floordiv,
    "remainder": core.mod,
    "mod": core.mod,
    "fmod": core.mod,
    "power": core.pow_,
    "float_power": core.pow_,
    "negative": core.neg,
    "positive": lambda a: a,
    "absolute": core.abs_,
    "fabs": lambda a: cast(core.abs_(a), np.float64),
    "sign": core.sign,
    "rint": core.rint,
    "floor": core.floor,
    "ceil": core.ceil,
    "trunc": lambda a: cast(core.cast_int(a), np.float64) if is_finite_number(a) else a,
    "sqrt": core.sqrt,
    "square": lambda a: core.mul(a, a),
    "reciprocal": lambda a: core.div(1.0, a),
    "exp": core.exp,
    "expm1": core.expm1,
    "log": core.log,
    "log1p": core.log1p,
    "sinh": core.sinh,
    "cosh": core.cosh,
    "tanh": core.tanh,
    "arcsinh": core.arcsinh,
    "arccosh": core.arccosh,
    "sin": lambda a: core.uf("sin", [a], np.sin, lambda v, x, o: [v >= -1, v <= 1]),
    "cos": lambda a: core.uf("cos", [a], np.cos, lambda v, x, o: [v >= -1, v <= 1]),
    "log2": lambda a: core.div(core.log(a), np.log(2.0)),
    "log10": lambda a: core.div(core.log(a), np.log(10.0)),
    "less": core.lt,
    "less_equal": core.le,
    "greater": lambda a, b: core.lt(b, a),
    "greater_equal": lambda a, b: core.le(b, a),
    "equal": core.eq,
    "not_equal": lambda a, b: core.not_(core.eq(a, b)),
    "logical_and": core.and_,
    "logical_or": core.or_,
    "logical_not": core.not_,
    "logical_xor": lambda a, b: core.mkb(core.z3.Xor(core.bool_term(a), core.bool_term(b))),
    "bitwise_and": lambda a, b: core.and_(a, b) if _isb(a) and _isb(b) else a & b,
    "bitwise_or": lambda a, b: core.or_(a, b) if _isb(a) and _isb(b) else a | b,
    "bitwise_xor": lambda a, b: a ^ b,
    "invert": lambda a: core.not_(a) if _isb(a) else ~a,
    "isfinite": lambda a: np.bool_(is_finite_number(a)),
    "isnan": lambda a: np.bool_(core.isnan_(a)),
    "isinf": lambda a: np.bool_((not is_finite_number(a)) and not core.isnan_(a)),
    "maximum": core.maximum,
    "minimum": core.minimum,
    "fmax": lambda a, b: b if core.isnan_(a) else (a if core.isnan_(b) else core.maximum(a, b)),
    "fmin": lambda a, b: b if core.isnan_(a) else (a if core.isnan_(b) else core.minimum(a, b)),
    "copysign": lambda a, b: ite(core.le(0, b), core.abs_(a), core.neg(core.abs_(a))),
    "heaviside": lambda a, b: ite(core.lt(a, 0), 0.0, ite(core.lt(0, a), 1.0, b)),
    "hypot": lambda a, b: core.sqrt(core.add(core.mul(a, a), core.mul(b, b))),
    "logaddexp": lambda a, b: core.log(core.add(core.exp(a), core.exp(b))),
    "conjugate": lambda a: a,
    "signbit": lambda a: core.lt(a, 0),
}
_FORCE_FLOAT = {"divide", "true_divide", "sqrt", "exp", "log", "rint", "floor", "ceil"}


def _isb(a):
    return isinstance(a, (SB, bool, np.bool_))


def _prep(x):
    return raw(_prep_s(x))


def _prep_s(x):
    if hasattr(x, "_symx_values"):
        x = x._symx_values()
    if isinstance(x, (list, tuple)):
        x = from_any(x)
    if isinstance(x, np.ndarray):
        return box(x)
    x = norm_scalar(x)
    a = np.empty((), dtype=object)
    a[()] = x
    return np.ndarray.view(a, SArr)


def _wrapout(r, scalar):
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return norm_scalar(r[()])
        return np.ndarray.view(r, SArr)
    return norm_scalar(r)


_PF = {}


def _elementwise(name, args):
    f = _PF.get((name, len(args)))
    if f is None:
        f = _PF[(name, len(args))] = np.frompyfunc(_ELEM[name], len(args), 1)
    with np.errstate(all="ignore"):
        return f(*args)


def ufunc_dispatch(ufunc, method, *inputs, **kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    dtype = kw.pop("dtype", None)
    if any(hasattr(x, "_symx_container") for x in inputs):
        # a frame drives the operation
        for i, x in enumerate(inputs):
            if hasattr(x, "_symx_container"):
                return x._symx_ufunc(ufunc, i, inputs)
    name = ufunc.__name__
    if method == "reduce":
        axis = kw.pop("axis", 0)
        return _store(reduce_(ufunc, from_any(inputs[0]), axis, kw.pop("keepdims", False)), out)
    if method == "accumulate":
        return _store(accumulate_(ufunc, from_any(inputs[0]), kw.pop("axis", 0)), out)
    if method == "outer":
        a, b = from_any(inputs[0]), from_any(inputs[1])
        return ufunc_dispatch(ufunc, "__call__", a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "at":
        arr, idx = inputs[0], inputs[1]
        ii = _concrete_index(from_any(idx))
        vals = from_any(inputs[2]) if len(inputs) > 2 else None
        for k, i in enumerate(np.asarray(ii).flat):
            if vals is None:
                arr[i] = ufunc_dispatch(ufunc, "__call__", arr[i])
            else:
                v = vals[()] if vals.ndim == 0 else vals[k]
                arr[i] = ufunc_dispatch(ufunc, "__call__", arr[i], v)
        return None
    if method != "__call__":
        raise Unsupported("ufunc method %s.%s" % (name, method))
    args = [_prep_s(x) for x in inputs]
    if not any(has_sym(a) for a in args) and not (core._CUR is not None and cur().symbolic_consts
                                                    and name in ("exp", "log", "sinh", "cosh", "arcsinh", "arccosh")):
        with np.errstate(all="ignore"):
            r = ufunc(*[unbox(a) for a in args], **({"dtype": dtype} if dtype else {}))
        r = boxres(r)
    else:
        if name not in _ELEM:
            raise Unsupported("ufunc %s on symbolic values" % name)
        r = _wrapout(_elementwise(name, [raw(a) for a in args]), False)
    if where is not True:
        w = from_any(where)
        base = out[0] if isinstance(out, tuple) else out
        if base is None:
            raise Unsupported("ufunc where= without out=")
        base[...] = np_where(w, r, base)
        return base
    return _store(r, out)


def _store(r, out):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if isinstance(o, SArr):
        o[...] = r
        return o
    if isinstance(o, np.ndarray):
        if has_sym(r):
            raise Unsupported("symbolic result stored in a foreign array")
        o[...] = unbox(r)
        return o
    return r


_IDENT = {"add": np.float64(0.0), "multiply": np.float64(1.0), "logical_and": np.bool_(True),
          "logical_or": np.bool_(False), "bitwise_and": np.int64(-1), "bitwise_or": np.int64(0)}


def reduce_(ufunc, a, axis=None, keepdims=False):
    a = from_any(a)
    name = ufunc.__name__
    if not has_sym(a):
        with np.errstate(all="ignore"):
            r = boxres(ufunc.reduce(unbox(a), axis=axis, keepdims=keepdims))
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        else:
            r = a
            for ax in sorted([x % a.ndim for x in axis], reverse=True):
                r = reduce_(ufunc, r, ax, keepdims)
            return r
    f = _ELEM[name]
    if name == "add":

        def f(x, y):
            return core.add(core._num(x) if isinstance(x, SB) else _b2i(x), core._num(y) if isinstance(y, SB) else _b2i(y))

    r = raw(a)
    with np.errstate(all="ignore"):
        if axis is None:
            items = list(r.flat)
            v = functools.reduce(f, items[1:], _start(name, items[0]))
            if keepdims:
                o = np.empty((1,) * r.ndim, dtype=object)
                o[...] = v
                return np.ndarray.view(o, SArr)
            return norm_scalar(v)
        axis = axis % r.ndim
        m = np.moveaxis(r, axis, 0)
        out = np.empty(m.shape[1:], dtype=object)
        for ix in np.ndindex(*m.shape[1:]):
            items = [m[(k,) + ix] for k in range(m.shape[0])]
            out[ix] = functools.reduce(f, items[1:], _start(name, items[0])) if items else _IDENT[name]
        if keepdims:
            out = np.expand_dims(out, axis)
        return _wrapout(out, False)


def _b2i(x):
    return np.int64(int(x)) if isinstance(x, (bool, np.bool_)) else x


def _start(name, x):
    if name == "add" and isinstance(x, (SB, bool, np.bool_)):
        return core._num(x) if isinstance(x, SB) else np.int64(int(x))
    if name in ("logical_and", "logical_or") and not _isb(x):
        return core.mkb(core.bool_term(x)) if isinstance(x, Sym) else np.bool_(bool(x))
    return x


def accumulate_(ufunc, a, axis=None):
    a = from_any(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if not has_sym(a):
        return boxres(ufunc.accumulate(unbox(a), axis=axis))
    f = _ELEM[ufunc.__name__]
    r = np.array(raw(a), copy=True)
    m = np.moveaxis(r, axis, 0)
    for ix in np.ndindex(*m.shape[1:]):
        acc = core._num(m[(0,) + ix]) if isinstance(m[(0,) + ix], SB) else m[(0,) + ix]
        m[(0,) + ix] = acc
        for k in range(1, m.shape[0]):
            acc = f(acc, m[(k,) + ix])
            m[(k,) + ix] = acc
    return np.ndarray.view(r, SArr)


# --------------------------------------------------------------------------- #
# functions
# --------------------------------------------------------------------------- #
_OVERRIDES = {}


def override(*names):
    def deco(f):
        for n in names:
            _OVERRIDES[n] = f
        return f

    return deco


def function_dispatch(func, args, kwargs):
    name = func.__name__
    o = _OVERRIDES.get(name)
    if o is not None:
        return o(*args, **kwargs)
    if not has_sym(args) and not has_sym(kwargs):
        with np.errstate(all="ignore"):
            return boxres(func(*unbox_args(args), **unbox_args(kwargs)))
    # generic: numpy's own python implementation on the object arrays
    impl = getattr(func, "__wrapped__", None) or getattr(func, "_implementation", None)
    if impl is None:
        raise Unsupported("numpy.%s on symbolic values" % name)
    try:
        return boxres(impl(*args, **kwargs))
    except TypeError as e:
        raise Unsupported("numpy.%s on symbolic values: %s" % (name, e))


def unbox_args(a):
    if isinstance(a, dict):
        return {k: unbox_args(v) for k, v in a.items()}
    if isinstance(a, (list, tuple)) and type(a) in (list, tuple):
        return type(a)(unbox_args(x) for x in a)
    if hasattr(a, "_symx_values"):
        a = a._symx_values()
    return unbox(a)


def proxy_call(func, *args, **kw):
    """Call a numpy function or ufunc so that symbolic values are honoured and
    results are SArr."""
    if isinstance(func, np.ufunc):
        return ufunc_dispatch(func, "__call__", *args, **kw)
    return function_dispatch(func, args, kw)


@override("where")
def np_where(c, *xy):
    if not xy:
        c = from_any(c)
        return boxres(np.nonzero(_concrete_index(c if c.nominal_dtype().kind == "b" else c != 0)))
    x, y = xy
    c, x, y = _prep(c), _prep(x), _prep(y)
    f = np.frompyfunc(lambda cc, a, b: _where1(cc, a, b), 3, 1)
    r = f(c, x, y)
    r = _wrapout(r, False)
    if isinstance(r, SArr):
        dt = infer_dtype(r)
        if dt.kind == "f":
            r = r.astype(np.float64)
    return r


def _where1(c, a, b):
    if not _isb(c):
        c = core.mkb(core.bool_term(c)) if isinstance(c, Sym) else np.bool_(bool(c))
    return ite(c, a, b)


@override("clip")
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    a = from_any(a)
    r = a
    if a_min is not None:
        r = ufunc_dispatch(np.maximum, "__call__", r, a_min)
    if a_max is not None:
        r = ufunc_dispatch(np.minimum, "__call__", r, a_max)
    if out is not None:
        return _store(r, out)
    return r.copy() if r is a else (r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r)


@override("sum")
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    if where is not None:
        a = np_where(where, a, 0)
    r = _red(np.add, a, axis, bool(keepdims) and keepdims is not np._NoValue)
    if initial is not None and initial is not np._NoValue:
        r = r + initial
    return _store(r, out)


def _red(u, a, axis, keepdims=False):
    if hasattr(a, "_symx_container"):
        a = a._symx_values()
    if isinstance(a, (types.GeneratorType,)):
        a = list(a)
    return reduce_(u, a, axis, keepdims)


@override("prod", "product")
def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _red(np.multiply, a, axis)


@override("amin", "min")
def np_min(a, axis=None, out=None, keepdims=False, **k):
    return _red(np.minimum, a, axis, bool(keepdims) and keepdims is not np._NoValue)


@override("amax", "max")
def np_max(a, axis=None, out=None, keepdims=False, **k):
    return _red(np.maximum, a, axis, bool(keepdims) and keepdims is not np._NoValue)


@override("all", "alltrue")
def np_all(a, axis=None, out=None, keepdims=False, **k):
    return _red(np.logical_and, _boolish(a), axis)


@override("any", "sometrue")
def np_any(a, axis=None, out=None, keepdims=False, **k):
    return _red(np.logical_or, _boolish(a), axis)


def _boolish(a):
    a = from_any(a)
    if a.nominal_dtype().kind == "b":
        return a
    if a.nominal_dtype().kind == "O":
        return a
    return a != 0


@override("cumsum")
def np_cumsum(a, axis=None, dtype=None, out=None):
    return accumulate_(np.add, a, axis)


@override("cumprod")
def np_cumprod(a, axis=None, dtype=None, out=None):
    return accumulate_(np.multiply, a, axis)


def _nan0(a, fill=0.0):
    a = from_any(a)
    r = raw(a)
    out = np.empty(r.shape, dtype=object)
    for ix in np.ndindex(*r.shape):
        out[ix] = np.float64(fill) if core.isnan_(r[ix]) else r[ix]
    return np.ndarray.view(out, SArr)


@override("nansum")
def np_nansum(a, axis=None, **k):
    return reduce_(np.add, _nan0(a), axis)


@override("nancumsum")
def np_nancumsum(a, axis=None, **k):
    return accumulate_(np.add, _nan0(a), axis)


@override("nanprod")
def np_nanprod(a, axis=None, **k):
    return reduce_(np.multiply, _nan0(a, 1.0), axis)


@override("nanmean")
def np_nanmean(a, axis=None, **k):
    a = from_any(a)
    n = reduce_(np.add, ~proxy_call(np.isnan, a), axis)
    return reduce_(np.add, _nan0(a), axis) / n


@override("nanmin")
def np_nanmin(a, axis=None, **k):
    return reduce_(np.fmin, a, axis)


@override("nanmax")
def np_nanmax(a, axis=None, **k):
    return reduce_(np.fmax, a, axis)


_ELEM_RED_EXTRA = None


@override("mean")
def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return from_any(a).mean(axis=axis)


@override("average")
def np_average(a, axis=None, weights=None, returned=False, **k):
    a = from_any(a)
    if weights is None:
        return a.mean(axis=axis)
    w = from_any(weights)
    sw = w.sum(axis=axis) if w.ndim == a.ndim else w.sum()
    if w.ndim != a.ndim and axis is not None:
        a2 = np.moveaxis(a, axis, -1)
        r = (a2 * w).sum(axis=-1)
    else:
        r = (a * w).sum(axis=axis)
    if truth(core.eq(sw, 0)) if not isinstance(sw, np.ndarray) else False:
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return r / sw


@override("var")
def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return from_any(a).var(axis=axis, ddof=ddof)


@override("std")
def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return from_any(a).std(axis=axis, ddof=ddof)


@override("count_nonzero")
def np_count_nonzero(a, axis=None, **k):
    a = from_any(a)
    if a.nominal_dtype().kind != "b":
        a = a != 0
    return reduce_(np.add, a, axis)


@override("dot", "matmul")
def dot(a, b, out=None):
    a, b = from_any(a), from_any(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if not has_sym(a) and not has_sym(b):
        return boxres(np.dot(unbox(a), unbox(b)))
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("shapes not aligned")
        return reduce_(np.add, a * b, None)
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("shapes not aligned")
        return reduce_(np.add, a * b, -1)
    if a.ndim == 1:
        if a.shape[0] != b.shape[-2]:
            raise ValueError("shapes not aligned")
        return reduce_(np.add, a[:, None] * b, 0)
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError("shapes not aligned")
        return reduce_(np.add, a[:, :, None] * b[None, :, :], 1)
    raise Unsupported("dot ndim")


@override("inner", "vdot")
def np_inner(a, b):
    return dot(a, b)


@override("outer")
def np_outer(a, b, out=None):
    a, b = from_any(a).ravel(), from_any(b).ravel()
    return a[:, None] * b[None, :]


@override("einsum")
def np_einsum(spec, *ops, **k):
    ops = [from_any(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        c = {}
        for ch in lhs.replace(",", ""):
            c[ch] = c.get(ch, 0) + 1
        rhs = "".join(sorted(x for x in c if c[x] == 1))
    ins = lhs.split(",")
    if "." in lhs:
        raise Unsupported("einsum ellipsis")
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    sumd = [ch for ch in dims if ch not in rhs]
    out = np.empty([dims[ch] for ch in rhs], dtype=object)
    for ix in np.ndindex(*out.shape):
        env = dict(zip(rhs, ix))
        acc = None
        for jx in itertools.product(*[range(dims[ch]) for ch in sumd]):
            env.update(zip(sumd, jx))
            p = None
            for s, o in zip(ins, ops):
                v = raw(o)[tuple(env[ch] for ch in s)]
                p = v if p is None else core.mul(p, v)
            acc = p if acc is None else core.add(acc, p)
        out[ix] = acc if acc is not None else np.float64(0)
    return _wrapout(out, False)


@override("convolve")
def np_convolve(a, v, mode="full"):
    a, v = from_any(a), from_any(v)
    if len(v) > len(a):
        a, v = v, a
    na, nv = len(a), len(v)
    ra, rv_ = raw(a), raw(v)
    full = []
    for i in range(na + nv - 1):
        acc = None
        for j in range(nv):
            k = i - j
            if 0 <= k < na:
                p = core.mul(ra[k], rv_[j])
                acc = p if acc is None else core.add(acc, p)
        full.append(acc)
    if mode == "full":
        return box_list(full)
    if mode == "same":
        s = (nv - 1) // 2
        return box_list(full[s: s + na])
    return box_list(full[nv - 1: na])


@override("bincount")
def np_bincount(x, weights=None, minlength=0):
    x = from_any(x)
    if x.ndim != 1:
        raise ValueError("object of too small depth for desired array")
    if x.size and x.nominal_dtype().kind not in "iub":
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    minlength = int(minlength)
    xs = list(raw(x))
    for v in xs:
        if truth(core.lt(v, 0)):
            raise ValueError("'list' argument must have no negative elements")
    symx = any(isinstance(v, Sym) for v in xs)
    if symx:
        # the length depends on the largest value: fork on "exceeds minlength"
        n = minlength
        for v in xs:
            if not truth(core.lt(v, n)):
                iv = int(v)
                n = max(n, iv + 1)
    else:
        n = max([minlength] + [int(v) + 1 for v in xs])
    if weights is None:
        ws = [np.int64(1)] * len(xs)
        zero = np.int64(0)
    else:
        w = from_any(weights).ravel()
        if len(w) != len(xs):
            raise ValueError("The weights and list don't have the same length.")
        ws = [cast(v, np.float64) for v in raw(w)]
        zero = np.float64(0.0)
    out = [zero] * n
    with np.errstate(all="ignore"):
        for v, wt in zip(xs, ws):
            if isinstance(v, Sym):
                for k in range(n):
                    c = core.eq(v, k)
                    if isinstance(c, Sym):
                        if is_finite_number(wt):
                            out[k] = core.add(out[k], ite(c, wt, zero))
                        elif truth(c):
                            out[k] = core.add(out[k], wt)
                    elif c:
                        out[k] = core.add(out[k], wt)
            else:
                out[int(v)] = core.add(out[int(v)], wt)
    r = box_list(out)
    r._dt = np.dtype(np.float64 if weights is not None else np.int64)
    return r


def _nan_last_lt(a, b):
    """Strict order with NaN last, concrete (forks)."""
    if core.isnan_(a):
        return False
    if core.isnan_(b):
        return True
    return truth(core.lt(a, b))


def _argsort1(vals):
    """Stable insertion sort (binary insertion), forks on comparisons."""
    order = []
    for i, v in enumerate(vals):
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi) // 2
            if _nan_last_lt(v, vals[order[mid]]):
                hi = mid
            else:
                lo = mid + 1
        order.insert(lo, i)
    return order


@override("argsort")
def argsort(a, axis=-1, kind=None, order=None, **k):
    a = from_any(a)
    if not has_sym(a):
        return boxres(np.argsort(unbox(a), axis=axis, kind="stable"))
    if a.ndim != 1:
        raise Unsupported("argsort of a matrix")
    # numpy's default sort is not stable: ties may come out in any order; the
    # stable order is used and properties must not depend on it
    return box(np.array(_argsort1(list(raw(a))), dtype=np.int64))


@override("sort")
def sort(a, axis=-1, kind=None, order=None, **k):
    a = from_any(a)
    if not has_sym(a):
        return boxres(np.sort(unbox(a), axis=axis))
    if a.ndim != 1:
        r = a.copy()
        m = np.moveaxis(raw(r), axis, -1)
        for ix in np.ndindex(*m.shape[:-1]):
            v = list(m[ix])
            m[ix] = [v[i] for i in _argsort1(v)]
        return r
    v = list(raw(a))
    return box_list([v[i] for i in _argsort1(v)])


@override("unique")
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = from_any(a)
    if not has_sym(a):
        return boxres(np.unique(unbox(a), return_index, return_inverse, return_counts, axis))
    if axis is not None:
        raise Unsupported("unique axis")
    v = list(raw(a).flat)
    order = _argsort1(v)
    uniq, idx, inv, cnt = [], [], [0] * len(v), []
    for i in order:
        same = bool(uniq) and (
            (core.isnan_(uniq[-1]) and core.isnan_(v[i])) or (not core.isnan_(v[i]) and truth(core.eq(uniq[-1], v[i])))
        )
        if same:
            cnt[-1] += 1
        else:
            uniq.append(v[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(uniq) - 1
    r = [box_list(uniq)]
    if return_index:
        r.append(box(np.array(idx, dtype=np.int64)))
    if return_inverse:
        r.append(box(np.array(inv, dtype=np.int64)))
    if return_counts:
        r.append(box(np.array(cnt, dtype=np.int64)))
    return r[0] if len(r) == 1 else tuple(r)


def argminmax(a, axis, is_min):
    a = from_any(a)
    if not has_sym(a):
        f = np.argmin if is_min else np.argmax
        return boxres(f(unbox(a), axis=axis))
    if axis is None:
        a = a.ravel()
    elif a.ndim > 1:
        m = np.moveaxis(raw(a), axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = argminmax(box_list(list(m[ix])), None, is_min)
        return np.ndarray.view(out, SArr)
    v = list(raw(a))
    for i, x in enumerate(v):
        if core.isnan_(x):
            return np.int64(i)
    best = 0
    for i in range(1, len(v)):
        c = core.lt(v[i], v[best]) if is_min else core.lt(v[best], v[i])
        if truth(c):
            best = i
    return np.int64(best)


@override("argmin")
def np_argmin(a, axis=None, out=None, **k):
    return argminmax(a, axis, True)


@override("argmax")
def np_argmax(a, axis=None, out=None, **k):
    return argminmax(a, axis, False)


@override("isclose")
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _prep(a), _prep(b)

    def f(x, y):
        if not is_finite_number(x) or not is_finite_number(y):
            if core.isnan_(x) or core.isnan_(y):
                return np.bool_(equal_nan and core.isnan_(x) and core.isnan_(y))
            return core.eq(x, y)
        return core.le(core.abs_(core.sub(x, y)), core.add(atol, core.mul(rtol, core.abs_(y))))

    return _wrapout(np.frompyfunc(f, 2, 1)(a, b), False)


@override("allclose")
def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    return truth(np_all(r))


@override("array_equal")
def np_array_equal(a, b, equal_nan=False):
    a, b = from_any(a), from_any(b)
    if a.shape != b.shape:
        return False
    return truth(np_all(a == b)) if a.size else True


@override("isin", "in1d")
def np_isin(el, test, **k):
    el = from_any(el)
    t = list(raw(from_any(test)).flat)
    r = raw(el)
    out = np.empty(r.shape, dtype=object)
    for ix in np.ndindex(*r.shape):
        c = np.bool_(False)
        for x in t:
            c = core.or_(c, core.eq(r[ix], x))
        out[ix] = core.not_(c) if k.get("invert") else c
    return np.ndarray.view(out, SArr)


@override("digitize")
def np_digitize(x, bins, right=False):
    x, bins = from_any(x), from_any(bins)
    bl = list(raw(bins))
    n = len(bl)
    for i in range(n - 1):
        if truth(core.lt(bl[i + 1], bl[i])):
            raise Unsupported("digitize with decreasing bins")
    side = "left" if right else "right"
    return np_searchsorted(bins, x, side)


@override("searchsorted")
def np_searchsorted(a, v, side="left", sorter=None):
    a = from_any(a)
    if sorter is not None:
        a = a[sorter]
    al = list(raw(a))
    scalar = not isinstance(v, (np.ndarray, list, tuple)) and not hasattr(v, "_symx_values")
    vv = _prep(v)

    def f(x):
        if core.isnan_(x):
            k = len(al)
            if side == "left":
                while k and core.isnan_(al[k - 1]):
                    k -= 1
            return np.int64(k)
        c = np.int64(0)
        for y in al:
            if core.isnan_(y):
                t = np.bool_(False)
            else:
                t = core.lt(y, x) if side == "left" else core.le(y, x)
            c = core.add(c, core._num(t) if isinstance(t, SB) else np.int64(int(t)))
        return c

    return _wrapout(np.frompyfunc(f, 1, 1)(vv), scalar)


@override("interp")
def np_interp(x, xp, fp, left=None, right=None, period=None):
    xl, fl = list(raw(from_any(xp))), list(raw(from_any(fp)))

    def f(v):
        if core.isnan_(v):
            return np.float64(np.nan)
        if truth(core.lt(v, xl[0])):
            return fl[0] if left is None else left
        if truth(core.lt(xl[-1], v)):
            return fl[-1] if right is None else right
        if truth(core.eq(v, xl[-1])):
            return fl[-1]
        for i in range(len(xl) - 1):
            if truth(core.lt(v, xl[i + 1])):
                sl = core.div(core.sub(fl[i + 1], fl[i]), core.sub(xl[i + 1], xl[i]))
                return core.add(core.mul(sl, core.sub(v, xl[i])), fl[i])
        return fl[-1]

    return _wrapout(np.frompyfunc(f, 1, 1)(_prep(x)), False)


def _quantile1(v, q):
    v = [v[i] for i in _argsort1(v)]
    if any(core.isnan_(x) for x in v):
        return np.float64(np.nan)
    n = len(v)
    pos = core.mul(q, n - 1)
    k = core.floor_si(pos)
    k = int(k)
    k = min(max(k, 0), n - 1)
    fr = core.sub(pos, k)
    if k + 1 >= n:
        return v[k]
    return core.add(v[k], core.mul(core.sub(v[k + 1], v[k]), fr))


@override("quantile")
def np_quantile(a, q, axis=None, **k):
    a = from_any(a)
    if not has_sym(a) and not has_sym(q):
        return boxres(np.quantile(unbox(a), unbox(q), axis=axis))
    if axis is not None and a.ndim > 1:
        raise Unsupported("quantile axis")
    if isinstance(q, (list, tuple, np.ndarray)) and np.ndim(q):
        return box_list([_quantile1(list(raw(a).flat), x) for x in raw(from_any(q))])
    return _quantile1(list(raw(a).flat), q if not isinstance(q, np.ndarray) else q[()])


@override("percentile")
def np_percentile(a, q, axis=None, **k):
    return np_quantile(a, from_any(q) / 100.0 if np.ndim(q) else core.div(q, 100.0), axis)


@override("median")
def np_median(a, axis=None, **k):
    a = from_any(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("median axis")
    return _quantile1(list(raw(a).flat), 0.5)


@override("concatenate")
def np_concatenate(arrs, axis=0, out=None, **k):
    arrs = [from_any(a) for a in arrs]
    dts = [a.nominal_dtype() for a in arrs if a.size]
    r = np.concatenate([raw(a) for a in arrs], axis=axis)
    r = np.ndarray.view(r, SArr)
    if dts and len(set(dts)) > 1 and all(d.kind in "fiub" for d in dts):
        r = r.astype(np.result_type(*dts))
    return r


@override("append")
def np_append(arr, values, axis=None):
    arr, values = from_any(arr), from_any(values)
    if axis is None:
        return np_concatenate([arr.ravel(), values.ravel()])
    return np_concatenate([arr, values], axis)


@override("insert")
def np_insert(arr, obj, values, axis=None):
    arr = from_any(arr)
    v = box(values) if isinstance(values, np.ndarray) else norm_scalar(values)
    o = _concrete_index(from_any(obj)) if isinstance(obj, (list, tuple, np.ndarray)) else int(obj)
    vr = raw(v) if isinstance(v, np.ndarray) else v
    if isinstance(values, (list, tuple)):
        vr = raw(from_any(values))
    if not isinstance(vr, np.ndarray):
        a0 = np.empty((), dtype=object)
        a0[()] = vr
        vr = a0
    r = np.insert(raw(arr), o, vr, axis)
    r = np.ndarray.view(r, SArr)
    dt = arr.nominal_dtype()
    if arr.size and dt.kind in "fiub":
        r = r.astype(dt)
    return r


@override("delete")
def np_delete(arr, obj, axis=None):
    o = obj
    if isinstance(obj, (list, tuple, np.ndarray)):
        o = _concrete_index(from_any(obj))
    return np.ndarray.view(np.delete(raw(from_any(arr)), o, axis), SArr)


@override("repeat")
def np_repeat(a, repeats, axis=None):
    rep = repeats
    if has_sym(rep):
        rep = _concrete_index(from_any(rep)) if isinstance(rep, (np.ndarray, list)) else int(rep)
    rep = unbox(rep) if isinstance(rep, np.ndarray) else rep
    return np.ndarray.view(np.repeat(raw(from_any(a)), rep, axis), SArr)


@override("tile")
def np_tile(a, reps):
    return np.ndarray.view(np.tile(raw(from_any(a)), reps), SArr)


@override("split", "array_split")
def np_split(a, sections, axis=0):
    s = _concrete_index(from_any(sections)) if isinstance(sections, (list, np.ndarray, tuple)) else sections
    return [np.ndarray.view(x, SArr) for x in np.split(raw(from_any(a)), s, axis)]


@override("diff")
def np_diff(a, n=1, axis=-1, **k):
    a = from_any(a)
    for _ in range(n):
        if a.ndim != 1:
            m = np.moveaxis(a, axis, 0)
            a = np.moveaxis(m[1:] - m[:-1], 0, axis)
        else:
            a = a[1:] - a[:-1]
    return a


@override("around", "round", "round_")
def around(a, decimals=0, out=None):
    if decimals:
        s = 10.0**decimals
        return ufunc_dispatch(np.rint, "__call__", from_any(a) * s) / s
    if not isinstance(a, np.ndarray):
        return ufunc_dispatch(np.rint, "__call__", a)
    if isinstance(a, np.ndarray) and from_any(a).nominal_dtype().kind in "iu":
        return from_any(a)
    return ufunc_dispatch(np.rint, "__call__", from_any(a))


@override("nan_to_num")
def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    r = raw(from_any(x))
    out = np.empty(r.shape, dtype=object)
    big = np.finfo(np.float64).max
    for ix in np.ndindex(*r.shape):
        v = r[ix]
        if core.isnan_(v):
            v = np.float64(nan)
        elif not is_finite_number(v):
            v = np.float64((big if posinf is None else posinf) if v > 0 else (-big if neginf is None else neginf))
        out[ix] = v
    return _wrapout(out, False)


@override("shape")
def np_shape(a):
    return from_any(a).shape


@override("ndim")
def np_ndim(a):
    return a.ndim if hasattr(a, "ndim") else np.ndim(a)


@override("size")
def np_size(a, axis=None):
    a = from_any(a)
    return a.size if axis is None else a.shape[axis]


def _viewfn(name):
    def f(a, *args, **k):
        return np.ndarray.view(getattr(np, name)(raw(from_any(a)), *args, **k), SArr)

    return f


for _n in ("reshape", "ravel", "squeeze", "transpose", "moveaxis", "swapaxes", "expand_dims", "atleast_1d",
           "atleast_2d", "flip", "flipud", "fliplr", "roll", "broadcast_to", "diag", "triu", "tril", "rollaxis",
           "resize", "rot90", "diagonal"):
    _OVERRIDES[_n] = _viewfn(_n)


def _stackfn(name):
    def f(arrs, *args, **k):
        arrs = [from_any(a) for a in arrs]
        dts = {a.nominal_dtype() for a in arrs if a.size}
        r = np.ndarray.view(getattr(np, name)([raw(a) for a in arrs], *args, **k), SArr)
        if len(dts) > 1 and all(d.kind in "fiub" for d in dts):
            r = r.astype(np.result_type(*dts))
        return r

    return f


for _n in ("hstack", "vstack", "stack", "column_stack", "dstack", "row_stack"):
    _OVERRIDES[_n] = _stackfn(_n)


@override("copyto")
def np_copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = np_where(where, src, dst)


@override("take")
def np_take(a, idx, axis=None, **k):
    return from_any(a).take(from_any(idx) if isinstance(idx, (list, np.ndarray)) else idx, axis)


@override("nonzero")
def np_nonzero(a):
    return from_any(a).nonzero()


@override("flatnonzero")
def np_flatnonzero(a):
    return from_any(a).ravel().nonzero()[0]


@override("argwhere")
def np_argwhere(a):
    return boxres(np.argwhere(_concrete_index(from_any(a) != 0)))


@override("trapz")
def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = from_any(y)
    d = dx if x is None else np_diff(from_any(x))
    return ((y[1:] + y[:-1]) * d / 2.0).sum()


@override("ptp")
def np_ptp(a, axis=None, **k):
    return reduce_(np.maximum, a, axis) - reduce_(np.minimum, a, axis)


@override("select")
def np_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = np_where(c, v, r)
    return r


@override("lexsort")
def np_lexsort(keys, axis=-1):
    keys = [list(raw(from_any(k))) for k in keys]
    n = len(keys[0])
    order = list(range(n))
    for k in keys:
        vals = [k[i] for i in order]
        order = [order[i] for i in _argsort1(vals)]
    return box(np.array(order, dtype=np.int64))


@override("histogram")
def np_histogram(a, bins=10, **k):
    raise Unsupported("histogram of symbolic values")


@override("polyval")
def np_polyval(p, x):
    r = np.float64(0.0)
    for c in raw(from_any(p)):
        r = r * x + c
    return r


@override("meshgrid")
def np_meshgrid(*xs, **k):
    return [np.ndarray.view(x.copy(), SArr) for x in np.meshgrid(*[raw(from_any(x)) for x in xs], **k)]


@override("apply_along_axis")
def np_apply_along_axis(f, axis, arr, *a, **k):
    arr = from_any(arr)
    m = np.moveaxis(arr, axis, -1)
    res = [f(m[ix], *a, **k) for ix in np.ndindex(*m.shape[:-1])]
    r = from_any(res)
    return r.reshape(m.shape[:-1] + r.shape[1:])


@override("may_share_memory", "shares_memory")
def np_share(a, b, *r):
    return np.shares_memory(raw(a), raw(b))


@override("isreal")
def np_isreal(a):
    return full(np.shape(a), True)


# --------------------------------------------------------------------------- #
# creation (only reached through the proxy)
# --------------------------------------------------------------------------- #
def full(shape, fill, dtype=None, order="C", **k):
    shape = _shape(shape)
    out = np.empty(shape, dtype=object, order=order)
    if isinstance(fill, (np.ndarray, list, tuple)) and np.ndim(fill):
        r = np.ndarray.view(out, SArr)
        out[...] = raw(from_any(fill, dtype))
        return r
    v = fill[()] if isinstance(fill, np.ndarray) else fill
    v = norm_scalar(v) if dtype is None else cast(v, np.dtype(norm_dtype(dtype)))
    of = out.reshape(-1) if out.ndim else None
    if of is None:
        out[()] = v
    else:
        for i in range(of.size):
            of[i] = v
    if order == "F" and of is not None:
        for ix in np.ndindex(*out.shape):
            out[ix] = v
    r = np.ndarray.view(out, SArr)
    r._dt = np.dtype(norm_dtype(dtype)) if dtype is not None else elem_kind(v)
    return r


def _shape(s):
    if isinstance(s, Sym):
        return (int(s),)
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in raw(s))
    return (int(s),)


def c_empty(shape, dtype=float, order="C", **k):
    dt = np.dtype(norm_dtype(dtype) or np.float64)
    r = full(shape, dt.type(0) if dt.kind in "fiub" else None, dtype=dt if dt.kind in "fiub" else object, order=order)
    e = core._CUR
    if e is not None and dt.kind in "f":
        # uninitialised memory: arbitrary values
        me = raw(r)
        for ix in np.ndindex(*me.shape):
            me[ix] = SF(e.fresh("uninit", core.z3.RealSort()))
    return r


def c_zeros(shape, dtype=float, order="C", **k):
    dt = norm_dtype(dtype) or np.float64
    return full(shape, 0, dtype=dt, order=order)


def c_ones(shape, dtype=float, order="C", **k):
    dt = norm_dtype(dtype) or np.float64
    return full(shape, 1, dtype=dt, order=order)


def _like_dt(a, dtype):
    return norm_dtype(dtype) if dtype is not None else from_any(a).nominal_dtype()


def c_zeros_like(a, dtype=None, **k):
    return full(np_shape(a), 0, dtype=_like_dt(a, dtype))


def c_ones_like(a, dtype=None, **k):
    return full(np_shape(a), 1, dtype=_like_dt(a, dtype))


def c_full_like(a, fill, dtype=None, **k):
    return full(np_shape(a), fill, dtype=_like_dt(a, dtype))


def c_empty_like(a, dtype=None, **k):
    return c_empty(np_shape(a), dtype=_like_dt(a, dtype))


def c_array(x, dtype=None, copy=True, ndmin=0, **k):
    r = from_any(x, dtype, copy=copy)
    while r.ndim < ndmin:
        r = r[None]
    return r


def c_asarray(x, dtype=None, order=None, **k):
    r = from_any(x, dtype)
    if order == "F":
        r = np.ndarray.view(np.asfortranarray(raw(r)), SArr)
    return r


def c_ascontiguousarray(x, dtype=None, **k):
    r = from_any(x, dtype)
    if r.ndim == 0:
        r = r.reshape(1)
    if not raw(r).flags.c_contiguous:
        r = np.ndarray.view(np.ascontiguousarray(raw(r)), SArr)
    return r


def c_asfortranarray(x, dtype=None, **k):
    return np.ndarray.view(np.asfortranarray(raw(from_any(x, dtype))), SArr)


def c_arange(*a, dtype=None, **k):
    a = [int(x) if isinstance(x, Sym) else x for x in a]
    return box(np.arange(*a, dtype=norm_dtype(dtype)))


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, **k):
    if not has_sym((start, stop)):
        return boxres(np.linspace(unbox(start), unbox(stop), int(num), endpoint, retstep))
    n = int(num)
    d = n - 1 if endpoint else n
    step = core.div(core.sub(stop, start), d) if d > 0 else np.float64(np.nan)
    r = box_list([core.add(start, core.mul(i, step)) if not (endpoint and i == n - 1 and n > 1) else stop for i in range(n)])
    r = r.astype(np.float64)
    return (r, step) if retstep else r


class _RC:
    def __init__(self, real, axis):
        self.real, self.axis = real, axis

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        items = []
        for k in key:
            if isinstance(k, slice):
                k = self.real[k] if self.axis == 0 else np.r_[k]
                items.append(box(k))
            elif isinstance(k, str):
                raise Unsupported("r_ directive")
            else:
                items.append(from_any(k) if not isinstance(k, Sym) else box_list([k]))
        if self.axis == 0:
            return np_concatenate([x.reshape(-1) if x.ndim == 0 else x for x in items])
        cols = []
        for x in items:
            if x.ndim == 0:
                x = x.reshape(1, 1)
            elif x.ndim == 1:
                x = x.reshape(-1, 1)
            cols.append(x)
        return np_concatenate(cols, axis=-1)


def c_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def c_vectorize(f, *a, **k):
    def g(*args):
        return _wrapout(np.frompyfunc(f, len(args), 1)(*[_prep(x) for x in args]), False)

    return g


def c_errstate(**k):
    return np.errstate(**k)


def c_fromiter(it, dtype=None, count=-1, **k):
    return from_any(list(it), dtype)


def c_iinfo(t):
    return np.iinfo(norm_dtype(t))


def c_polyfit(x, y, deg, *a, **k):
    if has_sym(x) or has_sym(y) or any(has_sym(v) for v in k.values()):
        if deg not in (0, 1) or a or set(k) - {"w"}:
            raise Unsupported("polyfit")
        xs, ys = list(raw(from_any(x))), list(raw(from_any(y)))
        ws = [1.0] * len(xs) if k.get("w") is None else [v * v for v in raw(from_any(k["w"]))]

        def tot(vs):
            r = np.float64(0.0)
            for v in vs:
                r = r + v
            return r
        sw, sy = tot(ws), tot([a * b for a, b in zip(ws, ys)])
        if deg == 0:
            return box_list([sy / sw])
        sx, sxx = tot([a * b for a, b in zip(ws, xs)]), tot([a * b * b for a, b in zip(ws, xs)])
        sxy = tot([a * b * c for a, b, c in zip(ws, xs, ys)])
        det = sw * sxx - sx * sx
        return box_list([(sw * sxy - sx * sy) / det, (sxx * sy - sx * sxy) / det])
    return boxres(np.polyfit(unbox(x), unbox(y), deg, *a, **k))


_CREATE = {
    "full": full, "empty": c_empty, "zeros": c_zeros, "ones": c_ones, "zeros_like": c_zeros_like,
    "ones_like": c_ones_like, "full_like": c_full_like, "empty_like": c_empty_like, "array": c_array,
    "asarray": c_asarray, "asanyarray": c_asarray, "ascontiguousarray": c_ascontiguousarray,
    "asfortranarray": c_asfortranarray, "asfarray": lambda a, dtype=np.float64: c_asarray(a, np.float64),
    "arange": c_arange, "linspace": c_linspace, "r_": _RC(np.r_, 0), "c_": _RC(np.c_, 1), "isscalar": c_isscalar,
    "vectorize": c_vectorize, "fromiter": c_fromiter, "iinfo": c_iinfo, "polyfit": c_polyfit,
}


class NumpyProxy(types.ModuleType):
    """What the code under test gets for ``import numpy``."""

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        v = self._resolve(name)
        c[name] = v
        return v

    def _resolve(self, name):
        if name in _CREATE:
            return _CREATE[name]
        if name == "matrix":
            raise Unsupported("np.matrix")
        if name in _OVERRIDES:
            return _OVERRIDES[name]
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            return _UfuncProxy(real)
        if isinstance(real, types.ModuleType):
            return _SubProxy(real, name)
        if isinstance(real, type):
            return real
        if callable(real):
            return functools.wraps(real)(lambda *a, **k: function_dispatch(real, a, k))
        return real


class _UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__
        self.nin = u.nin

    def __call__(self, *a, **k):
        n = self._u.nin
        if len(a) > n:
            k["out"] = a[n]
            a = a[:n]
        return ufunc_dispatch(self._u, "__call__", *a, **k)

    def reduce(self, a, axis=0, **k):
        return ufunc_dispatch(self._u, "reduce", a, axis=axis, **k)

    def accumulate(self, a, axis=0, **k):
        return ufunc_dispatch(self._u, "accumulate", a, axis=axis, **k)

    def outer(self, a, b, **k):
        return ufunc_dispatch(self._u, "outer", a, b)

    def at(self, *a):
        return ufunc_dispatch(self._u, "at", *a)


class _SubProxy(types.ModuleType):
    def __init__(self, real, name):
        super().__init__("numpy." + name)
        self._real = real

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if has_sym(a) or has_sym(k):
                    alt = _LINALG.get(name)
                    if alt is not None:
                        return alt(*a, **k)
                    raise Unsupported("%s.%s on symbolic values" % (self.__name__, name))
                return boxres(v(*unbox_args(a), **unbox_args(k)))

            return f
        return v


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm")
    x = from_any(x).ravel()
    return core.sqrt((x * x).sum())


def _solve(a, b):
    """Cramer / Gaussian elimination with symbolic pivots (forks on zero)."""
    a, b = from_any(a).astype(np.float64), from_any(b).astype(np.float64)
    n = a.shape[0]
    A = [[a[i, j] for j in range(n)] for i in range(n)]
    B = [b[i] for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if truth(core.not_(core.eq(A[r][c], 0))):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[c], A[p] = A[p], A[c]
        B[c], B[p] = B[p], B[c]
        for r in range(c + 1, n):
            f = A[r][c] / A[c][c]
            A[r] = [A[r][k] - f * A[c][k] for k in range(n)]
            B[r] = B[r] - f * B[c]
    x = [None] * n
    for i in range(n - 1, -1, -1):
        s = B[i]
        for k in range(i + 1, n):
            s = s - A[i][k] * x[k]
        x[i] = s / A[i][i]
    return from_any(x)


_LINALG = {"norm": _norm, "solve": _solve}

proxy = NumpyProxy()
