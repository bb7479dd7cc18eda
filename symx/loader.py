"""Imports the package under test from /repo's working tree so that its
``numpy``, ``pandas``, ``numexpr``, ``numba``, ``math`` and ``scipy`` resolve to the symbolic
versions.  The sources themselves are executed unchanged."""
import builtins
import importlib
import importlib.abc
import importlib.machinery
import math
import os
import sys
import types

import numpy as np

from symx import core, snp, spd
from symx.core import SB, SF, SI, Sym, Unsupported, cur, truth

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "cyclic_boosting"


# --------------------------------------------------------------------------- #
# numexpr
# --------------------------------------------------------------------------- #
def _ne_env():
    p = snp.proxy
    return {
        "exp": p.exp, "log": p.log, "sqrt": p.sqrt, "abs": p.absolute, "where": p.where, "sum": p.sum, "prod": p.prod,
        "min": p.min, "max": p.max, "log1p": p.log1p, "expm1": p.expm1, "sinh": p.sinh, "cosh": p.cosh,
        "arcsinh": p.arcsinh, "arccosh": p.arccosh, "floor": p.floor, "ceil": p.ceil, "sin": p.sin, "cos": p.cos,
        "tanh": p.tanh, "log10": p.log10, "True": True, "False": False, "isnan": p.isnan,
    }


def ne_evaluate(ex, local_dict=None, global_dict=None, out=None, order="K", casting="safe", **kw):
    frame = sys._getframe(1)
    env = _ne_env()
    names = dict(frame.f_globals if global_dict is None else global_dict)
    names.update(frame.f_locals if local_dict is None else local_dict)
    ns = {}
    code = compile(" ".join(ex.split()).strip(), "<numexpr>", "eval")
    for n in code.co_names:
        if n in env and not (n in names and n not in env):
            ns[n] = env[n]
        elif n in names:
            v = names[n]
            if hasattr(v, "_symx_values"):
                v = v._symx_values()
            ns[n] = v
        else:
            raise KeyError(n)
    with np.errstate(all="ignore"):
        r = eval(code, {"__builtins__": {}}, ns)
    r = snp.from_any(r)
    if out is not None:
        out[...] = r
        return out
    return r if r.ndim else r


class _Num(types.ModuleType):
    def __init__(self):
        super().__init__("numexpr")
        self.evaluate = ne_evaluate
        self.set_num_threads = lambda n: 1


# --------------------------------------------------------------------------- #
# numba: the python functions themselves
# --------------------------------------------------------------------------- #
def _identity_jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], str) and not k:
        return a[0]

    def deco(f):
        return f

    return deco


class _Numba(types.ModuleType):
    def __init__(self):
        super().__init__("numba")
        self.jit = self.njit = self.generated_jit = _identity_jit
        self.vectorize = lambda *a, **k: (lambda f: snp.c_vectorize(f)) if not (a and callable(a[0])) else snp.c_vectorize(a[0])
        self.prange = range

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class _Any:
    """Stands for numba types in signatures (nb.float64[:] ...)."""

    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        return self


# --------------------------------------------------------------------------- #
# math
# --------------------------------------------------------------------------- #
class _Math(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        real = getattr(math, n)
        tab = {"sqrt": core.sqrt, "exp": core.exp, "log": core.log, "sinh": core.sinh, "cosh": core.cosh,
               "asinh": core.arcsinh, "acosh": core.arccosh, "fabs": core.abs_, "log1p": core.log1p}
        if not callable(real):
            return real

        def f(*a):
            if not any(isinstance(x, (Sym, snp.SArr)) for x in a):
                return real(*a)
            a = [x[()] if isinstance(x, snp.SArr) and x.ndim == 0 else x for x in a]
            if n in tab and len(a) == 1:
                return tab[n](a[0])
            if n == "isnan":
                return core.isnan_(a[0])
            if n == "isfinite":
                return core.is_finite_number(a[0])
            if n == "isinf":
                return not core.is_finite_number(a[0]) and not core.isnan_(a[0])
            if n == "floor":
                return core.floor_si(a[0])
            if n == "ceil":
                return core.neg(core.floor_si(core.neg(a[0])))
            if n == "lgamma":
                return core.uf("lgamma", a, math.lgamma)
            if n == "pow":
                return core.pow_(*a)
            raise Unsupported("math.%s" % n)

        return f


# --------------------------------------------------------------------------- #
# scipy
# --------------------------------------------------------------------------- #
def elementwise(f):
    def g(*args, **kw):
        r = np.frompyfunc(lambda *x: f(*x, **kw), len(args), 1)(*[snp._prep(x) for x in args])
        return snp._wrapout(r, False)

    return g


def _norm():
    return proxied("scipy.stats").norm


def _gammaincinv(a, y):
    import scipy.special as sp

    def ax(v, args, others):
        aa, yy = args
        out = [v > 0]
        # the median of a gamma variable lies strictly between a-1/3 and a,
        # and quantiles grow with a and with y
        half = core.numeral(yy)
        if half is not None and half == core.Fraction(1, 2):
            out += [v < aa, v > aa - core.rv(core.Fraction(1, 3))]
        for (a2, y2), v2 in others:
            if yy.eq(y2):
                out += [core.z3.Implies(aa < a2, v < v2), core.z3.Implies(aa > a2, v > v2)]
        return out

    return core.uf("gammaincinv", [a, y], lambda p, q: float(sp.gammaincinv(p, q)), ax)


class Dist:
    """A continuous distribution with a strictly increasing cdf R -> (0,1),
    symmetric about zero."""

    def __init__(self, name, real):
        self.name, self.real = name, real

    def _f(self, x):
        if core._conc(x):
            if not cur().symbolic_consts or not core.is_finite_number(x):
                return np.float64(self.real.cdf(x))
        return SF(cur().bijection(self.name, x=core.real_term(x), concrete=self.real.cdf, inverse=self.real.ppf, lo=0,
                                  hi=1, odd_mid=0.5))

    def _g(self, y):
        if core._conc(y):
            if not cur().symbolic_consts or not 0 < y < 1 or y == 0.5:
                return np.float64(self.real.ppf(y))
        else:
            if truth(core.le(y, 0)):
                return np.float64(-np.inf) if truth(core.eq(y, 0)) else np.float64(np.nan)
            if truth(core.le(1, y)):
                return np.float64(np.inf) if truth(core.eq(y, 1)) else np.float64(np.nan)
        return SF(cur().bijection(self.name, y=core.real_term(y), concrete=self.real.cdf, inverse=self.real.ppf, lo=0,
                                  hi=1, odd_mid=0.5))

    def cdf(self, x, *a, **k):
        if a or k:
            raise Unsupported("cdf with parameters")
        return elementwise(self._f)(x)

    def ppf(self, y, *a, **k):
        if a or k:
            raise Unsupported("ppf with parameters")
        return elementwise(self._g)(y)

    def __call__(self, *a, **k):
        if a or k:
            raise Unsupported("distribution with parameters")
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.real, n)


class _BetaDist:
    def __init__(self, real):
        self.real = real

    def __call__(self, a, b):
        return _Frozen(self, a, b)

    def ppf(self, q, a, b):
        def f(q, a, b):
            def ax(v, args, others):
                out = [v > 0, v < 1]
                for (q2, a2, b2), v2 in others:
                    same = core.z3.And(args[1] == a2, args[2] == b2)
                    out += [core.z3.Implies(core.z3.And(same, args[0] < q2), v < v2),
                            core.z3.Implies(core.z3.And(same, args[0] > q2), v > v2)]
                return out

            return core.uf("beta_ppf", [q, a, b], lambda q, a, b: float(self.real.ppf(q, a, b)), ax)

        return elementwise(f)(q, a, b)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.real, n)


class _Frozen:
    def __init__(self, dist, *args):
        self.dist, self.args = dist, args

    def ppf(self, q):
        return self.dist.ppf(q, *self.args)


class _Wrapped(types.ModuleType):
    """A third-party module whose functions work on concrete values only."""

    def __init__(self, real, over=None):
        super().__init__(real.__name__)
        self._real = real
        self._over = over or {}

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        v = getattr(self._real, n)
        if isinstance(v, types.ModuleType):
            full = v.__name__
            return proxied(full) or v
        if isinstance(v, (type,)):
            return v
        if callable(v):

            def f(*a, **k):
                if snp.has_sym(a) or snp.has_sym(k):
                    raise Unsupported("%s.%s on symbolic values" % (self.__name__, n))
                return snp.boxres(v(*snp.unbox_args(a), **snp.unbox_args(k)))

            f._real = v
            return f
        return v


class SparseStub(types.ModuleType):
    """csr_matrix as a container that remembers the dense array."""

    def __init__(self, real):
        super().__init__("scipy.sparse")
        self._real = real

    def __getattr__(self, n):
        if n in ("csr_matrix", "csc_matrix", "coo_matrix"):
            return _Csr
        return getattr(self._real, n)


class _Csr:
    def __init__(self, a):
        a = snp.from_any(a)
        self.a = a.reshape(1, -1) if a.ndim == 1 else a.copy()

    def toarray(self):
        return self.a.copy()

    def todense(self):
        return self.a.copy()


_PROX = {}


def proxied(name):
    """Replacement module for an import performed by the package, or None."""
    if name in _PROX:
        return _PROX[name]
    m = None
    if name == "numpy":
        m = snp.proxy
    elif name == "pandas":
        m = spd.proxy
    elif name == "numexpr":
        m = _Num()
    elif name == "numba":
        m = _Numba()
    elif name == "math":
        m = _Math()
    elif name == "scipy":
        import scipy
        import scipy.interpolate
        import scipy.optimize
        import scipy.sparse
        import scipy.special
        import scipy.stats

        m = _Wrapped(scipy)
    elif name == "scipy.special":
        import scipy.special

        m = _Wrapped(scipy.special, {
            "gammaincinv": elementwise(_gammaincinv),
            "expit": elementwise(lambda x: core.div(1.0, core.add(1.0, core.exp(core.neg(x))))),
            "logit": elementwise(lambda p: core.log(core.div(p, core.sub(1.0, p)))),
            "erfinv": elementwise(lambda x: core.div(_norm()._g(core.div(core.add(x, 1.0), 2.0)), math.sqrt(2.0))),
            "gammaln": elementwise(lambda x: core.uf("lgamma", [x], math.lgamma)),
        })
    elif name == "scipy.stats":
        import scipy.stats

        m = _Wrapped(scipy.stats, {"norm": Dist("normcdf", scipy.stats.norm), "beta": _BetaDist(scipy.stats.beta),
                                   "logistic": Dist("logisticcdf", scipy.stats.logistic)})
    elif name == "scipy.sparse":
        import scipy.sparse

        m = SparseStub(scipy.sparse)
    elif name == "scipy.optimize":
        import scipy.optimize

        m = _Wrapped(scipy.optimize)
    elif name == "scipy.interpolate":
        import scipy.interpolate

        m = _Wrapped(scipy.interpolate)
    else:
        return None
    _PROX[name] = m
    return m


# --------------------------------------------------------------------------- #
# builtins seen by the package
# --------------------------------------------------------------------------- #
def _scalar(x):
    if isinstance(x, snp.SArr) and x.size == 1:
        return snp.raw(x).flat[0]
    if isinstance(x, spd.Series) and len(x) == 1:
        return snp.raw(x._v).flat[0]
    return x


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        x = _scalar(x)
        if isinstance(x, Sym):
            return snp.cast(x, np.float64)
        return builtins.float(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SF))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(builtins.float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        x = _scalar(x)
        if isinstance(x, Sym):
            return core.cast_int(x)
        return builtins.int(x, *a)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SI))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SymInt(builtins.int, metaclass=_IntMeta):
    pass


class _BoolMeta(type):
    def __call__(cls, x=False):
        x = _scalar(x)
        if isinstance(x, SB):
            return x
        if isinstance(x, Sym):
            return core.mkb(core.bool_term(x))
        return builtins.bool(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bool, SB))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.bool)

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class SymBool(builtins.int, metaclass=_BoolMeta):
    pass


def sym_range(*a):
    return builtins.range(*[builtins.int(x) if isinstance(x, Sym) else x for x in a])


def sym_min(*a, **k):
    if len(a) >= 2 and not k and any(isinstance(x, Sym) for x in a) and all(core.is_finite_number(x) or isinstance(x, (float, np.floating)) for x in a):
        r = a[0]
        for x in a[1:]:
            r = core.ite(core.lt(x, r), x, r)
        return r
    return builtins.min(*a, **k)


def sym_max(*a, **k):
    if len(a) >= 2 and not k and any(isinstance(x, Sym) for x in a) and all(core.is_finite_number(x) or isinstance(x, (float, np.floating)) for x in a):
        r = a[0]
        for x in a[1:]:
            r = core.ite(core.lt(r, x), x, r)
        return r
    return builtins.max(*a, **k)


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if fromlist:
            p = proxied(name)
            if p is not None:
                return p
            if top == "numpy" and "." in name:
                m = snp.proxy
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
        else:
            p = proxied(top)
            if p is not None:
                builtins.__import__(name)
                return p
    return builtins.__import__(name, globals, locals, fromlist, level)


def sym_builtins():
    b = dict(builtins.__dict__)
    b["__import__"] = sym_import
    b["float"] = SymFloat
    b["int"] = SymInt
    b["range"] = sym_range
    b["min"] = sym_min
    b["max"] = sym_max
    b["print"] = lambda *a, **k: None
    return b


class _Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        module.__dict__["__builtins__"] = sym_builtins()
        super().exec_module(module)

    # never read or write byte code: the current source is what is executed
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        return compile(src, path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            return importlib.machinery.ModuleSpec(fullname, _Loader(fullname, f), origin=f, is_package=True) and _pkg(fullname, f, base)
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))
        return None


def _pkg(fullname, f, base):
    return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[base])


_installed = False


def install():
    global _installed
    import importlib.util  # noqa

    if _installed:
        return
    _installed = True
    # import the third-party world first, with the real builtins
    import decorator  # noqa
    import matplotlib  # noqa
    import pandas.api.extensions  # noqa
    import scipy.interpolate  # noqa
    import scipy.optimize  # noqa
    import scipy.sparse  # noqa
    import scipy.special  # noqa
    import scipy.stats  # noqa
    import six.moves  # noqa
    import sklearn.base  # noqa
    import sklearn.feature_selection  # noqa
    import sklearn.isotonic  # noqa
    import sklearn.linear_model  # noqa
    import sklearn.pipeline  # noqa
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    for k in list(sys.modules):
        if k == PKG or k.startswith(PKG + "."):
            del sys.modules[k]
    sys.meta_path.insert(0, _Finder())
    import sklearn.base

    import sklearn.base as sb

    if not getattr(sb.clone, "_symx", False):
        orig = sb.clone
        sb.clone = orig


def mod(name):
    install()
    return importlib.import_module(PKG + ("." + name if name else ""))
