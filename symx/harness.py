"""The two faces of a harness.

A harness is a function ``fn(H, **params)``.  With ``SymH`` its inputs are
symbolic and the code under test is the package imported through
``symx.loader``; with ``ConH`` the same function runs on the ordinary package
(numba compiled, real numpy/pandas) with the inputs of a solver model.
"""
import importlib
import math

import numpy as np
import z3

from symx import core
from symx.core import SB, SF, SI, Infeasible, Sym, UnknownResult

TOL = 1e-6
CTOL = 4e-7


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


class Cond:
    """A property condition with a margin: ``f(m)`` is the condition relaxed by
    the relative margin m (m=0: exact)."""

    def __init__(self, f):
        self.f = f

    def __call__(self, m):
        return self.f(m)


def _b(x):
    """bool-like -> Cond"""
    if isinstance(x, Cond):
        return x
    t = core.bool_term(x)
    return Cond(lambda m: t)


class SymH:
    symbolic = True

    def __init__(self, engine, runner):
        from symx import loader, snp, spd

        self.e = engine
        self.r = runner
        self.np = snp.proxy
        self.pd = spd.proxy
        self.snp = snp
        self._mod = loader.mod
        self.obs = []
        self.checks = 0
        self.conc_inputs = {}

    # inputs ------------------------------------------------------------- #
    def mod(self, name):
        return self._mod(name)

    def scipy(self, name):
        from symx import loader

        return loader.proxied("scipy." + name)

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        v = self.e.input_real(name)
        for b, op in ((lo, "ge"), (hi, "le"), (gt, "gt"), (lt, "lt")):
            if b is not None:
                t = core.rv(b)
                self.e.add_axiom({"ge": v.t >= t, "le": v.t <= t, "gt": v.t > t, "lt": v.t < t}[op])
        return v

    def reals(self, name, n, **k):
        if isinstance(n, tuple):
            a = [self.real("%s_%s" % (name, "_".join(map(str, ix))), **k) for ix in np.ndindex(*n)]
            return self.snp.box_list(a).reshape(n)
        return self.snp.box_list([self.real("%s_%d" % (name, i), **k) for i in range(n)])

    def anyfloat(self, name, kinds=("finite", "nan", "inf", "-inf"), **k):
        c = self.choose(name + "_kind", list(kinds))
        if c == "finite":
            return self.real(name, **k)
        return np.float64(c)

    def anyfloats(self, name, n, **k):
        return self.snp.box_list([self.anyfloat("%s_%d" % (name, i), **k) for i in range(n)]).astype(np.float64)

    def int(self, name, lo, hi):
        return self.e.input_int(name, lo, hi)

    def ints(self, name, n, lo, hi):
        return self.snp.box_list([self.int("%s_%d" % (name, i), lo, hi) for i in range(n)])

    def bits(self, name, width):
        return self.e.input_bv(name, width)

    def bool(self, name):
        return self.e.input_bool(name)

    def cint(self, name, lo, hi):
        """Concrete integer, all values explored (forks)."""
        return lo + self.e.choose(hi - lo + 1, name)

    def cbool(self, name):
        return bool(self.e.choose(2, name))

    def choose(self, name, options):
        return options[self.e.choose(len(options), name)]

    def arr(self, x, dtype=None):
        return self.snp.from_any(x, dtype)

    def assume(self, c):
        if isinstance(c, Cond):
            c = c(0)
        if isinstance(c, self.snp.SArr):
            c = self.snp.np_all(c)
        self.e.assume(core.bool_term(c) if isinstance(c, Sym) else c)

    def fork(self, c):
        """Case split on a condition (python bool)."""
        if isinstance(c, Cond):
            return self.e.decide(c(0))
        return core.truth(c)

    # conditions ---------------------------------------------------------- #
    def eq(self, a, b, tol=1.0):
        a, b = self._s(a), self._s(b)
        if not core.is_finite_number(a) or not core.is_finite_number(b):
            same = (core.isnan_(a) and core.isnan_(b)) or (
                not core.is_finite_number(a) and not core.is_finite_number(b) and not core.isnan_(a) and a == b
            )
            return _b(bool(same))
        if isinstance(a, (SB, bool, np.bool_)) or isinstance(b, (SB, bool, np.bool_)):
            t = core.bool_term(a) == core.bool_term(b)
            return Cond(lambda m: t)
        if isinstance(a, (SI, int, np.integer)) and isinstance(b, (SI, int, np.integer)):
            t = core.int_term(a) == core.int_term(b)
            return Cond(lambda m: t)
        ta, tb = core.real_term(a), core.real_term(b)

        def f(m):
            if m == 0:
                return ta == tb
            w = core.rv(m * tol)
            ab = z3.If(tb >= 0, tb, -tb)
            return z3.And(ta - tb <= w * (1 + ab), tb - ta <= w * (1 + ab))

        return Cond(f)

    def _s(self, x):
        if isinstance(x, np.ndarray) and x.size == 1:
            return self.snp.raw(x).flat[0]
        return self.snp.norm_scalar(x)

    def le(self, a, b, tol=1.0):
        a, b = self._s(a), self._s(b)
        if not core.is_finite_number(a) or not core.is_finite_number(b):
            return _b(core.le(a, b))
        ta, tb = core.real_term(a), core.real_term(b)

        def f(m):
            if m == 0:
                return ta <= tb
            return ta <= tb + core.rv(m * tol) * (1 + z3.If(tb >= 0, tb, -tb))

        return Cond(f)

    def ge(self, a, b, tol=1.0):
        return self.le(b, a, tol)

    def lt(self, a, b):
        """Strict, no margin."""
        return _b(core.lt(self._s(a), self._s(b)))

    def gt(self, a, b):
        return self.lt(b, a)

    def isle(self, a, b):
        """<= without margin"""
        return _b(core.le(self._s(a), self._s(b)))

    def is_(self, a, b):
        """== without margin"""
        return _b(core.eq(self._s(a), self._s(b)))

    def finite(self, x):
        return _b(bool(core.is_finite_number(self._s(x))))

    def isnan(self, x):
        return _b(bool(core.isnan_(self._s(x))))

    def and_(self, *cs):
        cs = [_b(c) for c in cs]
        return Cond(lambda m: z3.And([c(m) for c in cs]))

    def or_(self, *cs):
        cs = [_b(c) for c in cs]
        return Cond(lambda m: z3.Or([c(m) for c in cs]))

    def not_(self, c):
        c = _b(c)
        return Cond(lambda m: z3.Not(c(0)))

    def implies(self, a, b):
        a, b = _b(a), _b(b)
        return Cond(lambda m: z3.Implies(a(0), b(m)))

    def iff(self, a, b):
        a, b = _b(a), _b(b)
        return Cond(lambda m: a(0) == b(0))

    def all_(self, cs):
        return self.and_(*list(cs))

    def arr_eq(self, a, b, tol=1.0):
        a, b = self.snp.from_any(a), self.snp.from_any(b)
        if a.shape != b.shape:
            return _b(False)
        cs = [self.eq(x, y, tol) for x, y in zip(self.snp.raw(a).flat, self.snp.raw(b).flat)]
        return self.all_(cs) if cs else _b(True)

    def clip(self, v, lo, hi):
        """min(max(v, lo), hi) as a term (no case split)"""
        if not any(isinstance(x, Sym) for x in (v, lo, hi)):
            return min(max(v, lo), hi)
        v, lo, hi = core.real_term(v), core.real_term(lo), core.real_term(hi)
        m = z3.If(v < lo, lo, v)
        return SF(z3.If(m > hi, hi, m))

    # verdicts ------------------------------------------------------------ #
    def check(self, label, cond):
        self.checks += 1
        self.r.sym_check(self, label, _b(cond))

    def raises(self, exc, fn, *a, **k):
        """(raised, value)"""
        try:
            v = fn(*a, **k)
        except exc:
            return True, None
        return False, v

    def observe(self, name, value):
        self.obs.append((name, value))

    def symbolic_set_order(self):
        return None

    def items(self, a):
        return list(self.snp.raw(self.snp.from_any(a)).flat)


class ConH:
    symbolic = False

    def __init__(self, inputs):
        self.np = np
        import pandas

        self.pd = pandas
        self.inputs = inputs
        self.failed = []
        self.obs = []
        self.checks = 0

    def mod(self, name):
        return importlib.import_module("cyclic_boosting" + ("." + name if name else ""))

    def scipy(self, name):
        return importlib.import_module("scipy." + name)

    def _get(self, name):
        return self.inputs[name]

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        v = np.float64(self._get(name))
        if lo is not None:
            v = max(v, np.float64(lo))
        if hi is not None:
            v = min(v, np.float64(hi))
        if (gt is not None and not v > gt) or (lt is not None and not v < lt):
            raise AssumeFailed(name)
        return v

    def reals(self, name, n, **k):
        if isinstance(n, tuple):
            return np.array(
                [self.real("%s_%s" % (name, "_".join(map(str, ix))), **k) for ix in np.ndindex(*n)], dtype=np.float64
            ).reshape(n)
        return np.array([self.real("%s_%d" % (name, i), **k) for i in range(n)], dtype=np.float64)

    def anyfloat(self, name, kinds=("finite", "nan", "inf", "-inf"), **k):
        c = self.choose(name + "_kind", list(kinds))
        if c == "finite":
            return self.real(name, **k)
        return np.float64(c)

    def anyfloats(self, name, n, **k):
        return np.array([self.anyfloat("%s_%d" % (name, i), **k) for i in range(n)], dtype=np.float64)

    def int(self, name, lo, hi):
        return int(self._get(name))

    def ints(self, name, n, lo, hi):
        return np.array([self.int("%s_%d" % (name, i), lo, hi) for i in range(n)], dtype=np.int64)

    def bits(self, name, width):
        return int(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def cint(self, name, lo, hi):
        if lo == hi:
            return lo
        return lo + int(self._get(name))

    def cbool(self, name):
        return bool(int(self._get(name)))

    def choose(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name))]

    def arr(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def assume(self, c):
        if not np.all(c):
            raise AssumeFailed()

    def clip(self, v, lo, hi):
        return min(max(v, lo), hi)

    def fork(self, c):
        return bool(np.all(c))

    def _s(self, x):
        if isinstance(x, np.ndarray) and x.size == 1:
            return x.reshape(-1)[0]
        return x

    def eq(self, a, b, tol=1.0):
        a, b = self._s(a), self._s(b)
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            a, b = float(a), float(b)
            if not math.isfinite(a) or not math.isfinite(b):
                return (a != a and b != b) or a == b
            return abs(a - b) <= CTOL * tol * (1 + abs(b))
        return bool(a == b)

    def le(self, a, b, tol=1.0):
        a, b = self._s(a), self._s(b)
        if not np.isfinite(a) or not np.isfinite(b):
            return bool(a <= b)
        return bool(a <= b + CTOL * tol * (1 + abs(b)))

    def ge(self, a, b, tol=1.0):
        return self.le(b, a, tol)

    def lt(self, a, b):
        return bool(self._s(a) < self._s(b))

    def gt(self, a, b):
        return self.lt(b, a)

    def isle(self, a, b):
        return bool(self._s(a) <= self._s(b))

    def is_(self, a, b):
        return bool(self._s(a) == self._s(b))

    def finite(self, x):
        return bool(np.isfinite(self._s(x)))

    def isnan(self, x):
        x = self._s(x)
        return bool(x != x)

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def all_(self, cs):
        return all(bool(c) for c in cs)

    def arr_eq(self, a, b, tol=1.0):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return all(self.eq(x, y, tol) for x, y in zip(a.flat, b.flat))

    def check(self, label, cond):
        self.checks += 1
        if not cond:
            self.failed.append(label)

    def raises(self, exc, fn, *a, **k):
        try:
            v = fn(*a, **k)
        except exc:
            return True, None
        return False, v

    def observe(self, name, value):
        self.obs.append((name, value))

    def items(self, a):
        return list(np.asarray(a).flat)
