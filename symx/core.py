"""Engine (path exploration) and symbolic scalars.

Values
------
A number inside the executed program is either concrete (numpy scalar / python
number, including NaN and the infinities) or one of

* ``SF`` - a *finite* real number, a z3 term of sort Real
* ``SI`` - a mathematical integer, a z3 term of sort Int
* ``SB`` - a truth value, a z3 term of sort Bool

Non-finite floats are always concrete on a path: inputs that may be NaN/inf
fork when they are created, and a division by a possibly-zero symbol forks.
``bool(SB)`` forks the path.  Arithmetic on ``SF`` is exact (real) arithmetic.
"""
import math
import os
import sys
import operator
import contextlib
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("auto_config", True)


class SymxSignal(BaseException):
    """Control flow of the engine; never caught by code under test."""


class Infeasible(SymxSignal):
    """The path condition is unsatisfiable (an assumption failed)."""


class Unsupported(SymxSignal):
    """The encoding cannot represent this operation: no verdict."""


class OutOfBudget(SymxSignal):
    """Too many paths / too much time: no verdict."""


class UnknownResult(SymxSignal):
    """The solver gave up on a query that matters: no verdict."""


_CUR = None


def cur():
    if _CUR is None:
        raise Unsupported("symbolic operation outside of an exploration")
    return _CUR


def set_engine(e):
    global _CUR
    _CUR = e


# --------------------------------------------------------------------------- #
# terms
# --------------------------------------------------------------------------- #
_FLOATS = (float, np.floating)
_INTS = (int, np.integer)
_BOOLS = (bool, np.bool_)


def is_sym(x):
    return isinstance(x, Sym)


def rv(x):
    """Exact rational z3 numeral of a finite python number."""
    if isinstance(x, Fraction):
        fr = x
    elif isinstance(x, _BOOLS):
        fr = Fraction(int(x))
    elif isinstance(x, _INTS):
        fr = Fraction(int(x))
    else:
        fr = Fraction(float(x))
    return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator))


def real_term(x):
    """z3 Real term of a finite number (symbolic or concrete)."""
    if isinstance(x, SF):
        return x.t
    if isinstance(x, SI):
        return z3.ToReal(x.t)
    if isinstance(x, SB):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    return rv(x)


def int_term(x):
    if isinstance(x, SI):
        return x.t
    if isinstance(x, SB):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def bool_term(x):
    if isinstance(x, SB):
        return x.t
    if isinstance(x, (SF, SI)):
        return x.t != 0
    return z3.BoolVal(bool(x))


def is_finite_number(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, _INTS) or isinstance(x, _BOOLS):
        return True
    try:
        return math.isfinite(x)
    except TypeError:
        return False


def numeral(t):
    """Fraction of a numeral term, else None."""
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def _fold(t):
    """Cheap constant folding: a term all of whose children are numerals."""
    if t.num_args() and all(numeral(c) is not None for c in t.children()):
        return z3.simplify(t)
    return t


def mkf(t):
    return SF(_fold(t))


def mki(t):
    t = _fold(t)
    if z3.is_int_value(t):
        return np.int64(t.as_long())
    return SI(t)


def mkb(t):
    if z3.is_true(t):
        return np.bool_(True)
    if z3.is_false(t):
        return np.bool_(False)
    if t.num_args():
        ch = t.children()
        if all(numeral(c) is not None for c in ch):
            t2 = z3.simplify(t)
            if z3.is_true(t2):
                return np.bool_(True)
            if z3.is_false(t2):
                return np.bool_(False)
        if len(ch) == 2 and ch[0].eq(ch[1]):
            k = t.decl().kind()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE):
                return np.bool_(True)
            if k in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT):
                return np.bool_(False)
    return SB(t)


def isnan_(x):
    return (not isinstance(x, Sym)) and isinstance(x, _FLOATS) and x != x


def _skip(o):
    """Operand kinds that must drive the operation themselves."""
    return isinstance(o, np.ndarray) or hasattr(o, "_symx_container")


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 50

    def __init__(self, t):
        self.t = t

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symx import snp

        return snp.ufunc_dispatch(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from symx import snp

        return snp.function_dispatch(func, args, kwargs)

    # numpy scalar look
    ndim = 0
    shape = ()
    size = 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, dt, *a, **k):
        from symx import snp

        return snp.cast(self, np.dtype(snp.norm_dtype(dt)))

    def squeeze(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def ravel(self):
        from symx import snp

        return snp.box_list([self])

    def flatten(self):
        return self.ravel()

    def reshape(self, *a):
        return self.ravel().reshape(*a)

    def any(self):
        return truth(self)

    def all(self):
        return truth(self)

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, str(self.t)[:60].replace("\n", " "))

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __float__(self):
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic value")

    # arithmetic common to all kinds -------------------------------------- #
    def __add__(self, o):
        return NotImplemented if _skip(o) else add(self, o)

    def __radd__(self, o):
        return NotImplemented if _skip(o) else add(o, self)

    def __sub__(self, o):
        return NotImplemented if _skip(o) else sub(self, o)

    def __rsub__(self, o):
        return NotImplemented if _skip(o) else sub(o, self)

    def __mul__(self, o):
        return NotImplemented if _skip(o) else mul(self, o)

    def __rmul__(self, o):
        return NotImplemented if _skip(o) else mul(o, self)

    def __truediv__(self, o):
        return NotImplemented if _skip(o) else div(self, o)

    def __rtruediv__(self, o):
        return NotImplemented if _skip(o) else div(o, self)

    def __floordiv__(self, o):
        return NotImplemented if _skip(o) else floordiv(self, o)

    def __rfloordiv__(self, o):
        return NotImplemented if _skip(o) else floordiv(o, self)

    def __mod__(self, o):
        return NotImplemented if _skip(o) else mod(self, o)

    def __rmod__(self, o):
        return NotImplemented if _skip(o) else mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __pow__(self, o):
        return NotImplemented if _skip(o) else pow_(self, o)

    def __rpow__(self, o):
        return NotImplemented if _skip(o) else pow_(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __lt__(self, o):
        return NotImplemented if _skip(o) else lt(self, o)

    def __le__(self, o):
        return NotImplemented if _skip(o) else le(self, o)

    def __gt__(self, o):
        return NotImplemented if _skip(o) else lt(o, self)

    def __ge__(self, o):
        return NotImplemented if _skip(o) else le(o, self)

    def __eq__(self, o):
        if _skip(o):
            return NotImplemented
        return eq(self, o)

    def __ne__(self, o):
        if _skip(o):
            return NotImplemented
        return not_(eq(self, o))

    def __hash__(self):
        # every symbolic value falls in one bucket: sets and dicts then decide
        # membership by ==, which forks
        cur().note("symbolic value hashed")
        return 0

    def __bool__(self):
        return truth(self)

    def __round__(self, n=None):
        if n:
            return rint(self * 10.0**n) / 10.0**n
        return cast_int(rint(self))

    def __floor__(self):
        return cast_int(floor(self))

    def __ceil__(self):
        return cast_int(neg(floor(neg(self))))

    def __trunc__(self):
        return cast_int(self)

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self


class SF(Sym):
    __slots__ = ()
    dtype = np.dtype(np.float64)

    def is_integer(self):
        return mkb(z3.IsInt(self.t))


class SI(Sym):
    __slots__ = ()
    dtype = np.dtype(np.int64)

    def __index__(self):
        return cur().concretise_int(self.t)

    def __int__(self):
        return cur().concretise_int(self.t)

    def __hash__(self):
        return hash(cur().concretise_int(self.t))

    def __and__(self, o):
        return bitop("and", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bitop("or", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bitop("xor", self, o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return mul(self, 2 ** int(o))

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        return floordiv(self, 2 ** int(o))

    def __rrshift__(self, o):
        return o >> int(self)

    def __invert__(self):
        return sub(-1, self)


class SB(Sym):
    __slots__ = ()
    dtype = np.dtype(bool)

    def __and__(self, o):
        return NotImplemented if _skip(o) else and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return NotImplemented if _skip(o) else or_(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return NotImplemented if _skip(o) else mkb(z3.Xor(self.t, bool_term(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return not_(self)

    def __int__(self):
        return int(truth(self))

    def __index__(self):
        return int(truth(self))

    def __hash__(self):
        return hash(truth(self))


def _num(x):
    """SB -> SI for arithmetic."""
    if isinstance(x, SB):
        return SI(int_term(x))
    return x


def _conc(x):
    return not isinstance(x, Sym)


def _npf(x):
    return np.float64(x)


def add(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return a + b
    if not is_finite_number(a):
        return _npf(a)
    if not is_finite_number(b):
        return _npf(b)
    if isinstance(a, (SI,) + _INTS) and isinstance(b, (SI,) + _INTS):
        return mki(int_term(a) + int_term(b))
    if _conc(a) and a == 0 and isinstance(b, SF):
        return b
    if _conc(b) and b == 0 and isinstance(a, SF):
        return a
    return mkf(real_term(a) + real_term(b))


def neg(a):
    a = _num(a)
    if _conc(a):
        return -a
    if isinstance(a, SI):
        return mki(-a.t)
    return mkf(-a.t)


def sub(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return a - b
    if not is_finite_number(a):
        return _npf(a)
    if not is_finite_number(b):
        return _npf(-b)
    if isinstance(a, (SI,) + _INTS) and isinstance(b, (SI,) + _INTS):
        return mki(int_term(a) - int_term(b))
    if _conc(b) and b == 0 and isinstance(a, SF):
        return a
    ta, tb = real_term(a), real_term(b)
    if ta.eq(tb):
        return SF(z3.RealVal(0))
    return mkf(ta - tb)


def sign_of(a):
    """Concrete -1/0/1 of a finite value (forks)."""
    if _conc(a):
        return int(np.sign(a))
    if truth(lt(0, a)):
        return 1
    if truth(lt(a, 0)):
        return -1
    return 0


def mul(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not is_finite_number(x):
            if x != x:
                return _npf(np.nan)
            s = sign_of(y)
            return _npf(np.nan) if s == 0 else _npf(x * s)
    if isinstance(a, (SI,) + _INTS) and isinstance(b, (SI,) + _INTS):
        return mki(int_term(a) * int_term(b))
    for x, y in ((a, b), (b, a)):
        if _conc(x):
            if x == 1 and isinstance(y, SF):
                return y
            if x == 0:
                return SF(z3.RealVal(0))
    return mkf(real_term(a) * real_term(b))


def div(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return np.float64(a) / np.float64(b)
    if not is_finite_number(b):
        if b != b or not is_finite_number(a):
            return _npf(np.nan)
        return _npf(0.0)
    if _conc(b):
        if b == 0:
            return _div0(a, np.signbit(b))
        if not is_finite_number(a):
            return _npf(a * np.sign(b))
        if b == 1 and isinstance(a, SF):
            return a
        return mkf(real_term(a) / rv(b))
    if truth(eq(b, 0)):
        return _div0(a, False)
    if not is_finite_number(a):
        return _npf(a * sign_of(b))
    ta, tb = real_term(a), real_term(b)
    if ta.eq(tb):
        return SF(z3.RealVal(1))
    if _conc(a) and a == 0:
        return SF(z3.RealVal(0))
    return mkf(ta / tb)


def _div0(a, negzero):
    # the sign of a symbolic zero denominator is taken as +0
    if not is_finite_number(a):
        return _npf(a)
    s = sign_of(a)
    if s == 0:
        return _npf(np.nan)
    return _npf(np.inf * s * (-1 if negzero else 1))


def floor(a):
    """Float-valued floor."""
    if _conc(a):
        return np.floor(np.float64(a))
    if isinstance(a, (SI, SB)):
        return SF(real_term(a))
    return SF(z3.ToReal(cur().floor_int(a.t)))


def floor_si(a):
    if _conc(a):
        return np.int64(math.floor(a))
    if isinstance(a, (SI, SB)):
        return _num(a)
    return SI(cur().floor_int(a.t))


def ceil(a):
    if _conc(a):
        return np.ceil(np.float64(a))
    return neg(floor(neg(a)))


def rint(a):
    """Round half to even, float-valued."""
    if _conc(a):
        return np.rint(np.float64(a))
    if isinstance(a, (SI, SB)):
        return SF(real_term(a))
    k = cur().floor_int(a.t + z3.RealVal("1/2"))
    tie = z3.ToReal(k) == a.t + z3.RealVal("1/2")
    return SF(z3.ToReal(z3.If(z3.And(tie, k % 2 != 0), k - 1, k)))


def cast_int(a):
    """Truncation to int64 (non-finite: INT64_MIN as x86 does)."""
    if isinstance(a, SI):
        return a
    if isinstance(a, SB):
        return _num(a)
    if isinstance(a, SF):
        q = numeral(z3.simplify(a.t))
        if q is not None:
            return np.int64(math.trunc(q))
        t = a.t
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return SI(t.arg(0))
        f = cur().floor_int(t)
        if cur().entails(t >= 0):
            return SI(f)
        return SI(z3.If(z3.And(t < 0, z3.ToReal(f) != t), f + 1, f))
    if isinstance(a, _FLOATS) and not math.isfinite(a):
        return np.int64(np.iinfo(np.int64).min)
    return np.int64(int(a))


def floordiv(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return a // b
    if isinstance(a, (SI,) + _INTS) and isinstance(b, _INTS) and b > 0:
        return mki(int_term(a) / z3.IntVal(int(b)))
    if isinstance(a, (SI,) + _INTS) and isinstance(b, (SI,) + _INTS):
        bb = int(b)  # concretise
        if bb == 0:
            return np.int64(0)
        if bb > 0:
            return mki(int_term(a) / z3.IntVal(bb))
        return mki((-int_term(a)) / z3.IntVal(-bb))
    return floor(div(a, b))


def mod(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return a % b
    if not is_finite_number(a):
        return _npf(np.nan)
    if isinstance(a, (SI,) + _INTS) and isinstance(b, _INTS) and b > 0:
        return mki(int_term(a) % z3.IntVal(int(b)))
    return sub(a, mul(b, floordiv(a, b)))


def pow_(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return np.power(np.float64(a), b) if isinstance(a, _FLOATS) or b < 0 else a**b
    if isinstance(b, SF):
        q = numeral(b.t)
        if q is not None:
            b = float(q)
    if isinstance(b, SI):
        b = int(b)
    if _conc(b) and is_finite_number(b):
        if float(b) == int(b) and abs(int(b)) <= 16:
            n = int(b)
            if n == 0:
                return np.float64(1.0)
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return r if n > 0 else div(1.0, r)
        if float(b) == 0.5:
            return sqrt(a)
        if float(b) == -0.5:
            return div(1.0, sqrt(a))
    return exp(mul(b, log(a)))


def abs_(a):
    a = _num(a)
    if _conc(a):
        return abs(a)
    if isinstance(a, SI):
        return SI(z3.If(a.t >= 0, a.t, -a.t))
    known = cur().alg.decide(a.t >= 0)
    if known is not None:
        return a if known else SF(-a.t)
    return SF(z3.If(a.t >= 0, a.t, -a.t))


def sign(a):
    a = _num(a)
    if _conc(a):
        return np.sign(a)
    if isinstance(a, SI):
        return SI(z3.If(a.t > 0, z3.IntVal(1), z3.If(a.t < 0, z3.IntVal(-1), z3.IntVal(0))))
    return SF(z3.If(a.t > 0, z3.RealVal(1), z3.If(a.t < 0, z3.RealVal(-1), z3.RealVal(0))))


def _cmp_terms(a, b):
    if isinstance(a, (SI,) + _INTS) and isinstance(b, (SI,) + _INTS):
        return int_term(a), int_term(b)
    return real_term(a), real_term(b)


def lt(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return np.bool_(a < b)
    if isnan_(a) or isnan_(b):
        return np.bool_(False)
    if not is_finite_number(a):
        return np.bool_(a < 0)
    if not is_finite_number(b):
        return np.bool_(b > 0)
    ta, tb = _cmp_terms(a, b)
    return mkb(ta < tb)


def le(a, b):
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        return np.bool_(a <= b)
    if isnan_(a) or isnan_(b):
        return np.bool_(False)
    if not is_finite_number(a):
        return np.bool_(a < 0)
    if not is_finite_number(b):
        return np.bool_(b > 0)
    ta, tb = _cmp_terms(a, b)
    return mkb(ta <= tb)


def eq(a, b):
    if a is b:
        return np.bool_(True)
    if isinstance(a, SB) and isinstance(b, (SB,) + _BOOLS) or isinstance(b, SB) and isinstance(a, _BOOLS):
        return mkb(bool_term(a) == bool_term(b))
    a, b = _num(a), _num(b)
    if _conc(a) and _conc(b):
        r = a == b
        return np.bool_(bool(r))
    for x in (a, b):
        if _conc(x) and not isinstance(x, _FLOATS + _INTS + _BOOLS + (Fraction,)):
            return np.bool_(False)
        if not is_finite_number(x):
            return np.bool_(False)
    ta, tb = _cmp_terms(a, b)
    return mkb(ta == tb)


def and_(a, b):
    if _conc(a) and _conc(b):
        return np.bool_(bool(a) and bool(b))
    for x, y in ((a, b), (b, a)):
        if _conc(x):
            return (y if isinstance(y, SB) else mkb(bool_term(y))) if bool(x) else np.bool_(False)
    return mkb(z3.And(bool_term(a), bool_term(b)))


def or_(a, b):
    if _conc(a) and _conc(b):
        return np.bool_(bool(a) or bool(b))
    for x, y in ((a, b), (b, a)):
        if _conc(x):
            return np.bool_(True) if bool(x) else (y if isinstance(y, SB) else mkb(bool_term(y)))
    return mkb(z3.Or(bool_term(a), bool_term(b)))


def not_(a):
    if _conc(a):
        return np.bool_(not a)
    return mkb(z3.Not(bool_term(a)))


def truth(a):
    """Concrete python bool of a value; forks when undetermined."""
    if isinstance(a, Sym):
        return cur().decide(bool_term(a))
    return bool(a)


def bitop(op, a, b):
    """Bit operations with one concrete operand (masks)."""
    if _skip(b):
        return NotImplemented
    if isinstance(a, SB) or isinstance(b, SB):
        a, b = _num(a), _num(b)
    width = cur().bv_width
    if isinstance(a, (SI,) + _INTS) and isinstance(b, (SI,) + _INTS):
        ta, tb = cur().int2bv(a, width), cur().int2bv(b, width)
        r = {"and": ta & tb, "or": ta | tb, "xor": ta ^ tb}[op]
        return SI(z3.BV2Int(r))
    raise Unsupported("bit operation on %s, %s" % (type(a), type(b)))


def ite(c, a, b):
    """c ? a : b without forking where both sides are finite numbers."""
    if _conc(c):
        return a if bool(c) else b
    if a is b:
        return a
    known = cur().alg.decide(bool_term(c))
    if known is not None:
        return a if known else b
    if isinstance(a, (SB,) + _BOOLS) and isinstance(b, (SB,) + _BOOLS):
        if _conc(a) and _conc(b) and bool(a) == bool(b):
            return a
        return mkb(z3.simplify(z3.If(bool_term(c), bool_term(a), bool_term(b))))
    if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, _FLOATS + _INTS) and isinstance(b, _FLOATS + _INTS):
        if is_finite_number(a) and is_finite_number(b):
            a, b = _num(a), _num(b)
            if _conc(a) and _conc(b) and a == b and type(a) is type(b):
                return a
            ints = (SI,) + _INTS
            if isinstance(a, ints) and isinstance(b, ints):
                return SI(z3.If(bool_term(c), int_term(a), int_term(b)))
            ta, tb = real_term(a), real_term(b)
            if ta.eq(tb):
                return SF(ta)
            return SF(z3.If(bool_term(c), ta, tb))
        if isnan_(a) and isnan_(b):
            return a
    return a if truth(c) else b


def maximum(a, b):
    if isnan_(a) or isnan_(b):
        return _npf(np.nan)
    if _conc(a) and _conc(b):
        return np.maximum(a, b)
    if cur().fork_max:
        return a if truth(le(b, a)) else b
    return ite(le(b, a), a, b)


def minimum(a, b):
    if isnan_(a) or isnan_(b):
        return _npf(np.nan)
    if _conc(a) and _conc(b):
        return np.minimum(a, b)
    if cur().fork_max:
        return a if truth(le(a, b)) else b
    return ite(le(a, b), a, b)


# --------------------------------------------------------------------------- #
# special functions
# --------------------------------------------------------------------------- #
def _is_conc_num(a):
    if _conc(a):
        return True
    return False


def sqrt(a):
    a = _num(a)
    if _conc(a):
        return np.sqrt(np.float64(a))
    if truth(lt(a, 0)):
        return _npf(np.nan)
    return SF(cur().sqrt_term(real_term(a)))


def exp(a):
    a = _num(a)
    if _conc(a):
        if cur().symbolic_consts and is_finite_number(a) and a != 0:
            return SF(cur().exp_term(rv(a)))
        return np.exp(np.float64(a))
    return SF(cur().exp_term(real_term(a)))


def log(a):
    a = _num(a)
    if _conc(a):
        if cur().symbolic_consts and is_finite_number(a) and a > 0 and a != 1:
            return SF(cur().log_term(rv(a)))
        return np.log(np.float64(a))
    if not truth(lt(0, a)):
        if truth(eq(a, 0)):
            return _npf(-np.inf)
        return _npf(np.nan)
    return SF(cur().log_term(real_term(a)))


def log1p(a):
    return log(add(1.0, a))


def expm1(a):
    return sub(exp(a), 1.0)


def sinh(a):
    a = _num(a)
    if _conc(a):
        if not cur().symbolic_consts or not is_finite_number(a) or a == 0:
            return np.sinh(np.float64(a))
    e = exp(a)
    if isinstance(e, Sym):
        cur().roots.append(real_term(div(add(e, div(1.0, e)), 2.0)))
    return div(sub(e, div(1.0, e)), 2.0)


def cosh(a):
    a = _num(a)
    if _conc(a):
        if not cur().symbolic_consts or not is_finite_number(a) or a == 0:
            return np.cosh(np.float64(a))
    e = exp(a)
    return div(add(e, div(1.0, e)), 2.0)


def tanh(a):
    return div(sinh(a), cosh(a))


def arcsinh(a):
    a = _num(a)
    if _conc(a):
        if not cur().symbolic_consts or not is_finite_number(a) or a == 0:
            return np.arcsinh(np.float64(a))
    s = sqrt(add(mul(a, a), 1.0))
    arg = add(a, s)
    cur().add_axiom(real_term(arg) > 0)
    return log(arg)


def arccosh(a):
    a = _num(a)
    if _conc(a):
        if not cur().symbolic_consts or not is_finite_number(a) or a <= 1:
            return np.arccosh(np.float64(a))
    if truth(lt(a, 1)):
        return _npf(np.nan)
    if isinstance(a, Sym):
        cur().roots.append(real_term(a))
    s = sqrt(sub(mul(a, a), 1.0))
    arg = add(a, s)
    cur().add_axiom(real_term(arg) >= 1)
    return log(arg)


def uf(name, args, concrete=None, axioms=None):
    """Uninterpreted function of finite numbers (fresh variable plus
    congruence)."""
    if concrete is not None and all(_conc(x) for x in args):
        if not cur().symbolic_consts:
            return concrete(*args)
    for x in args:
        if isnan_(x):
            return _npf(np.nan)
        if not is_finite_number(x):
            raise Unsupported("%s of an infinite value" % name)
    return SF(cur().uf_term(name, [real_term(x) for x in args], concrete, axioms))


# --------------------------------------------------------------------------- #
# engine
# --------------------------------------------------------------------------- #
def _nl(t, cache):
    return t


from symx import algebra  # noqa: E402


class Relation:
    """A strictly increasing bijection between pairs of terms (x, y)."""

    def __init__(self, name, fwd, bwd):
        self.name, self.fwd, self.bwd = name, fwd, bwd
        self.pairs = []


class Engine:
    def __init__(self, name="", branch_timeout=3000, query_timeout=60000, max_paths=20000, max_seconds=800,
                 symbolic_consts=False, additive=True, bv_width=16, validate=8, snap=False, fork_max=False):
        self.name = name
        self.branch_timeout = branch_timeout
        self.query_timeout = query_timeout
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.symbolic_consts = symbolic_consts
        self.fork_max = fork_max
        self.snap = snap  # coefficients in arguments of exp and uninterpreted functions up to 2^-36
        self.additive = additive
        self.bv_width = bv_width
        self.stats = dict(paths=0, infeasible=0, decisions=0, branch_queries=0, queries=0, unsat=0, sat=0,
                          unknown=0, solver_s=0.0, unknown_branches=0)
        self.notes = {}
        self.functions = set()
        self.t0 = time.time()
        self.reset_path([])

    # -- path life cycle ---------------------------------------------------- #
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.pc = []
        self.lits = []  # decisions and assumptions (no axioms)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_timeout)
        self.model_cache = None
        self.decided = {}
        self.fresh_n = 0
        self.inputs = []  # (name, term or concrete, kind)
        self.aux = []  # (z3 const, fn(vals)->float, [arg terms]) in definition order
        self.memo = {}
        self.keep = []
        self.exp_rel = []  # pairs (t, e)
        self.uf_apps = {}
        self.pos_known = {}
        self.rel = {}
        self.alg = algebra.Algebra()
        self.roots = []  # non-negative terms that may be square roots
        self.exp_products = []
        self.sqrts = []

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def fresh(self, prefix, sort):
        self.fresh_n += 1
        n = "%s!%d" % (prefix, self.fresh_n)
        return z3.Const(n, sort)

    def add_axiom(self, t):
        """A fact that holds of every real execution (definition of an
        auxiliary symbol); part of the path condition."""
        self.alg.learn(t)
        self.pc.append(t)
        self.solver.add(t)
        self.model_cache = None

    def assume(self, t):
        if isinstance(t, Sym):
            t = bool_term(t)
        if isinstance(t, _BOOLS):
            if not t:
                raise Infeasible()
            return
        if z3.is_true(t):
            return
        t = self.alg.clear(t)
        self.alg.learn(t)
        self.pc.append(t)
        self.lits.append(t)
        self.solver.add(t)
        if self.model_cache is not None:
            try:
                if z3.is_true(self.model_cache.eval(t, model_completion=True)):
                    return
            except z3.Z3Exception:
                pass
        self.model_cache = None
        r = self._check()
        if r == z3.unsat:
            raise Infeasible()

    def _check(self, *extra):
        t0 = time.time()
        self.stats["branch_queries"] += 1
        try:
            with watched(self.branch_timeout):
                r = self.solver.check(*extra)
        except z3.Z3Exception as e:
            self.note("solver exception: %s" % e)
            r = z3.unknown
        self.stats["solver_s"] += time.time() - t0
        if r == z3.sat:
            self.last_model = self.solver.model()
        if self.max_seconds and time.time() - self.t0 > self.max_seconds:
            raise OutOfBudget("time")
        return r

    def entails(self, t):
        """True when the path condition implies t (sound, may miss)."""
        if self.model_cache is not None:
            try:
                if z3.is_false(self.model_cache.eval(t, model_completion=True)):
                    return False
            except z3.Z3Exception:
                pass
        return self._check(z3.Not(t)) == z3.unsat

    def decide(self, c):
        """Fork on a boolean term."""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = s.get_id()
        if k in self.decided:
            return self.decided[k][0]
        val = self.alg.decide(s)
        if val is not None:
            self.stats["algebraic"] = self.stats.get("algebraic", 0) + 1
            self.alg.learn(s if val else z3.Not(s))
            self.decided[k] = (val, s)
            return val
        s0, s = s, self.alg.clear(s)
        i = len(self.trail)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            val = self._branch(s, i)
        self.trail.append(val)
        lit = s if val else z3.Not(s)
        self.alg.learn(lit)
        self.pc.append(lit)
        self.lits.append(lit)
        self.solver.add(lit)
        if i < len(self.prefix):
            self.model_cache = None
        elif self.model_cache is not None:
            pass
        self.decided[k] = (val, s0)
        self.stats["decisions"] += 1
        return val

    def _debug(self, what, s):
        if os.environ.get("SYMX_DEBUG"):
            print("UNKNOWN %s: %s" % (what, str(s)[:1500]), file=sys.stderr, flush=True)

    def _branch(self, s, i):
        m = self.model_cache
        ct = cf = None
        if m is not None:
            try:
                ev = m.eval(s, model_completion=True)
                if z3.is_true(ev):
                    ct = True
                elif z3.is_false(ev):
                    cf = True
            except z3.Z3Exception:
                pass
        mt = mf = m
        if ct is None:
            r = self._check(s)
            ct = r != z3.unsat
            if r == z3.unknown:
                self.stats["unknown_branches"] += 1
                self._debug("branch", s)
            mt = self.last_model if r == z3.sat else None
        if cf is None:
            if not ct:
                cf = True
                mf = None
            else:
                r = self._check(z3.Not(s))
                cf = r != z3.unsat
                if r == z3.unknown:
                    self.stats["unknown_branches"] += 1
                    self._debug("branch", z3.Not(s))
                mf = self.last_model if r == z3.sat else None
        if not ct and not cf:
            raise Infeasible()
        if ct and cf:
            self.pending.append(self.prefix_so_far() + [False])
            self.model_cache = mt
            return True
        self.model_cache = mt if ct else mf
        return bool(ct)

    def prefix_so_far(self):
        return list(self.trail)

    def choose(self, n, name="choice"):
        """Concrete nondeterministic choice in range(n) (forks)."""
        if n == 1:
            return 0
        self._new_name(name)
        v = z3.Int("%s!c%d" % (name, len(self.inputs)))
        self.inputs.append((name, v, "choice"))
        self.add_axiom(z3.And(v >= 0, v < n))
        for k in range(n - 1):
            if self.decide(v == k):
                return k
        return n - 1

    def concretise_int(self, t):
        """Fork over the feasible values of an integer term."""
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        k = ("conc", s.get_id())
        if k in self.memo:
            return self.memo[k]
        self.keep.append(s)
        # deterministic under re-execution: candidate values come from the
        # model only for new decisions; replayed decisions carry their values
        for _ in range(200):
            i = len(self.trail)
            if i < len(self.prefix):
                v = self.prefix[i]
                assert isinstance(v, tuple), "replay mismatch"
                self.trail.append(v)
                val, yes = v
                if yes:
                    self._assert_path(s == val)
                    self.memo[k] = val
                    return val
                self._assert_path(s != val)
                continue
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise UnknownResult("concretise")
            val = self.last_model.eval(s, model_completion=True).as_long()
            r2 = self._check(s != val)
            if r2 != z3.unsat:
                self.pending.append(self.prefix_so_far() + [(val, False)])
            self.trail.append((val, True))
            self._assert_path(s == val)
            self.memo[k] = val
            self.stats["decisions"] += 1
            return val
        raise OutOfBudget("concretise: too many values")

    def _assert_path(self, t):
        self.pc.append(t)
        self.lits.append(t)
        self.solver.add(t)
        self.model_cache = None

    # -- auxiliary terms ---------------------------------------------------- #
    def floor_int(self, t):
        t = z3.simplify(t)
        q = numeral(t)
        if q is not None:
            return z3.IntVal(math.floor(q))
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return t.arg(0)
        k = ("floor", t.get_id())
        if k in self.memo:
            return self.memo[k]
        self.keep.append(t)
        v = self.fresh("floor", z3.IntSort())
        self.aux.append((v, lambda x: math.floor(x), [t]))
        self.add_axiom(z3.And(z3.ToReal(v) <= t, t < z3.ToReal(v) + 1))
        self.memo[k] = v
        return v

    def int2bv(self, x, width):
        if not isinstance(x, Sym):
            return z3.BitVecVal(int(x), width)
        t = x.t
        if z3.is_app_of(t, z3.Z3_OP_BV2INT):
            return t.arg(0)
        if not self.entails(z3.And(t >= 0, t < 2**width)):
            raise Unsupported("bit operation on an integer of unknown width")
        return z3.Int2BV(t, width)

    def sqrt_term(self, t):
        t = z3.simplify(t)
        q = numeral(t)
        if q is not None:
            r = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if r[0] ** 2 == q.numerator and r[1] ** 2 == q.denominator:
                return rv(Fraction(*r))
        k = ("sqrt", t.get_id())
        if k in self.memo:
            return self.memo[k]
        for t2, s in self.sqrts:
            if self.alg.same(t, t2):
                return s
        for r in self.roots:
            if self.alg.same(t, r * r):
                return r
        self.keep.append(t)
        s = self.fresh("sqrt", z3.RealSort())
        self.aux.append((s, lambda x: math.sqrt(x), [t]))
        self.add_axiom(z3.And(s >= 0, s * s == t))
        if self.alg.decide(t > 0) is True:
            self.add_axiom(s > 0)
        self.sqrts.append((t, s))
        self.alg.squares[s.get_id()] = t
        self.keep.append(s)
        self.memo[k] = s
        return s

    def _split_exp(self, t):
        """t = sum c_i * l_i + rest with l_i known logarithms of x_i and
        integer c_i; returns ([(x_i, c_i)], rest)."""
        known = {id_: x for (id_, x) in self.log_vars()}
        if not known:
            return [], t
        st = z3.simplify(t, som=True)
        args = st.children() if z3.is_app_of(st, z3.Z3_OP_ADD) else [st]
        parts, rest = [], []
        for a in args:
            c, v = Fraction(1), a
            if z3.is_app_of(a, z3.Z3_OP_MUL) and a.num_args() == 2 and numeral(a.arg(0)) is not None:
                c, v = numeral(a.arg(0)), a.arg(1)
            elif z3.is_app_of(a, z3.Z3_OP_UMINUS):
                c, v = Fraction(-1), a.arg(0)
            x = known.get(v.get_id())
            if x is not None and c.denominator == 1 and abs(c) <= 4:
                parts.append((x, int(c)))
            else:
                rest.append(a)
        if not rest:
            return parts, None
        r = rest[0]
        for a in rest[1:]:
            r = r + a
        return parts, r

    def log_vars(self):
        return self.memo.get("logvars", [])

    def snapped(self, t):
        if not self.snap:
            return t
        try:
            n, d = self.alg.rat(t)
        except algebra.TooBig:
            return t
        if not algebra.is_one(d):
            return t
        n = {m: Fraction(round(c * 2**36), 2**36) for m, c in n.items()}
        n = {m: c for m, c in n.items() if c}
        return z3.simplify(self.alg._term(n)) if n else z3.RealVal(0)

    def exp_term(self, t):
        t = self.snapped(z3.simplify(t))
        q = numeral(t)
        if q is not None and q == 0:
            return z3.RealVal(1)
        k = ("exp", t.get_id())
        if k in self.memo:
            return self.memo[k]
        if self.alg.same(t, z3.RealVal(0)):
            return z3.RealVal(1)
        for t2, e in self.exp_rel:
            if self.alg.same(t, t2):
                return e
        p = z3.simplify(self.alg.polynomial(t))
        if numeral(p) is not None:
            t = p
        elif p is t or not p.eq(t):
            # differences of known arguments
            for i, (t2, e2) in enumerate(self.exp_rel[:8]):
                for t3, e3 in self.exp_rel[:i]:
                    if self.alg.same(t, t2 - t3):
                        return e2 / e3
                    if self.alg.same(t, t3 - t2):
                        return e3 / e2
        parts, rest = self._split_exp(p)
        if parts:
            e = z3.RealVal(1) if rest is None else self.exp_term(rest)
            for x, c in parts:
                for _ in range(abs(c)):
                    e = e * x if c > 0 else e / x
            if z3.is_rational_value(e):
                return z3.simplify(e)
            self.keep += [t, e]
            self.exp_products.append((t, e))
            return e
        self.keep.append(t)
        e = self.fresh("exp", z3.RealSort())
        self.aux.append((e, lambda x: math.exp(x), [t]))
        self._exp_pair(t, e)
        self.memo[k] = e
        return e

    def log_term(self, x):
        x = z3.simplify(x)
        q = numeral(x)
        if q is not None and q == 1:
            return z3.RealVal(0)
        k = ("log", x.get_id())
        if k in self.memo:
            return self.memo[k]
        for t, e in self.exp_rel + self.exp_products:
            if self.alg.same(e, x):
                return t
            if self.alg.same(e * x, z3.RealVal(1)):
                return -t
        self.keep.append(x)
        l = self.fresh("log", z3.RealSort())
        self.aux.append((l, lambda v: math.log(v), [x]))
        self.memo.setdefault("logvars", [])
        self.memo["logvars"] = self.memo["logvars"] + [(l.get_id(), x)]
        self.keep.append(l)
        self._exp_pair(l, x)
        self.memo[k] = l
        return l

    def _exp_pair(self, t, e):
        """Record e = exp(t) with the instantiated axioms of exp."""
        ax = [e > 0, (t > 0) == (e > 1), (t == 0) == (e == 1), e >= 1 + t]
        q = numeral(t)
        if q is not None:
            v = math.exp(q)
            ax += [e >= rv(v * (1 - 1e-13)), e <= rv(v * (1 + 1e-13))]
        q = numeral(e)
        if q is not None:
            v = math.log(q)
            ax += [t >= rv(v - abs(v) * 1e-13), t <= rv(v + abs(v) * 1e-13)]
        for t2, e2 in self.exp_rel:
            ax.append((t < t2) == (e < e2))
            ax.append((t == t2) == (e == e2))
            ax.append((t == -t2) == (e * e2 == 1))
        if self.additive and len(self.exp_rel) <= 12:
            n = len(self.exp_rel)
            al = self.exp_rel + [(t, e)]
            for i in range(n + 1):
                for j in range(i, n + 1):
                    for m in range(n + 1):
                        if n not in (i, j, m):
                            continue
                        if m in (i, j):
                            continue
                        ax.append((al[m][0] == al[i][0] + al[j][0]) == (al[m][1] == al[i][1] * al[j][1]))
        self.exp_rel.append((t, e))
        self.alg.learn(e > 0)
        iv = self.alg.iv(t)
        ie = self.alg.iv(e)
        if algebra.sign(iv) == 1:
            self.alg.learn(e > 1)
        elif algebra.sign(iv) == -1:
            self.alg.learn(e < 1)
        if ie[0] > 1 or (ie[0] == 1 and ie[1]):
            self.alg.learn(t > 0)
        elif ie[2] < 1 or (ie[2] == 1 and ie[3]):
            self.alg.learn(t < 0)
        for a in ax:
            self.pc.append(a)
            self.solver.add(a)
        self.model_cache = None

    def uf_term(self, name, args, concrete=None, axioms=None):
        args = [self.snapped(z3.simplify(a)) for a in args]
        k = (name,) + tuple(a.get_id() for a in args)
        if k in self.memo:
            return self.memo[k]
        for args2, v in self.uf_apps.get(name, []):
            if all(self.alg.same(a, b) for a, b in zip(args, args2)):
                return v
        self.keep.extend(args)
        v = self.fresh(name, z3.RealSort())
        self.aux.append((v, concrete, args))
        for args2, v2 in self.uf_apps.get(name, []):
            self.pc.append(z3.Implies(z3.And([a == b for a, b in zip(args, args2)]), v == v2))
            self.solver.add(self.pc[-1])
        if axioms is not None:
            for a in axioms(v, args, self.uf_apps.get(name, [])):
                self.alg.learn(a)
                self.pc.append(a)
                self.solver.add(a)
        self.uf_apps.setdefault(name, []).append((args, v))
        self.model_cache = None
        self.memo[k] = v
        return v

    def bijection(self, name, x=None, y=None, concrete=None, inverse=None, lo=None, hi=None, odd_mid=None):
        """Pair of a strictly increasing bijection R -> (lo, hi); odd_mid=m
        adds f(-x) = 2m - f(x).  Give x to get f(x), give y to get
        f^-1(y)."""
        rel = self.rel.setdefault(name, [])
        if x is not None:
            x = z3.simplify(x)
            key = (name, "f", x.get_id())
        else:
            y = z3.simplify(y)
            key = (name, "g", y.get_id())
        if key in self.memo:
            return self.memo[key]
        for x2, y2 in rel:
            if x is not None and self.alg.same(x2, x):
                return y2
            if x is None and self.alg.same(y2, y):
                return x2
        if odd_mid is not None:
            m = rv(odd_mid)
            if self.alg.same(x, z3.RealVal(0)) if x is not None else self.alg.same(y, m):
                return m if x is not None else z3.RealVal(0)
            for x2, y2 in rel:
                if x is not None and self.alg.same(-x2, x):
                    return 2 * m - y2
                if x is None and self.alg.same(2 * m - y2, y):
                    return -x2
        if x is not None:
            self.keep.append(x)
            r = y = self.fresh(name, z3.RealSort())
            self.aux.append((y, concrete, [x]))
            q = numeral(x)
            if q is not None:
                v = float(concrete(float(q)))
                self.add_axiom(z3.And(y >= rv(v - 1e-13 * max(1, abs(v))), y <= rv(v + 1e-13 * max(1, abs(v)))))
        else:
            self.keep.append(y)
            r = x = self.fresh(name + "inv", z3.RealSort())
            self.aux.append((x, inverse, [y]))
            q = numeral(y)
            if q is not None:
                v = float(inverse(float(q)))
                self.add_axiom(z3.And(x >= rv(v - 1e-12 * max(1, abs(v))), x <= rv(v + 1e-12 * max(1, abs(v)))))
        ax = []
        if lo is not None:
            ax.append(y > lo)
        if hi is not None:
            ax.append(y < hi)
        if odd_mid is not None:
            ax += [(x > 0) == (y > rv(odd_mid)), (x == 0) == (y == rv(odd_mid))]
        for x2, y2 in rel:
            ax += [(x < x2) == (y < y2), (x == x2) == (y == y2)]
            if odd_mid is not None:
                ax.append((x == -x2) == (y == 2 * rv(odd_mid) - y2))
        rel.append((x, y))
        for a in ax:
            self.alg.learn(a)
            self.pc.append(a)
            self.solver.add(a)
        self.model_cache = None
        self.memo[key] = r
        return r

    def _new_name(self, name):
        if any(n == name for n, _, _ in self.inputs):
            raise Unsupported("input name used twice: " + name)

    # -- inputs -------------------------------------------------------------- #
    def input_real(self, name):
        self._new_name(name)
        v = z3.Real(name)
        self.inputs.append((name, v, "real"))
        return SF(v)

    def input_int(self, name, lo=None, hi=None):
        self._new_name(name)
        v = z3.Int(name)
        self.inputs.append((name, v, "int"))
        if lo is not None:
            self.add_axiom(v >= int(lo))
        if hi is not None:
            self.add_axiom(v <= int(hi))
        return SI(v)

    def input_bool(self, name):
        self._new_name(name)
        v = z3.Bool(name)
        self.inputs.append((name, v, "bool"))
        return SB(v)

    def input_bv(self, name, width):
        self._new_name(name)
        v = z3.BitVec(name, width)
        self.inputs.append((name, v, "bv"))
        return SI(z3.BV2Int(v))

    # -- verdict queries ----------------------------------------------------- #
    def solve(self, extra, timeout=None, want_model=True, constraints=None):
        """Decide pc /\\ extra.  Tries the incremental solver, then z3's
        nonlinear strategies, then cvc5."""
        t0 = time.time()
        timeout = timeout or self.query_timeout
        cons = list(self.pc if constraints is None else constraints) + list(extra)
        self.stats["queries"] += 1
        try:
            r = solve_portfolio(cons, timeout)
        finally:
            self.stats["solver_s"] += time.time() - t0
        self.stats[str(r[0])] = self.stats.get(str(r[0]), 0) + 1
        return r


    def confirm(self, cond):
        """Verdict of z3 on an identity found by the normal forms of algebra.py:
        first on the condition as it is (with the path condition), then with the fractions
        multiplied out (not expanded)."""
        t0 = time.time()
        self.stats["queries"] += 1
        s = z3.Solver()
        s.set("timeout", 250)
        s.add(*self.pc)
        s.add(z3.Not(cond))
        with watched(2000):
            r = s.check()
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(z3.Not(z3.simplify(cross_multiplied(cond), som=True)))
            with watched(2000):
                if s.check() == z3.unsat:
                    r = z3.unsat
        self.stats["solver_s"] += time.time() - t0
        k = "algebraic_only" if r == z3.unknown else str(r)
        self.stats[k] = self.stats.get(k, 0) + 1
        return r


def cross_multiplied(f):
    """Equations a/b == c/d of the formula replaced by a*d == c*b (used only
    where algebra.py has established the equation as an identity of fractions)."""
    memo = {}

    def frac(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = _frac(t)
        return memo[k]

    def _frac(t):
        kind = t.decl().kind() if z3.is_app(t) else None
        if kind == z3.Z3_OP_DIV:
            (a, b), (c, d) = frac(t.arg(0)), frac(t.arg(1))
            return _times(a, d), _times(b, c)
        if kind == z3.Z3_OP_MUL:
            n = d = None
            for c in t.children():
                a, b = frac(c)
                n, d = _times(n, a), _times(d, b)
            return n, d
        if kind == z3.Z3_OP_UMINUS:
            a, b = frac(t.arg(0))
            return -a, b
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = frac(t.arg(0))
            for c in t.children()[1:]:
                a, b = frac(c)
                sg = -1 if kind == z3.Z3_OP_SUB else 1
                if b is d or (b is not None and d is not None and b.eq(d)):
                    n = n + sg * a
                else:
                    n, d = _times(n, b) + sg * _times(a, d), _times(d, b)
            return n, d
        return t, None

    def go(g):
        kind = g.decl().kind() if z3.is_app(g) else None
        if kind == z3.Z3_OP_AND:
            return z3.And([go(c) for c in g.children()])
        if kind == z3.Z3_OP_OR:
            return z3.Or([go(c) for c in g.children()])
        if kind == z3.Z3_OP_EQ and z3.is_real(g.arg(0)):
            (a, b), (c, d) = frac(g.arg(0)), frac(g.arg(1))
            return _times(a, d) == _times(c, b)
        return g

    return go(f)


def _times(a, b):
    if a is None:
        return b
    return a if b is None else a * b


@contextlib.contextmanager
def watched(timeout_ms):
    """tells the runner by when the solver has to be back (z3 does not always keep its time limit)"""
    if WATCH is not None:
        WATCH.value = time.time() + 2 * timeout_ms / 1000.0 + 15
    try:
        yield
    finally:
        if WATCH is not None:
            WATCH.value = 0.0


WATCH = None


def solve_portfolio(cons, timeout_ms):
    """(z3.sat|unsat|unknown, model|None, who)"""
    deadline = time.time() + timeout_ms / 1000.0

    def left(frac=1.0):
        return max(50, int((deadline - time.time()) * 1000 * frac))

    s = z3.Solver()
    s.set("timeout", min(left(), 3000))
    s.add(*cons)
    with watched(timeout_ms):
        r = s.check()
    if r != z3.unknown:
        return r, (s.model() if r == z3.sat else None), "z3"
    # nlsat portfolio
    if left() > 60:
        s = z3.Tactic("qfnra-nlsat").solver() if _pure_real(cons) else z3.SolverFor("QF_NIRA")
        s.set("timeout", left(0.5))
        s.add(*cons)
        try:
            with watched(timeout_ms):
                r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r != z3.unknown:
            return r, (s.model() if r == z3.sat else None), "z3-nl"
    if left() > 60:
        r = cvc5_check(cons, left(0.6))
        if r == "unsat":
            return z3.unsat, None, "cvc5"
    if left() > 60:
        s = z3.Solver()
        s.set("timeout", left())
        s.set("smt.random_seed", 7)
        s.add(*cons)
        with watched(timeout_ms):
            r = s.check()
        if r != z3.unknown:
            return r, (s.model() if r == z3.sat else None), "z3b"
    return z3.unknown, None, ""


def _pure_real(cons):
    seen = set()
    todo = list(cons)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not (z3.is_real(t) or z3.is_bool(t)):
            return False
        todo.extend(t.children())
    return True


def cvc5_check(cons, timeout_ms):
    """Verdict of the cvc5 binary on the same constraints (text interface)."""
    import os
    import shutil
    import subprocess
    import tempfile

    exe = shutil.which("cvc5")
    if exe is None:
        return "unknown"
    s = z3.Solver()
    s.add(*cons)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        try:
            o = subprocess.run([exe, "--tlimit=%d" % int(timeout_ms), p], capture_output=True, text=True,
                               timeout=timeout_ms / 1000 + 5)
        except subprocess.TimeoutExpired:
            return "unknown"
        out = o.stdout + o.stderr
        if "(error" in out:
            return "unknown"
        for line in o.stdout.splitlines():
            if line.strip() in ("sat", "unsat"):
                return line.strip()
        return "unknown"
    finally:
        os.unlink(p)


# --------------------------------------------------------------------------- #
# evaluation of terms under a concrete assignment (translator validation)
# --------------------------------------------------------------------------- #
def model_value(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(30)
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_bv_value(x):
        return x.as_long()
    raise Unsupported("model value %s" % x)


def free_names(t):
    """names of the constants of a term"""
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


class Evaluator:
    """Float evaluation of z3 terms; auxiliary symbols are computed with the
    true functions."""

    def __init__(self, env, aux):
        self.env = dict(env)  # decl name -> number
        self.memo = {}
        self.tie = False
        for v, fn, args in aux:
            try:
                if fn is None:
                    val = None
                else:
                    a = [self.ev(x) for x in args]
                    val = fn(*a)
                    if v.decl().name().startswith("floor!") and abs(a[0] - round(a[0])) < 1e-9:
                        self.tie = True
            except Exception:
                val = None
            self.env[v.decl().name()] = val

    def ev(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][0]
        v = self._ev(t)
        self.memo[k] = (v, t)
        return v

    def _ev(self, t):
        q = numeral(t)
        if q is not None:
            return float(q) if z3.is_real(t) else int(q)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_bv_value(t):
            return t.as_long()
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            v = self.env[d.name()]
            if v is None:
                raise ValueError("no value for " + d.name())
            return v
        if k == z3.Z3_OP_ITE:
            return self.ev(t.arg(1)) if self.ev(t.arg(0)) else self.ev(t.arg(2))
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in t.children())
        if k == z3.Z3_OP_OR:
            return any(self.ev(c) for c in t.children())
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(t.arg(0))) or self.ev(t.arg(1))
        a = [self.ev(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in a:
                r = r * x
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1]
        if k == z3.Z3_OP_IDIV:
            return a[0] // a[1]
        if k == z3.Z3_OP_MOD:
            return a[0] % a[1]
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return a[0] == math.floor(a[0])
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_real(t.arg(0)):
            if abs(a[0] - a[1]) < 1e-9 * (1 + abs(a[0])):
                self.tie = True
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_XOR:
            return bool(a[0]) != bool(a[1])
        if k == z3.Z3_OP_BV2INT:
            return a[0]
        if k == z3.Z3_OP_BAND:
            r = a[0]
            for x in a[1:]:
                r &= x
            return r
        if k == z3.Z3_OP_BOR:
            r = a[0]
            for x in a[1:]:
                r |= x
            return r
        if k == z3.Z3_OP_BXOR:
            r = a[0]
            for x in a[1:]:
                r ^= x
            return r
        if k == z3.Z3_OP_INT2BV:
            return a[0]
        if k == z3.Z3_OP_BNOT:
            return ~a[0] & ((1 << t.size()) - 1)
        raise ValueError("eval %s" % d)
