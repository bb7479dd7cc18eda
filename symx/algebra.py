"""Exact rational-function algebra and interval facts about z3 real terms.

Two cheap, sound deductions that keep nonlinear arithmetic away from the
solver where it is not needed: (1) identity of terms as rational functions
(all denominators occurring in a path are non-zero on it, the engine branches
on that before it divides), (2) signs that follow from known bounds of the
atoms by interval arithmetic.
"""
from fractions import Fraction

import z3

LIMIT = 4000
INF = float("inf")


class TooBig(Exception):
    pass


def numeral(t):
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def _pmul(p, q):
    if len(p) * len(q) > LIMIT:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def is_one(p):
    return len(p) == 1 and p.get(()) == 1


class Algebra:
    """Per-path: atoms are z3 terms kept alive in ``self.keep``."""

    def __init__(self):
        self.memo = {}
        self.keep = {}
        self.bounds = {}  # atom id -> [lo, lo_strict, hi, hi_strict]
        self.facts = {}  # normalised polynomial -> [lo, lo_strict, hi, hi_strict]
        self.imemo = {}
        self.squares = {}  # id of a square-root symbol -> its argument

    # -- rational functions ------------------------------------------------ #
    def rat(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            self.keep[k] = t
            try:
                r = self._rat(t)
            except TooBig:
                r = "big"
            self.memo[k] = r
        if r == "big":
            raise TooBig()
        return r

    def _rat(self, t):
        q = numeral(t)
        if q is not None:
            return ({(): q} if q else {}), ONE
        kind = t.decl().kind()
        if kind == z3.Z3_OP_ADD or kind == z3.Z3_OP_SUB:
            ch = t.children()
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                m, e = self.rat(c)
                s = 1 if kind == z3.Z3_OP_ADD else -1
                if d == e:
                    n = _padd(n, m, s)
                else:
                    n, d = _padd(_pmul(n, e), _pmul(m, d), s), _pmul(d, e)
                if len(n) > LIMIT:
                    raise TooBig()
            return n, d
        if kind == z3.Z3_OP_UMINUS:
            n, d = self.rat(t.arg(0))
            return {m: -c for m, c in n.items()}, d
        if kind == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in t.children():
                m, e = self.rat(c)
                n, d = _pmul(n, m), (d if is_one(e) else _pmul(d, e))
            return self._cancel(n, d)
        if kind == z3.Z3_OP_DIV:
            n, d = self.rat(t.arg(0))
            m, e = self.rat(t.arg(1))
            if not m:
                raise TooBig()
            return self._cancel(_pmul(n, e), _pmul(d, m))
        if kind == z3.Z3_OP_POWER:
            q = numeral(t.arg(1))
            if q is not None and q.denominator == 1 and 0 <= q <= 8:
                n, d = self.rat(t.arg(0))
                rn, rd = ONE, ONE
                for _ in range(int(q)):
                    rn, rd = _pmul(rn, n), _pmul(rd, d)
                return rn, rd
        if kind == z3.Z3_OP_TO_REAL and not z3.is_const(t.arg(0)) and t.arg(0).decl().kind() in (
                z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return self.rat(t.arg(0))
        if kind == z3.Z3_OP_TO_REAL:
            t = t.arg(0)
        k = t.get_id()
        self.keep[k] = t
        return {((k, 1),): Fraction(1)}, ONE

    def _cancel(self, n, d):
        if is_one(d) or not n:
            return n, (ONE if not n else d)
        if n == d:
            return ONE, ONE
        if len(d) == 1:
            (m, c), = d.items()
            if not m:
                return {k: v / c for k, v in n.items()}, ONE
            # cancel common monomial
            com = dict(m)
            for k in n:
                kk = dict(k)
                com = {a: min(e, kk.get(a, 0)) for a, e in com.items() if kk.get(a, 0)}
                if not com:
                    break
            if com:
                def red(k):
                    kk = dict(k)
                    for a, e in com.items():
                        kk[a] -= e
                        if not kk[a]:
                            del kk[a]
                    return tuple(sorted(kk.items()))
                return {red(k): v / c for k, v in n.items()}, {red(m): Fraction(1)}
        # proportional polynomials
        if len(n) == len(d) and set(n) == set(d):
            m0 = next(iter(n))
            r = n[m0] / d[m0]
            if all(n[m] == r * d[m] for m in n):
                return {(): r}, ONE
        return n, d

    def polynomial(self, t):
        """an equal term without fractions where there is one"""
        try:
            n, d = self.rat(t)
        except TooBig:
            return t
        return self._term(n) if is_one(d) and 0 < len(n) <= 50 else t

    def diff(self, a, b):
        """numerator and denominator of a-b"""
        n, d = self.rat(a)
        m, e = self.rat(b)
        if d == e:
            return _padd(n, m, -1), d
        return _padd(_pmul(n, e), _pmul(m, d), -1), _pmul(d, e)

    def same(self, a, b):
        if a.eq(b):
            return True
        if z3.is_int(a) != z3.is_int(b):
            return False
        try:
            return not self.unroot(self.diff(a, b)[0])
        except TooBig:
            return False

    def unroot(self, n):
        """The polynomial (up to a non-zero factor) with squares of square
        roots replaced by their arguments."""
        for _ in range(20):
            k = next((k for m in n for k, e in m if e > 1 and k in self.squares), None)
            if k is None:
                return n
            an, ad = self.rat(self.squares[k])
            top = max(dict(m).get(k, 0) // 2 for m in n)
            pn, pd = [ONE], [ONE]
            for _ in range(top):
                pn.append(_pmul(pn[-1], an))
                pd.append(_pmul(pd[-1], ad))
            r = {}
            for m, c in n.items():
                e = dict(m).get(k, 0)
                rest = tuple((a, x) for a, x in m if a != k)
                if e % 2:
                    rest = _mmul(rest, ((k, 1),))
                r = _padd(r, _pmul({rest: c}, _pmul(pn[e // 2], pd[top - e // 2])))
            n = r
        raise TooBig()

    # -- bounds -------------------------------------------------------------- #
    def learn(self, f, pos=True):
        """Record the bounds a fact implies."""
        kind = f.decl().kind() if z3.is_app(f) else None
        if kind == z3.Z3_OP_NOT:
            return self.learn(f.arg(0), not pos)
        if kind == z3.Z3_OP_AND and pos or kind == z3.Z3_OP_OR and not pos:
            for c in f.children():
                self.learn(c, pos)
            return
        rel = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}.get(kind)
        if rel is None or not z3.is_arith(f.arg(0)):
            return
        if not pos:
            if rel == "==":
                return
            rel = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[rel]
        try:
            n, d = self.diff(f.arg(0), f.arg(1))
        except TooBig:
            return
        if not is_one(d):
            s = self.psign(d)
            if s == 0 or s is None:
                return
            if s < 0:
                n = {m: -c for m, c in n.items()}
        if not n or len(n) > 200:
            return
        c0 = n.get((), Fraction(0))
        p = {m: c for m, c in n.items() if m}
        if not p:
            return
        key, lead = self._norm(p)
        b = -c0 / lead
        if lead < 0:
            rel = {"<=": ">=", "<": ">", ">=": "<=", ">": "<", "==": "=="}[rel]
        tab = self.facts
        if len(p) == 1:
            (m, _), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                key, tab = m[0][0], self.bounds
        self._tighten(tab, key, b, rel)

    def _tighten(self, tab, key, b, rel):
        e = tab.setdefault(key, [-INF, False, INF, False])
        ch = False
        if rel in (">=", ">", "=="):
            st = rel == ">"
            if b > e[0] or (b == e[0] and st and not e[1]):
                e[0], e[1] = b, st
                ch = True
        if rel in ("<=", "<", "=="):
            st = rel == "<"
            if b < e[2] or (b == e[2] and st and not e[3]):
                e[2], e[3] = b, st
                ch = True
        if ch:
            self.imemo.clear()

    def _norm(self, p):
        ms = sorted(p)
        lead = p[ms[0]]
        return tuple((m, p[m] / lead) for m in ms), lead

    def atom_iv(self, k):
        return self.bounds.get(k, FREE)

    def mono_iv(self, m):
        iv = POINT1
        for k, e in m:
            a = self.atom_iv(k)
            iv = mul(iv, power(a, e))
        return iv

    def poly_iv(self, p):
        iv = [Fraction(0), False, Fraction(0), False]
        c0 = Fraction(0)
        rest = {}
        for m, c in p.items():
            if not m:
                c0 = c
                continue
            rest[m] = c
            iv = add(iv, scale(self.mono_iv(m), c))
        if rest and self.facts:
            key, lead = self._norm(rest)
            f = self.facts.get(key)
            if f is not None:
                iv = meet(iv, scale(f, lead))
        return add(iv, [c0, False, c0, False])

    def psign(self, p):
        """1, -1, 0 when known"""
        if not p:
            return 0
        return sign(self.poly_iv(p))

    def iv(self, t):
        """interval of a term (recursive and of its expanded form)"""
        k = t.get_id()
        r = self.imemo.get(k)
        if r is not None:
            return r
        r = self._iv(t)
        try:
            n, d = self.rat(t)
            if is_one(d):
                r = meet(r, self.poly_iv(n))
            elif len(n) < 500 and len(d) < 500:
                r = meet(r, div(self.poly_iv(n), self.poly_iv(d)))
        except TooBig:
            pass
        self.keep[k] = t
        self.imemo[k] = r
        return r

    def _iv(self, t):
        q = numeral(t)
        if q is not None:
            return [q, False, q, False]
        kind = t.decl().kind()
        ch = t.children()
        if kind == z3.Z3_OP_ADD:
            r = self.iv(ch[0])
            for c in ch[1:]:
                r = add(r, self.iv(c))
            return r
        if kind == z3.Z3_OP_SUB:
            r = self.iv(ch[0])
            for c in ch[1:]:
                r = add(r, scale(self.iv(c), Fraction(-1)))
            return r
        if kind == z3.Z3_OP_UMINUS:
            return scale(self.iv(ch[0]), Fraction(-1))
        if kind == z3.Z3_OP_MUL:
            groups = {}
            for c in ch:
                groups.setdefault(c.get_id(), [c, 0])[1] += 1
            r = POINT1
            for c, e in groups.values():
                r = mul(r, power(self.iv(c), e))
            return r
        if kind == z3.Z3_OP_DIV:
            return div(self.iv(ch[0]), self.iv(ch[1]))
        if kind == z3.Z3_OP_ITE and z3.is_arith(t):
            a, b = self.iv(ch[1]), self.iv(ch[2])
            return hull(a, b)
        if kind == z3.Z3_OP_TO_REAL:
            return self.iv(ch[0])
        return self.atom_iv(t.get_id())

    def decide(self, s):
        """True/False when the comparison follows, else None"""
        kind = s.decl().kind()
        if kind == z3.Z3_OP_NOT:
            r = self.decide(s.arg(0))
            return None if r is None else not r
        if kind == z3.Z3_OP_AND:
            rs = [self.decide(c) for c in s.children()]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if kind == z3.Z3_OP_OR:
            rs = [self.decide(c) for c in s.children()]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if kind not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return None
        a, b = s.arg(0), s.arg(1)
        if not z3.is_arith(a):
            return None
        iv = add(self.iv(a), scale(self.iv(b), Fraction(-1)))
        try:
            n, d = self.diff(a, b)
            if not n:
                return kind in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ)
            if is_one(d):
                iv = meet(iv, self.poly_iv(n))
            elif len(n) < 1500 and len(d) < 1500:
                iv = meet(iv, div(self.poly_iv(n), self.poly_iv(d)))
        except TooBig:
            pass
        lo, ls, hi, hs = iv
        pos = lo > 0 or (lo == 0 and ls)
        neg = hi < 0 or (hi == 0 and hs)
        nonneg = lo >= 0
        nonpos = hi <= 0
        if kind == z3.Z3_OP_LE:
            return True if nonpos else (False if pos else None)
        if kind == z3.Z3_OP_LT:
            return True if neg else (False if nonneg else None)
        if kind == z3.Z3_OP_GE:
            return True if nonneg else (False if neg else None)
        if kind == z3.Z3_OP_GT:
            return True if pos else (False if nonpos else None)
        return False if pos or neg else None

    def reduce(self, f):
        """Replace real equations that are rational identities by true."""
        kind = f.decl().kind() if z3.is_app(f) else None
        if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_NOT):
            ch = [self.reduce(c) for c in f.children()]
            if kind == z3.Z3_OP_AND:
                return z3.And(ch)
            if kind == z3.Z3_OP_OR:
                return z3.Or(ch)
            if kind == z3.Z3_OP_NOT:
                return z3.Not(ch[0])
            return z3.Implies(*ch)
        if kind == z3.Z3_OP_EQ and z3.is_arith(f.arg(0)):
            if self.same(f.arg(0), f.arg(1)):
                return z3.BoolVal(True)
            return f
        r = self.decide(f) if kind in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) else None
        return f if r is None else z3.BoolVal(r)


    def _term(self, p):
        out = []
        for m, c in p.items():
            t = None
            for k, e in m:
                a = self.keep[k]
                if z3.is_int(a):
                    a = z3.ToReal(a)
                for _ in range(e):
                    t = a if t is None else t * a
            q = z3.RealVal(str(c))
            out.append(q if t is None else (t if c == 1 else q * t))
        return z3.Sum(out) if len(out) != 1 else out[0]

    def clear(self, f):
        """The same condition without divisions where the signs of the
        denominators are known (on this path)."""
        kind = f.decl().kind() if z3.is_app(f) else None
        if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_NOT):
            ch = [self.clear(c) for c in f.children()]
            if all(a.eq(b) for a, b in zip(ch, f.children())):
                return f
            if kind == z3.Z3_OP_AND:
                return z3.And(ch)
            if kind == z3.Z3_OP_OR:
                return z3.Or(ch)
            if kind == z3.Z3_OP_NOT:
                return z3.Not(ch[0])
            return z3.Implies(*ch)
        if kind not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return f
        a, b = f.arg(0), f.arg(1)
        if not z3.is_real(a):
            return f
        try:
            n, d = self.diff(a, b)
        except TooBig:
            return f
        if is_one(d) or len(n) > 60:
            return f
        if kind == z3.Z3_OP_EQ:
            return self._term(n) == 0 if n else z3.BoolVal(True)
        sg = self.psign(d)
        if sg is None or sg == 0:
            return f
        if not n:
            return z3.BoolVal(kind in (z3.Z3_OP_LE, z3.Z3_OP_GE))
        t = self._term(n if sg > 0 else {m: -c for m, c in n.items()})
        return {z3.Z3_OP_LE: t <= 0, z3.Z3_OP_LT: t < 0, z3.Z3_OP_GE: t >= 0, z3.Z3_OP_GT: t > 0}[kind]


FREE = [-INF, False, INF, False]
POINT1 = [Fraction(1), False, Fraction(1), False]


def sign(iv):
    lo, ls, hi, hs = iv
    if lo > 0 or (lo == 0 and ls):
        return 1
    if hi < 0 or (hi == 0 and hs):
        return -1
    return None


def _x(a, b):
    if a == 0 or b == 0:
        return Fraction(0)
    return a * b


def add(p, q):
    return [p[0] + q[0], p[1] or q[1], p[2] + q[2], p[3] or q[3]]


def scale(p, c):
    if c == 0:
        return [Fraction(0), False, Fraction(0), False]
    if c > 0:
        return [_x(p[0], c), p[1], _x(p[2], c), p[3]]
    return [_x(p[2], c), p[3], _x(p[0], c), p[1]]


def meet(p, q):
    lo, ls = max((p[0], p[1]), (q[0], q[1]))
    hi, hs = min((p[2], not p[3]), (q[2], not q[3]))
    return [lo, ls, hi, not hs]


def hull(p, q):
    lo, ls = min((p[0], p[1]), (q[0], q[1]))
    hi, hs = max((p[2], not p[3]), (q[2], not q[3]))
    return [lo, ls, hi, not hs]


def mul(p, q):
    if p == POINT1:
        return q
    if q == POINT1:
        return p
    c = []
    for a, sa in ((p[0], p[1]), (p[2], p[3])):
        for b, sb in ((q[0], q[1]), (q[2], q[3])):
            v = _x(a, b)
            # an end point is attained if both factors are, or if one is an attained zero
            st = (sa or sb) and not ((a == 0 and not sa) or (b == 0 and not sb))
            c.append((v, st))
    lo = min(v for v, _ in c)
    hi = max(v for v, _ in c)
    return [lo, all(s for v, s in c if v == lo), hi, all(s for v, s in c if v == hi)]


def power(p, e):
    r = p
    for _ in range(e - 1):
        r = mul(r, p)
    if e % 2 == 0:
        s = sign(p)
        r = meet(r, [Fraction(0), s is not None, INF, False])
    return r


def div(p, q):
    s = sign(q)
    if s is None:
        return FREE
    if s < 0:
        return div(scale(p, Fraction(-1)), scale(q, Fraction(-1)))
    # 0 < q
    lo = Fraction(0) if q[2] == INF else 1 / Fraction(q[2])
    hi = INF if q[0] == 0 else 1 / Fraction(q[0])
    return mul(p, [lo, q[3] or q[2] == INF, hi, q[1] or hi == INF])
