"""Link functions: inverse pairs, monotone, right range."""
from symx.runner import Harness

ASSUMPTIONS = ["exp and log are the mathematical functions (axioms: congruence, strict monotonicity, inverse pair, bounds); rounding and "
               "overflow are outside"]
OUTSIDE = "rounding near the ends of the range"


def make(H, link):
    m = H.mod("link")
    mixin = {"log": m.LogLinkMixin, "identity": m.IdentityLinkMixin, "logit": m.LogitLinkMixin}[link]

    class L(mixin):
        pass
    return L()


def link(H, kind, lo, hi):
    L = make(H, kind)
    x = H.reals("x", 2, lo=lo, hi=hi)
    if kind == "logit":
        for v in H.items(x):
            H.assume(v > 0)
            H.assume(v < 1)
    if kind == "log":
        for v in H.items(x):
            H.assume(v > 0)
    keep = H.arr(H.items(x))
    l = L.link_func(x)
    a, b = H.items(l)
    p, q = H.items(x)
    H.check("values of the target space map to finite link values", H.and_(H.finite(a), H.finite(b)))
    H.check("strictly increasing", H.iff(H.lt(p, q), H.lt(a, b)))
    back = H.items(L.unlink_func(l))
    H.check("unlink undoes link", H.and_(H.eq(back[0], p), H.eq(back[1], q)))
    H.check("the caller's array is not modified", H.arr_eq(keep, x))
    H.check("target values are in range", H.is_(H.np.all(L.is_in_range(x)), True))
    H.observe("l", l)


def unlink(H, kind):
    L = make(H, kind)
    l = H.reals("l", 2, lo=-20, hi=20)
    keep = H.arr(H.items(l))
    p = L.unlink_func(l)
    a, b = H.items(p)
    u, v = H.items(l)
    if kind == "log":
        H.check("range: positive", H.and_(H.gt(a, 0), H.gt(b, 0)))
    elif kind == "logit":
        H.check("range: between 0 and 1", H.and_(H.gt(a, 0), H.lt(a, 1)))
    H.check("increasing", H.implies(H.isle(u, v), H.le(a, b)))
    H.check("the caller's array is not modified", H.arr_eq(keep, l))
    H.check("unlinked values are in range", H.is_(H.np.all(L.is_in_range(p)), True))
    back = H.items(L.link_func(p))
    H.check("link undoes unlink", H.and_(H.eq(back[0], u), H.eq(back[1], v)))
    H.observe("p", p)


def neutral(H, kind):
    L = make(H, kind)
    one = H.items(L.unlink_func(H.arr([0.0])))[0]
    H.check("neutral element", H.eq(one, {"log": 1.0, "identity": 0.0, "logit": 0.5}[kind]))
    if kind == "log":
        x = H.reals("x", 2, lo=0.001, hi=1000)
        l = H.items(L.link_func(x))
        s = H.items(L.unlink_func(H.arr([l[0] + l[1]])))[0]
        H.check("sums in link space are products", H.eq(s, x[0] * x[1]))
        H.observe("s", s)
    if kind == "logit":
        x = H.real("x", gt=0, lt=1)
        l = H.items(L.link_func(H.arr([x, 1.0 - x])))
        H.check("complementary probabilities have opposite link values", H.eq(l[0], -l[1]))
        z = H.real("z", lo=-20, hi=20)
        p = H.items(L.unlink_func(H.arr([z, -z])))
        H.check("opposite link values are complementary probabilities", H.eq(p[0] + p[1], 1.0))
        H.observe("l", H.arr(l))


def out_of_range(H, kind):
    L = make(H, kind)
    x = H.reals("x", 2, lo=-100, hi=100)
    a, b = H.items(x)
    got = H.np.all(L.is_in_range(x))
    if kind == "log":
        want = H.and_(H.gt(a, 0), H.gt(b, 0))
    elif kind == "logit":
        want = H.and_(H.isle(0, a), H.isle(a, 1), H.isle(0, b), H.isle(b, 1))
    else:
        want = H.isle(a, a)
    H.check("range test", H.iff(H.is_(got, True), want))
    H.observe("got", got)


def harnesses(tier):
    out = []
    for k, lo, hi in (("log", 0, 1e6), ("identity", -1e6, 1e6), ("logit", 0, 1)):
        out.append(Harness("link_" + k, link, dict(kind=k, lo=lo, hi=hi), "any two target values"))
        out.append(Harness("unlink_" + k, unlink, dict(kind=k), "any two link values in [-20, 20]"))
        out.append(Harness("neutral_" + k, neutral, dict(kind=k), ""))
        out.append(Harness("range_" + k, out_of_range, dict(kind=k), "any two values"))
    return out
