"""Learning-rate schedules."""
from symx.runner import Harness

ASSUMPTIONS = ["iterations count from 1 to the maximal number"]
OUTSIDE = "more iterations than stated"


def rates(H, kind, mx):
    m = H.mod("learning_rate")
    f = {"constant": m.constant_learn_rate_one, "linear": m.linear_learn_rate, "half": m.half_linear_learn_rate,
         "logistic": m.logistic_learn_rate}[kind]
    M = H.int("max", 1, mx) if kind != "logistic" else H.cint("max", 1, mx)
    i = H.int("i", 1, mx)
    j = H.int("j", 1, mx)
    H.assume(i <= M)
    H.assume(j <= M)
    a, b = f(i, M), f(j, M)
    H.check("a learning rate is positive and at most 1", H.and_(H.gt(a, 0), H.le(a, 1)))
    H.check("learning rates do not decrease", H.implies(H.isle(i, j), H.le(a, b)))
    last = f(M, M)
    if kind == "logistic":
        H.check("the last iteration has (practically) full learning rate", H.and_(H.ge(last, 0.999), H.le(last, 1)))
    else:
        H.check("the last iteration has full learning rate", H.eq(last, 1.0))
    if kind == "linear":
        H.check("proportional to the iteration", H.eq(a * M, i * 1.0))
    if kind == "half":
        H.check("full rate from half of the iterations on, proportional before",
                H.and_(H.implies(H.isle(M, 2 * i), H.eq(a, 1.0)), H.implies(H.lt(2 * i, M), H.eq(a * M, 2.0 * i))))
    if kind == "constant":
        H.check("constant 1", H.eq(a, 1.0))
    H.observe("a", a)


def default(H):
    """the default schedule of the estimators is half linear; hierarchical models use rate 1"""
    from checks import cbstub

    m = H.mod("learning_rate")
    it = H.cint("it", 0, 5)
    mx = H.cint("mx", 1, 6)
    est, _ = cbstub.make(H, "identity", ["a"], iters=mx)
    est.iteration_ = it
    H.check("default rate", H.eq(est.learning_rate(None), m.half_linear_learn_rate(it + 1, mx)))
    esth, _ = cbstub.make(H, "identity", ["a", "b"], iters=mx, hier=["a"])
    esth.iteration_ = it
    H.check("hierarchical rate", H.eq(esth.learning_rate(None), 1.0))


def harnesses(tier):
    n = 100 if tier == "quick" else 1000
    out = [Harness(k, rates, dict(kind=k, mx=n), "any iterations up to %d" % n) for k in ("constant", "linear", "half")]
    out.append(Harness("logistic", rates, dict(kind="logistic", mx=5 if tier == "quick" else 20), "any iterations"))
    out.append(Harness("default", default, {}, "6 iterations, 6 maxima"))
    return out
