"""The loss that steers the training: value, range and the prediction it belongs to."""
from symx.runner import Harness

from checks import capture, cbstub
from checks.capture import NAN, sum_

ASSUMPTIONS = ["bin estimates and smoothers of the training are arbitrary (stubbed); exp and log are uninterpreted with their axioms"]
OUTSIDE = "more rows or iterations than stated; the negative binomial likelihood (see the dispersion model); rounding"

SQUARED = ["location.CBLocationRegressor", "location.CBLocPoissonRegressor", "regression.CBPoissonRegressor", "regression.CBNBinomRegressor",
           "classification.CBClassifier", "price.CBExponential"]
PINBALL = ["generic_loss.CBMultiplicativeQuantileRegressor", "generic_loss.CBAdditiveQuantileRegressor"]
OWN = ["generic_loss.CBMultiplicativeGenericCRegressor", "generic_loss.CBAdditiveGenericCRegressor", "generic_loss.CBGenericClassifier"]
GBS = "GBSregression.CBGBSRegressor"


def make(H, name, base=None, **kw):
    m, c = name.split(".")
    C = base or getattr(H.mod(m), c)
    if name in PINBALL:
        kw.setdefault("quantile", 0.25)
    if name in OWN:
        kw["costs"] = cubes
    if "price" in m:
        kw["standard_feature_groups"] = kw.pop("feature_groups", ["a"])
        kw.update(external_colname="price", external_feature_groups=["b"])
    return C(**kw)


def cubes(prediction, y, weights):
    """some loss of the user"""
    return (weights * (prediction - y) * (prediction - y) * prediction).sum()


def expected(H, name, p, y, w, q=0.25):
    """the documented loss"""
    if name in PINBALL:
        s = 0.0
        for a, b, c in zip(p, y, w):
            s = s + c * ((1 - q) * (a - b) if H.fork(H.lt(b, a)) else q * (b - a))
        return s / sum_(w)
    if name in OWN:
        return sum_([c * (a - b) * (a - b) * a for a, b, c in zip(p, y, w)])
    s = sum_([c * (a - b) * (a - b) for a, b, c in zip(p, y, w)])
    if name == GBS:
        return s / sum_([c for b, c in zip(y, w) if not H.fork(H.is_(b, 0.0))])
    return s / sum_(w)


def value(H, name, n):
    """loss of any predictions"""
    est = make(H, name)
    p, y = H.reals("p", n, lo=-20, hi=20), H.reals("y", n, lo=-20, hi=20)
    w = H.reals("w", n, lo=0, hi=8)
    it = H.items
    H.assume(H.ge(sum_(it(w)), 0.125))
    if name == GBS:
        for c in it(w):
            H.assume(H.ge(c, 0.125))
        H.assume(H.gt(it(y)[0], 0))
    args = [a.copy() for a in (p, y, w)]
    got = it(H.np.asarray(est.loss(p, y, w)))[0]
    want = expected(H, name, it(p), it(y), it(w))
    H.check("the loss is the documented error", H.eq(got, want))
    if name not in OWN:
        H.check("losses are not negative", H.ge(got, 0))
        H.check("a perfect prediction has no loss", H.eq(it(H.np.asarray(est.loss(y.copy(), y, w)))[0], 0.0))
        H.check("only relative weights count", H.eq(it(H.np.asarray(est.loss(p, y, w * 4.0)))[0], got))
    H.check("the arguments are not changed", H.all_([H.arr_eq(a, b) for a, b in zip(args, (p, y, w))]))
    H.observe("v", H.arr([got]))


DESIGN = {"a": [0.0, 1.0, NAN], "b": [0.0, 0.0, 1.0]}


def fitted(H, name, iters=1):
    """after the training the in-sample loss is that of the model's own predictions, the initial loss that of the baseline"""
    m, c = name.split(".")
    base = getattr(H.mod(m), c)
    np = H.np
    log = cbstub.Log()
    seen = []
    y = H.arr([1.0, 0.0, 1.0])
    wi = [1.0, 2.0, 1.0]

    class Any(base):
        def calc_parameters(self, feature, y, pred, prefit_data):
            return H.reals(log.fresh("f"), feature.n_bins, lo=-0.5, hi=0.5), np.ones(feature.n_bins)

        def precalc_parameters(self, feature, y, pred):
            return None

        def loss(self, prediction, y, weights):
            v = super().loss(prediction, y, weights)
            seen.append((H.items(prediction), H.items(y), H.items(weights), v))
            return v

        def is_diverged(self, loss):
            return False

    kw = dict(feature_groups=["a"], maximal_iterations=iters, smoother_choice=capture.plain_choice(H), learn_rate=capture.one,
              weight_column="w", minimal_loss_change=-1e9, minimal_factor_change=-1e9)
    est = make(H, name, Any, **kw)
    X = capture.frame(H, DESIGN)
    X["w"] = H.arr(wi)
    if "price" in m:
        X["price"] = H.arr([1.0, 0.5, 2.0])
    est.fit(X.copy(), y)
    p = H.items(est.predict(X.copy())) if m != "classification" else H.items(est.predict_proba(X.copy()))[1::2]
    want = expected(H, name, p, H.items(y), wi)
    H.check("the in-sample loss is that of the fitted model on the training data", H.eq(H.items(np.asarray(est.insample_loss_))[0], want))
    H.check("iterations", est.iteration_ == iters)
    start = seen[0][0]
    H.check("all losses are taken with the training targets and weights",
            H.all_([H.and_(*[H.eq(a, b) for a, b in zip(s[1] + s[2], H.items(y) + wi)]) for s in seen]))
    H.check("the initial loss is that of one baseline prediction", H.and_(H.eq(start[0], start[1]) if "price" not in m else True,
            H.eq(H.items(np.asarray(est.initial_loss_))[0], expected(H, name, start, H.items(y), wi))))
    H.observe("p", H.arr(p))


def empty(H):
    """without data there is no loss"""
    for name in SQUARED[:4]:
        est = make(H, name)
        e = H.arr([])
        H.check("no loss of no data", H.raises(ValueError, est.loss, e, e, e)[0])


def harnesses(tier):
    out = []

    def add(hname, fn, b, **p):
        out.append(Harness(hname, fn, p, b, **({"additive": False} if fn is fitted else {})))

    for name in SQUARED + PINBALL + OWN + [GBS]:
        add("value_" + name.split(".")[1], value, "2 rows, any predictions, targets and weights", name=name, n=2)
    for name in SQUARED + PINBALL + OWN + [GBS]:
        add("fitted_" + name.split(".")[1], fitted, "3 rows, any estimates, 1 iteration", name=name)
    add("fitted2", fitted, "3 rows, any estimates, 2 iterations", name=SQUARED[0], iters=2)
    add("empty", empty, "no rows")
    if tier == "thorough":
        for name in SQUARED[:1] + PINBALL + [GBS]:
            add("value3_" + name.split(".")[1], value, "3 rows, any predictions, targets and weights", name=name, n=3)
        for name in PINBALL + [GBS]:
            add("fitted2_" + name.split(".")[1], fitted, "3 rows, any estimates, 2 iterations", name=name, iters=2)
    return out
