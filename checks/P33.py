"""What the training data means: the order of the rows does not matter, weights count rows, rows without weight are not there."""
from symx.runner import Harness

from checks import capture, cbstub
from checks.capture import NAN, sum_

ASSUMPTIONS = ["special functions (gamma and beta quantiles) are uninterpreted, exp and log uninterpreted with their axioms",
               "the numerical minimiser of generic losses is not part of these harnesses"]
OUTSIDE = "more rows or iterations than stated; effects of rounding in sums"

DESIGN = {"a": [0.0, 1.0, 0.0, NAN], "b": [1.0, 0.0, 0.0, 1.0]}
PROBE = {"a": [0.0, 1.0, NAN, 5.0], "b": [0.0, 1.0, 1.0, 0.0]}


def train(H, name, rows, y, w, groups, iters=1, prior=None, plain=True, price=None, **kw):
    """predictions of a model trained with the given rows of the design"""
    m, c = name.split(".")
    C = getattr(H.mod(m), c)

    class Once(C):
        def is_diverged(self, loss):
            return False

    X = capture.frame(H, {k: [v[i] for i in rows] for k, v in DESIGN.items()})
    X["w"] = H.arr([w[i] for i in range(len(rows))])
    kw = dict(kw, feature_groups=groups, maximal_iterations=iters, weight_column="w", minimal_loss_change=-1e9, minimal_factor_change=-1e9,
              learn_rate=capture.one)
    if plain:
        kw["smoother_choice"] = capture.plain_choice(H)
    else:
        u = H.mod("flags").IS_UNORDERED
        kw["feature_properties"] = {"a": u, "b": u}
    Q = capture.frame(H, PROBE)
    if prior is not None:
        X["p"] = H.arr([prior[i] for i in rows])
        Q["p"] = H.arr([1.0, 2.0, 0.5, 1.0])
        kw["prior_prediction_column"] = "p"
    if "price" in m:
        X["price"] = H.arr([[0.5, 1.0, 2.0, 1.5][i] for i in rows])
        Q["price"] = H.arr([0.5, 1.0, 2.0, 1.5])
        kw.update(standard_feature_groups=kw.pop("feature_groups"), external_colname="price", external_feature_groups=["b"])
    est = Once(**kw)
    est.fit(X, H.arr(y))
    pred = H.items(est.predict(Q)) if m != "classification" else H.items(est.predict_proba(Q))
    return pred, est


def targets(H, name, free=2):
    v = [H.real("y%d" % i, lo=0.25, hi=8) for i in range(free)]
    if "Classifier" in name:
        return [1.0, 0.0, 0.0, 1.0]
    return (v + [1.0, 3.0, 2.0, 0.5])[:4]


def compare(H, what, a, b, importances=True):
    for x, z in zip(a[0], b[0]):
        H.check(what, H.eq(x, z))
    H.check(what + " (loss)", H.eq(H.items(H.np.asarray(a[1].insample_loss_))[0], H.items(H.np.asarray(b[1].insample_loss_))[0]))
    H.observe("p", H.arr(a[0]))
    if not importances:
        return
    ia, ib = a[1].get_feature_importances(), b[1].get_feature_importances()
    H.check(what + " (importances)", H.and_(set(ia) == set(ib), *[H.eq(ia[k], ib[k]) for k in ia if k in ib]))


def order(H, name, perm, groups, free=1, importances=False, **kw):
    y = targets(H, name, free)
    w = [1.0, 0.5, 2.0, 0.5]
    a = train(H, name, range(4), y, w, groups, **kw)
    b = train(H, name, perm, [y[i] for i in perm], [w[i] for i in perm], groups, **kw)
    compare(H, "the order of the rows does not matter", a, b, importances)


def repeat(H, name, row, groups, free=1, **kw):
    """a row of weight two is the same as two rows"""
    y = targets(H, name, free)
    w = [1.0, 0.5, 1.0, 0.5]
    a = train(H, name, range(4), y, [2 * v if i == row else v for i, v in enumerate(w)], groups, **kw)
    rows = [0, 1, 2, 3, row]
    b = train(H, name, rows, [y[i] for i in rows], [w[i] for i in rows], groups, **kw)
    compare(H, "weights count rows", a, b, False)


def nothing(H, name, row, groups, free=1, **kw):
    """a row without weight does not matter (its bins are known from other rows)"""
    y = targets(H, name, free)
    w = [1.0, 0.5, 1.0, 0.5]
    rows = [0, 1, 2, 3, row]
    z = 1.0 if "Classifier" in name else H.real("z", lo=0, hi=9)
    a = train(H, name, range(4), y, w, groups, **kw)
    b = train(H, name, rows, y + [z], w + [0.0], groups, **kw)
    for x, q in zip(a[0], b[0]):
        H.check("rows without weight do not matter", H.eq(x, q))
    H.observe("p", H.arr(a[0]))


L, LP, P, NB, C, G = ("location.CBLocationRegressor", "location.CBLocPoissonRegressor", "regression.CBPoissonRegressor",
                      "regression.CBNBinomRegressor", "classification.CBClassifier", "GBSregression.CBGBSRegressor")


def harnesses(tier):
    out = []

    def add(hname, fn, b, **p):
        out.append(Harness(hname, fn, p, b, additive=False))

    for name in (L, LP, P, NB, C, G):
        s = name.split(".")[1]
        add("order_" + s, order, "4 rows, a target arbitrary", name=name, perm=[2, 3, 1, 0], groups=["a"],
            importances=name in (C, G))
        add("nothing_" + s, nothing, "4 rows, a target arbitrary", name=name, row=2, groups=["a"])
    for name in (P, NB, C):
        s = name.split(".")[1]
        add("repeat_" + s, repeat, "4 rows, a target arbitrary", name=name, row=0, groups=["a"])
    for name in (P, C):
        s = name.split(".")[1]
        add("smooth_order_" + s, order, "4 rows, a target arbitrary", name=name, perm=[1, 3, 0, 2], groups=["a"], plain=False)
        add("smooth_repeat_" + s, repeat, "4 rows, a target arbitrary", name=name, row=2, groups=["a"], plain=False)
        add("smooth_nothing_" + s, nothing, "4 rows, a target arbitrary", name=name, row=0, groups=["a"], plain=False)
    add("two_order", order, "4 rows, three targets arbitrary, two features", name=G, perm=[3, 2, 0, 1], groups=["a", "b"], free=3)
    add("pair_order", order, "4 rows, a target arbitrary, a pair of columns", name=P, perm=[3, 2, 0, 1], groups=[("a", "b")])
    add("prior_order", order, "4 rows, a target arbitrary, prior predictions", name=P, perm=[3, 2, 0, 1], groups=["b"], prior=[1.0, 2.0, 0.5, 1.0])
    if tier == "thorough":
        for name in (L, P, NB):
            add("order_imp_" + name.split(".")[1], order, "4 rows, a target arbitrary", name=name, perm=[2, 3, 1, 0], groups=["a"], importances=True)
        for name in (P, NB, G):
            add("two_nothing_" + name.split(".")[1], nothing, "4 rows, a target arbitrary, two features", name=name, row=1, groups=["a", "b"])
    return out
