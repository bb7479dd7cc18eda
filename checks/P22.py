"""Feature importances; refitting; inputs stay unchanged."""
from symx.runner import Harness

from checks import cbstub
from checks.capture import sum_
from checks.cbstub import NAN

ASSUMPTIONS = ["per-bin estimates and smoother results are arbitrary values (stubs of the abstract methods); the training loop is the real code"]
OUTSIDE = "more rows, features or iterations than stated"

DESIGN = {"a": [0.0, 1.0, NAN], "b": [1.0, 0.0, 0.0]}
OTHER = {"a": [2.0, 0.0, 0.0, 1.0], "b": [NAN, 0.0, 1.0, 0.0]}


def frame(H, d, array, extra=None):
    d = dict(d, **(extra or {}))
    if not array:
        return cbstub.frame(H, d)
    return H.np.c_[tuple(H.arr(v) if isinstance(v, list) else v for v in d.values())]


def imp(H, groups, array, iters, again=False, signs=None, weight=False):
    names = {"a": 0, "b": 1} if array else {"a": "a", "b": "b"}
    ng = [tuple(names[c] for c in g) if isinstance(g, tuple) else names[g] for g in groups]
    first, second = (OTHER, DESIGN) if again else (DESIGN, None)
    est, log = cbstub.make(H, "identity", ng, iters=iters, free_loss=False, lo=-1, hi=1, signs=signs, weight="w" if weight else None)
    raised, _ = H.raises(ValueError, est.get_feature_importances)
    H.check("importances need a fitted model", raised)
    n = len(first["a"])
    est.fit(frame(H, first, array, {"w": [1.0, 4.0, 0.5]} if weight else None), H.arr([1.0] * n))
    d = first
    if again:
        d = second
        del log.calls[:], log.fits[:]
        est.fit(frame(H, second, array), H.arr([1.0, 2.0, 3.0]))
    for i in range(len(log.calls)):
        it, g, v, s = log.calls[i]
        log.calls[i] = (it, tuple({0: "a", 1: "b"}.get(c, c) for c in g), v, s)
    log.fits[:] = [(tuple({0: "a", 1: "b"}.get(c, c) for c in g), v) for g, v in log.fits]
    o = cbstub.Oracle(H, d, groups, "identity")
    cbstub.replay_account(H, log, o, lambda it: cbstub.lin_rate(it + 1, iters))
    rows = cbstub.rows_of(d)
    mean = []
    for g in groups:
        tot = 0.0
        for r in rows:
            c = o.contribution(cbstub.tup(g), r)
            tot = tot + H.np.abs(c)
        mean.append(tot / len(rows))
    total = sum_(mean)
    H.assume(total >= 0.01)
    r = est.get_feature_importances()
    H.check("one importance per feature group", len(r) == len(groups))
    got = [r[k] for k in ("_".join(str(names[c]) for c in cbstub.tup(g)) for g in groups)]
    H.check("importances add up to one", H.eq(sum_(got), 1.0))
    for v, m in zip(got, mean):
        H.check("importances are not negative", H.ge(v, 0.0))
        H.check("the importance is the share of the mean absolute effect on the training rows", H.eq(v * total, m))
    H.observe("imp", H.arr(got))


def simple(H, groups, iters, memo, weight=None, prior=None):
    """estimator whose estimates depend on iteration, feature and the current prediction only"""
    base, links, cs, one, multi = (H.mod(m) for m in ("base", "link", "common_smoothers", "smoothing.onedim", "smoothing.multidim"))

    class Fixed(base.CyclicBoostingBase, links.IdentityLinkMixin):
        def _check_y(self, y):
            pass

        def precalc_parameters(self, feature, y, pred):
            return None

        def calc_parameters(self, feature, y, pred, prefit_data):
            k = (self.iteration_, feature.feature_group, feature.n_bins)
            if k not in memo:
                memo[k] = H.reals("f%d" % len(memo), feature.n_bins, lo=-3, hi=3)
            p = H.items(pred.predict_link())
            return memo[k] * 1.0 + 0.125 * p[0], H.np.ones(feature.n_bins)

        def loss(self, prediction, y, weights):
            return H.np.float64(1.0)

    class Choice(cs.SmootherChoice):
        def choice_fct(self, feature_group, feature_property, feature_type=None):
            return one.BinValuesSmoother() if len(feature_group) == 1 else multi.BinValuesSmoother()

    return Fixed(feature_groups=groups, maximal_iterations=iters, smoother_choice=Choice(), minimal_loss_change=-1.0, minimal_factor_change=-1.0,
                 weight_column=weight, prior_prediction_column=prior, aggregate=True)


def refit(H, groups, iters, weight, prior):
    memo = {}
    ex1, ex2, exq = {}, {}, {}
    if weight:
        ex1["w"], ex2["w"] = H.reals("w1", 4, lo=0.5, hi=2), H.reals("w2", 3, lo=0.5, hi=2)
    if prior:
        ex1["p"], ex2["p"], exq["p"] = H.reals("p1", 4, lo=0.5, hi=2), H.reals("p2", 3, lo=0.5, hi=2), H.reals("q", 3, lo=0.5, hi=2)
    X1, X2 = frame(H, OTHER, False, ex1), frame(H, DESIGN, False, ex2)
    y1, y2 = H.reals("y1", 4, lo=-3, hi=3), H.reals("y2", 3, lo=-3, hi=3)
    a = simple(H, groups, iters, memo, "w" if weight else None, "p" if prior else None)
    b = simple(H, groups, iters, memo, "w" if weight else None, "p" if prior else None)
    Q = frame(H, {"a": [0.0, NAN, 2.0], "b": [1.0, 0.0, 5.0]}, False, exq)
    a.fit(X1, y1)
    a.predict(Q)
    a.fit(X2, y2)
    b.fit(X2, y2)
    pa, pb = H.items(a.predict(Q)), H.items(b.predict(Q))
    for u, v in zip(pa, pb):
        H.check("a refitted model equals a fresh one", H.eq(u, v))
    ia, ib = a.get_feature_importances(), b.get_feature_importances()
    H.check("also its importances", H.and_(list(ia) == list(ib), *[H.eq(ia[k], ib[k]) for k in ib]))
    H.check("predicting again gives the same result", H.all_([H.eq(u, v) for u, v in zip(H.items(a.predict(Q)), pa)]))
    H.observe("p", H.arr(pa))


def columns(H, iters, weight, prior):
    """no feature groups given: the features are the columns of the data at hand"""
    memo = {}
    ex1, ex2 = {}, {}
    if weight:
        ex1["w"], ex2["w"] = H.arr([0.5, 2.0, 1.0, 0.5]), H.arr([1.0, 0.5, 0.5, 2.0])
    if prior:
        ex1["p"], ex2["p"] = H.reals("p1", 4, lo=0.5, hi=2), H.reals("p2", 4, lo=0.5, hi=2)
    X1, X2 = frame(H, OTHER, False, ex1), frame(H, {"c": OTHER["b"], "a": OTHER["a"]}, False, ex2)
    y1, y2 = H.reals("y1", 4, lo=-3, hi=3), H.reals("y2", 4, lo=-3, hi=3)
    a = simple(H, None, iters, memo, "w" if weight else None, "p" if prior else None)
    b = simple(H, None, iters, memo, "w" if weight else None, "p" if prior else None)
    a.fit(X1, y1)
    H.check("every column but weights and prior is a feature", list(a.get_feature_importances()) == ["a", "b"])
    a.fit(X2, y2)
    b.fit(X2, y2)
    H.check("every column of the new data is a feature", list(b.get_feature_importances()) == ["c", "a"])
    pa, pb = H.items(a.predict(X2)), H.items(b.predict(X2))
    ia, ib = a.get_feature_importances(), b.get_feature_importances()
    H.check("the refitted model has the features of the new data", list(ia) == list(ib))
    H.check("a refitted model equals a fresh one", H.all_([H.eq(u, v) for u, v in zip(pa, pb)]))
    H.check("also its importances", H.and_(*[H.eq(ia[k], ib[k]) for k in ib]))


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        out.append(Harness(name, fn, p, b))

    B = "3 rows, any estimates, %d iterations"
    for k, sg in (("pn", (1, -1)), ("np", (-1, 1, 1))):
        add("imp_" + k, imp, B % 1, groups=["a", "b"], array=False, iters=1, signs=sg)
        add("imp_pair_" + k, imp, B % 1, groups=["b", ("a", "b")], array=False, iters=1, signs=sg)
        add("imp_pair_reversed_" + k, imp, B % 1, groups=[("b", "a"), "a"], array=False, iters=1, signs=sg)
        add("imp_weighted_" + k, imp, B % 1 + ", weighted", groups=["a", "b"], array=False, iters=1, signs=sg, weight=True)
        add("imp_array_" + k, imp, B % 1, groups=["a", "b"], array=True, iters=1, signs=sg)
        add("imp2_" + k, imp, B % 2, groups=["b", "a"], array=False, iters=2, signs=sg)
        add("imp_again_" + k, imp, "4, then 3 rows, any estimates", groups=["a", "b"], array=False, iters=1, again=True, signs=sg)
    add("refit", refit, "4, then 3 rows, any targets and estimates, 2 iterations", groups=["a", "b"], iters=2, weight=False, prior=False)
    add("refit_w", refit, "4, then 3 rows, any targets, weights and estimates", groups=[("b", "a")], iters=1, weight=True, prior=False)
    add("refit_p", refit, "4, then 3 rows, any targets, priors and estimates", groups=["a", ("a", "b")], iters=1, weight=False, prior=True)
    add("columns", columns, "4 rows with columns a, b, then 4 rows with columns c, a; any targets and estimates", iters=1, weight=False, prior=False)
    add("columns_wp", columns, "as columns, with weights, any priors", iters=1, weight=True, prior=True)
    if tier == "thorough":
        add("imp", imp, B % 1, groups=["a", "b"], array=False, iters=1)
        add("imp3", imp, B % 2, groups=["a", "b", ("a", "b")], array=False, iters=2, signs=(1, -1))
        add("refit3", refit, "4, then 3 rows, any targets, weights, priors and estimates, 3 iterations", groups=["a", "b"], iters=3, weight=True, prior=True)
    return out
