"""Observers see the training and do not change it."""
from symx.runner import Harness

from checks import cbstub
from checks.P22 import DESIGN, frame
from checks.P28 import same
from checks.capture import bins, sum_
from checks.cbstub import NAN

ASSUMPTIONS = ["per-bin estimates are arbitrary values; training loop, observers and preparation of the plots are the real code"]
OUTSIDE = "more rows, features or iterations than stated; the plots themselves"

W = [1.0, 4.0, 0.5]


def estimator(H, parent, groups, iters, memo, observers, weight=None, hier=None, hier_iters=1, **kw):
    """real estimator class whose estimates depend on iteration, feature and current prediction only"""
    low = kw.pop("low", -0.5)
    one, multi, cs = H.mod("smoothing.onedim"), H.mod("smoothing.multidim"), H.mod("common_smoothers")

    class Fixed(parent):
        def _check_y(self, y):
            pass

        def precalc_parameters(self, feature, y, pred):
            return None

        def calc_parameters(self, feature, y, pred, prefit_data):
            k = (self.iteration_, feature.feature_group, feature.n_bins)
            if k not in memo:
                memo[k] = H.reals("f%d" % len(memo), feature.n_bins, lo=low, hi=0.5)
            p = H.items(pred.predict_link())
            return memo[k] * 1.0 + 0.125 * p[0], H.np.ones(feature.n_bins)

    Fixed.link_func = lambda self, m: m * 1.0
    Fixed.unlink_func = lambda self, l: l * 1.0
    if "loss" not in kw:
        Fixed.loss = lambda self, prediction, y, weights: H.np.float64(1.0)
    kw.pop("loss", None)

    class Choice(cs.SmootherChoice):
        def choice_fct(self, feature_group, feature_property, feature_type=None):
            return one.BinValuesSmoother() if len(feature_group) == 1 else multi.BinValuesSmoother()

    if hier:
        kw.update(hierarchical_feature_groups=hier, training_iterations_hierarchical_features=hier_iters)
    return Fixed(feature_groups=groups, maximal_iterations=iters, smoother_choice=Choice(), minimal_loss_change=-1.0, minimal_factor_change=-1.0,
                 weight_column=weight, observers=observers, **kw)


def parent(H, kind):
    base, links, gl = H.mod("base"), H.mod("link"), H.mod("generic_loss")
    if kind == "identity":
        class Add(base.CyclicBoostingBase, links.IdentityLinkMixin):
            pass
        return Add, {}
    if kind == "log":
        class Mul(base.CyclicBoostingBase, links.LogLinkMixin):
            pass
        # positive predictions, as with the logarithm
        return Mul, {"aggregate": False, "low": 0.125}
    if kind == "quantile":
        return gl.CBAdditiveQuantileRegressor, {"quantile": 0.5}
    return H.mod("GBSregression").CBGBSRegressor, {}


class Recorder:
    """observer with the documented interface"""

    def __init__(self, H):
        self.H, self.log, self.feat = H, [], []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.log.append((iteration, X, y, list(self.H.items(prediction)), weights, estimator_state, delta, quantile, len(self.feat), [f.feature_group for f in estimator_state["features"]]))

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.feat.append((iteration, feature_i, X, y, list(self.H.items(prediction)), weights))


def silent(H, kind, groups, iters, weight, which, again):
    """the model does not depend on whether somebody watches"""
    obs = H.mod("observers")
    memo = {}
    cls, kw = parent(H, kind)
    X = frame(H, DESIGN, False, {"w": W} if weight else None)
    y = H.reals("y", 3, lo=0.5, hi=3)
    w = "w" if weight else None
    watch = {"base": lambda: [obs.BaseObserver()], "plot": lambda: [obs.PlottingObserver(iteration=1), obs.PlottingObserver()], "record": lambda: [Recorder(H)]}[which]()
    if which == "plot":
        H.assume(H.and_(H.gt(H.items(y)[1], H.items(y)[0] + 0.1)))
    a = estimator(H, cls, groups, iters, memo, watch, w, **kw)
    b = estimator(H, cls, groups, iters, memo, None, w, **kw)
    if which == "plot":
        obs.calc_in_sample_histograms = lambda y, pred, weights, quantile=None: "histogram"
    for e in (a, b):
        e.fit(X, y)
        if again:
            e.fit(X, y)
    Q = frame(H, {"a": [0.0, NAN, 2.0], "b": [1.0, 0.0, 5.0]}, False, None)
    same(H, "a watched training gives the same model", a.predict(Q), b.predict(Q))
    same(H, "also on the training rows", a.predict(X), b.predict(X))
    ia, ib = a.get_feature_importances(), b.get_feature_importances()
    H.check("with the same importances", H.and_(list(ia) == list(ib), *[H.eq(ia[k], ib[k]) for k in ib]))
    ca, cb = a.get_feature_contributions(Q), b.get_feature_contributions(Q)
    for k in cb:
        same(H, "and the same contributions", ca[k], cb[k])
    H.observe("p", H.arr(H.items(a.predict(Q))))


def calls(H, kind, groups, iters, weight, hier=None):
    memo = {}
    cls, kw = parent(H, kind)
    X = frame(H, DESIGN, False, {"w": W} if weight else None)
    y = H.reals("y", 3, lo=0.5, hi=3)
    rec, rec2 = Recorder(H), Recorder(H)
    a = estimator(H, cls, groups, iters, memo, [rec, rec2], "w" if weight else None, hier=hier, **kw)
    a.fit(X, y)
    names = [cbstub.tup(g) for g in groups]
    first = [cbstub.tup(g) for g in hier] if hier else names
    for r in (rec, rec2):
        H.check("called before every iteration and at the end", [c[0] for c in r.log] == list(range(iters)) + [-1])
        want = [(it, i) for it in range(iters) for i, g in enumerate(names) if not hier or it >= 1 or g in first]
        H.check("called after every feature", [c[:2] for c in r.feat] == want)
        ww = H.arr(W if weight else [1.0] * 3)
        for c in r.log:
            H.check("observers get the training data", H.and_(c[1] is X, H.arr_eq(H.arr(H.items(c[2])), H.arr(H.items(y))), H.arr_eq(H.arr(H.items(c[4])), ww)))
            H.check("and the state of the model", H.and_(c[5]["link_function"] is a, H.eq(c[5]["insample_loss"], 1.0)))
            H.check("with the features trained so far", c[9] == (names if not hier or c[0] != 0 else first))
            H.check("quantile models tell their quantile", c[7] == kw.get("quantile"))
        H.check("an iteration lies between two calls", [c[8] for c in r.log] == [sum(1 for w in want if w[0] < k) for k in range(iters)] + [len(want)])
    # the prediction of the last call is the prediction of the model
    same(H, "the last call has the final prediction", H.arr(rec.log[-1][3]), a.predict(X))
    if not hier:
        # the one before iteration k is that of a model trained for k iterations
        for k in range(1, iters):
            b = estimator(H, cls, groups, iters, memo, None, "w" if weight else None, **kw)
            stop(H, b, k)
            b.fit(X, y)
            same(H, "earlier calls have the prediction of the iterations before", H.arr(rec.log[k][3]), b.predict(X))
    H.observe("p", H.arr(rec.log[-1][3]))


def stop(H, est, k):
    """end the training of est after k iterations, with the learning rates of the longer training"""
    est.minimal_loss_change = 1e30
    seen = []

    def loss(prediction, y, weights):
        # the stopping rule looks at the relative change of the loss: none means stop
        seen.append(1)
        return H.np.float64(2.0 ** -len(seen)) if len(seen) <= k else H.np.float64(2.0 ** -(len(seen) - 1))

    est.loss = loss
    est.minimal_loss_change = 0.0


def plots(H, kind, groups, weight):
    """the plotting observer keeps a snapshot"""
    obs = H.mod("observers")
    memo = {}
    cls, kw = parent(H, kind)
    X = frame(H, DESIGN, False, {"w": W} if weight else None)
    y = H.reals("y", 3, lo=0.5, hi=3)
    hist = []

    def histograms(y, pred, weights, quantile=None):
        hist.append((list(H.items(y)), list(H.items(pred)), list(H.items(weights)), quantile))
        return len(hist)

    obs.calc_in_sample_histograms = histograms
    first, last = obs.PlottingObserver(iteration=1), obs.PlottingObserver()
    raised, _ = H.raises(ValueError, last.check_fitted)
    H.check("an observer that has seen nothing says so", raised)
    raised, _ = H.raises(ValueError, obs.PlottingObserver, iteration=0)
    H.check("there is nothing to plot before the first iteration", raised)
    rec = Recorder(H)
    a = estimator(H, cls, groups, 2, memo, [first, rec, last], "w" if weight else None, **kw)
    a.fit(X, y)
    first.check_fitted()
    last.check_fitted()
    H.check("losses up to the iteration observed", H.and_(len(first.loss) == 2, len(last.loss) == 3, *[H.eq(v, 1.0) for v in first.loss + last.loss]))
    H.check("factor changes from the first iteration on", H.and_(len(first.factor_change) == 1, len(last.factor_change) == 2, H.eq(first.factor_change[0], rec.log[1][6]), H.eq(last.factor_change[0], rec.log[1][6]), H.eq(last.factor_change[1], rec.log[2][6])))
    H.check("both take one histogram", H.and_(len(hist) == 2, first.histograms == 1, last.histograms == 2))
    q = kw.get("quantile")
    for h, c in zip(hist, (rec.log[1], rec.log[-1])):
        H.check("histograms are of targets, predictions and weights then", H.and_(H.arr_eq(H.arr(h[0]), H.arr(H.items(y))), H.arr_eq(H.arr(h[1]), H.arr(c[3])), H.arr_eq(H.arr(h[2]), H.arr(W if weight else [1.0] * 3)), h[3] == q))
    names = [cbstub.tup(g) for g in groups]
    ref = estimator(H, cls, groups, 2, memo, None, "w" if weight else None, **kw)
    stop(H, ref, 1)
    ref.fit(X, y)
    for o, m, p in ((first, ref, rec.log[1][3]), (last, a, rec.log[-1][3])):
        H.check("the features are those of the model", [f.feature_group for f in o.features] == names and list(o.n_feature_bins) == names)
        H.check("the observer does not share the model's features", all(f is not g for f, g in zip(o.features, a.features)))
        c = m.get_feature_contributions(X)
        for f, g in zip(o.features, groups):
            b, n = bins(DESIGN, g)
            tot = H.items(f.fitted_aggregated if o is first else f.factors_link)
            got = [tot[k] for k in b]
            name = [k for k in c if sorted(k.replace("_", " ").split()) == sorted(cbstub.tup(g))][0]
            same(H, "the factors are those at the iteration observed", H.arr(got), c[name])
    last_pred = rec.log[-1][3]
    w = W if weight else [1.0] * 3
    yi = H.items(y)
    if kind == "identity":
        for f, g in zip(last.features, groups):
            b, n = bins(DESIGN, g)
            md, fy, fp = H.items(f.mean_dev), H.items(f.y), H.items(f.prediction)
            H.check("a value per bin, and for missing", len(md) == n + 1 == len(fy) == len(fp))
            fin = [i for i in range(3) if b[i] >= 0]
            my = sum_([w[i] * yi[i] for i in fin]) / sum(w[i] for i in fin)
            mp = sum_([w[i] * last_pred[i] for i in fin]) / sum(w[i] for i in fin)
            for k in range(n + 1):
                rows = [i for i in range(3) if b[i] == (k if k < n else -1)]
                sw = sum(w[i] for i in rows) + 1.0
                ty = (sum_([w[i] * yi[i] for i in rows]) + 1.0) / sw
                tp = (sum_([w[i] * last_pred[i] for i in rows]) + 1.0) / sw
                H.check("deviation of the bin's mean prediction from its mean target", H.eq(md[k], tp - ty))
                H.check("mean target of the bin relative to all", H.eq(fy[k], ty - my))
                H.check("mean prediction of the bin relative to all", H.eq(fp[k], tp - mp))
    H.observe("p", H.arr(last_pred))


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        opts = {"additive": False} if "_log" in name else {}
        out.append(Harness(name, fn, p, b, **opts))

    B = "3 rows, any targets and estimates, %d iterations"
    for kind, groups in (("identity", ["a", ("a", "b")]), ("log", ["b", "a"]), ("quantile", ["a", "b"]), ("gbs", ["b", ("a", "b")])):
        for which in ("base", "plot", "record"):
            weight = which != "base"
            if kind == "quantile" and which == "plot":
                continue
            add("same_%s_%s" % (kind, which), silent, B % 2, kind=kind, groups=groups, iters=2, weight=weight, which=which, again=which == "record")
    for kind in ("identity", "log", "gbs"):
        add("calls_" + kind, calls, B % 2, kind=kind, groups=["a", ("b", "a")], iters=2, weight=True)
        add("plots_" + kind, plots, B % 2, kind=kind, groups=["b", ("a", "b")], weight=kind != "log")
    add("calls_hierarchical", calls, B % 2 + ", one of them for the hierarchical feature only", kind="identity", groups=["a", "b"], iters=2, weight=False, hier=["a"])
    return out
