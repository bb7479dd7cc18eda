"""Additive regressors: estimates, calibration, non-negative predictions."""
from symx.runner import Harness

from checks import capture, cbstub
from checks.capture import NAN, sum_

ASSUMPTIONS = ["the loss value plays no role for the first update"]
OUTSIDE = "more rows than stated, rounding"

DESIGNS = [
    {"a": [0.0, 0.0, 1.0], "b": [0.0, 1.0, 1.0]},
    {"a": [2.0, NAN, 0.0], "b": [0.0, 0.0, 0.0]},
    {"a": [1.0, 1.0, -1.0], "b": [1.0, 1.0, 0.0]},
]
TARGETS = [[3.0, -1.0, 0.5], [0.0, 2.0, 2.0]]


def setup(H, design, group, weight, cls, target=None, cases=None, **kw):
    d = DESIGNS[design]
    X = capture.frame(H, d)
    y = H.reals("y", 3, lo=-100, hi=100) if target is None else H.arr(TARGETS[target])
    kw = dict(feature_groups=[group], **kw)
    w = H.arr([1.0, 1.0, 1.0])
    if weight == "any":
        w = H.reals("w", 3, lo=0.125, hi=8)
    elif weight == "shift":
        u = H.real("u", lo=0.125, hi=2.5)
        w = H.arr([u, 1.0, 3.0 - u])
    elif weight == "fixed":
        w = H.arr([2.0, 0.5, 1.0])
    if weight:
        X["w"] = w
        kw["weight_column"] = "w"
    yi, wi = H.items(y), H.items(w)
    mean = sum_([p * q for p, q in zip(yi, wi)]) / sum_(wi)
    var = sum_([q * (p - mean) * (p - mean) for p, q in zip(yi, wi)]) / sum_(wi)
    case = cases(mean, var) if cases else None
    (g, es, us), = capture.estimates(H, cls, X, y, **kw)
    nos, n = capture.bins(d, group)
    H.check("one estimate per bin and one for missing values", len(es) == n + 1)
    H.observe("es", H.arr(es))
    return es, us, yi, wi, mean, var, [[i for i in range(3) if nos[i] == b] for b in list(range(n)) + [-1]], case


def location(H, design, group, weight=None, target=None):
    C = H.mod("location").CBLocationRegressor
    es, us, yi, wi, mean, var, groups, flat = setup(H, design, group, weight, C, target, lambda m, v: H.fork(H.isle(v, 1e-9)))
    p = mean + 0.001
    if flat:
        var = 1.0
    for k, rows in enumerate(groups):
        n = sum_([wi[i] for i in rows])
        m = sum_([wi[i] * yi[i] for i in rows]) / n if rows else 0.0
        vb = (0.5 * var + 0.5 * sum_([wi[i] * (yi[i] - m) * (yi[i] - m) for i in rows])) / (0.5 + 0.5 * n)
        sw = sum_([wi[i] / vb for i in rows], 0.01)
        H.check("the estimate is the mean residual of the bin's rows, weighted with weight over variance, shrunk to 0",
                H.eq(es[k], sum_([wi[i] / vb * (yi[i] - p) for i in rows]) / sw))
        H.check("the uncertainty is that of this weighted mean",
                H.eq(us[k] * us[k], sum_([wi[i] * wi[i] / vb for i in rows], 0.01) / (sw * sw)))
        H.check("uncertainties are positive", H.gt(us[k], 0))


def locpoisson(H, design, group, weight=None, target=None):
    C = H.mod("location").CBLocPoissonRegressor

    def cases(mean, var):
        H.assume(H.gt(var, 0.01))
        return H.fork(H.gt(mean + 0.001, 0))

    es, us, yi, wi, mean, var, groups, pos = setup(H, design, group, weight, C, target, cases)
    p, v = (mean + 0.001, mean + 0.001) if pos else (0.0, 1.0)
    for k, rows in enumerate(groups):
        n = sum_([wi[i] for i in rows])
        if not rows:
            H.check("an empty bin is neutral", H.eq(es[k], 0.0))
            H.check("with the uncertainty of the target", H.eq(us[k] * us[k], var))
            continue
        s = sum_([wi[i] * (yi[i] - p) / v for i in rows]) / sum_([wi[i] / v for i in rows])
        u = sum_([wi[i] * wi[i] / v for i in rows]) / sum_([wi[i] / v for i in rows])
        H.check("the uncertainty is the weighted mean weight", H.eq(us[k], u))
        H.check("the estimate is the weighted mean residual of the bin's rows shrunk to 0 with the variance of the target",
                H.eq(es[k] * (n / (u * u) + 1.0 / var), n * s / (u * u)))


def gbs(H, design, group, weight=None, target=None):
    C = H.mod("GBSregression").CBGBSRegressor
    al = H.real("alpha", lo=0, hi=5)
    es, us, yi, wi, mean, var, groups, _ = setup(H, design, group, weight, C, target, regalpha=al)
    for k, rows in enumerate(groups):
        n = [wi[i] * (yi[i] - mean) for i in rows]
        d = [wi[i] * (1 + al) for i in rows]
        N, D = sum_(n), sum_(d, 1.0)
        H.check("the estimate is the weighted residual sum over one plus the regularised weight sum", H.eq(es[k] * D, N))
        nd, nn, dd = sum_([a * b for a, b in zip(n, d)]), sum_([a * a for a in n]), sum_([b * b for b in d], 1.0)
        H.check("the uncertainty is that of the ratio of the two sums",
                H.eq(us[k] * us[k] * D * D * D * D, D * D * nn - 2 * N * D * nd + N * N * dd))


def calibrated(H, design, group, not_learned=False):
    """after one iteration the summands of a feature have zero weighted mean, whatever was estimated"""
    C = H.mod("location").CBLocationRegressor
    fl = H.mod("flags")
    np = H.np
    d = DESIGNS[design]
    X = capture.frame(H, d)
    w = H.reals("w", 3, lo=0.125, hi=8)
    X["w"] = w
    y = H.arr(TARGETS[0])
    f = {c: (fl.IS_UNORDERED | (fl.MISSING_NOT_LEARNED if not_learned else 0)) for c in ("a", "b")}
    log = cbstub.Log()
    raw = []

    class Any(C):
        def calc_parameters(self, feature, y, pred, prefit_data):
            raw.append(H.reals(log.fresh("f"), feature.n_bins, lo=-5, hi=5))
            return raw[-1].copy(), np.ones(feature.n_bins)

        def loss(self, prediction, y, weights):
            return np.float64(1.0)

    est = Any(feature_groups=[group], weight_column="w", feature_properties=f, maximal_iterations=1, learn_rate=capture.one,
              smoother_choice=capture.plain_choice(H), minimal_loss_change=-1.0, minimal_factor_change=-1.0)
    est.fit(X, y)
    wi, ri = H.items(w), H.items(raw[0])
    p0 = sum_([a * b for a, b in zip(TARGETS[0], wi)]) / sum_(wi) + 0.001
    out = [v - p0 for v in H.items(est.predict(X.copy()))]
    nos, n = capture.bins(d, group)
    rows = [i for i in range(3) if nos[i] >= 0 or not not_learned]
    m = sum_([wi[i] * ri[nos[i]] for i in rows]) / sum_([wi[i] for i in rows])
    for i in range(3):
        exp = 0.0 if i not in rows else ri[nos[i]] - m
        H.check("each bin's summand is its estimate minus the weighted mean over the training rows", H.eq(out[i], exp))
    H.check("the contributions have zero weighted mean on the training rows", H.eq(sum_([a * b for a, b in zip(wi, out)]), 0.0))
    H.observe("out", H.arr(out))


def nonneg(H):
    """predictions of the location-Poisson model are cut at zero"""
    C = H.mod("location").CBLocPoissonRegressor
    np = H.np
    d = DESIGNS[1]
    X = capture.frame(H, d)
    log = cbstub.Log()
    raw = []

    class Any(C):
        def calc_parameters(self, feature, y, pred, prefit_data):
            raw.append(H.reals(log.fresh("f"), feature.n_bins, lo=-50, hi=50))
            return raw[-1].copy(), np.ones(feature.n_bins)

        def loss(self, prediction, y, weights):
            return np.float64(1.0)

    y = H.reals("y", 3, lo=-100, hi=100)
    est = Any(feature_groups=["a"], maximal_iterations=1, learn_rate=capture.one, smoother_choice=capture.plain_choice(H))
    est.fit(X, y)
    Q = capture.frame(H, {"a": [0.0, 2.0, 7.0, NAN], "b": [0.0] * 4})
    out = H.items(est.predict(Q))
    p0 = sum_(H.items(y)) / 3.0 + 0.001
    r = H.items(raw[0])
    for v, s in zip(out, (r[0], r[2], 0.0, r[3])):
        H.check("never negative", H.ge(v, 0))
        H.check("otherwise the sum of the contributions", H.eq(v, H.clip(p0 + s, 0.0, 1e9)))
    H.observe("out", H.arr(out))


def harnesses(tier):
    out = []

    def add(name, fn, **p):
        out.append(Harness(name, fn, p, "3 rows, %s" % ("any targets in [-100,100]" if p.get("target") is None else "any weights")))

    add("location", location, design=0, group="a")
    add("location_w", location, design=1, group="a", weight="fixed")
    add("location_anyw", location, design=2, group="a", weight="shift", target=0)
    add("location_2d", location, design=0, group=("a", "b"), weight="shift", target=0)
    add("locpoisson", locpoisson, design=0, group="a")
    add("locpoisson_w", locpoisson, design=1, group="a", weight="fixed")
    add("locpoisson_anyw", locpoisson, design=2, group=("b", "a"), weight="any", target=1)
    add("gbs", gbs, design=0, group="a")
    add("gbs_w", gbs, design=1, group="a", weight="any")
    add("gbs_2d", gbs, design=2, group=("b", "a"), weight="any")
    add("calibrated", calibrated, design=0, group="a")
    add("calibrated_missing", calibrated, design=1, group="a")
    add("calibrated_not_learned", calibrated, design=1, group="a", not_learned=True)
    add("calibrated_2d", calibrated, design=2, group=("b", "a"), not_learned=True)
    add("nonneg", nonneg)
    if tier == "thorough":
        add("location_both", location, design=0, group="a", weight="any")
        add("locpoisson_both", locpoisson, design=0, group="a", weight="any")
        add("location_empty", location, design=2, group=("a", "b"), weight="fixed")
    return out
