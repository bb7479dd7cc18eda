"""Quantile and generic-loss regression: what is minimised, where it starts, the global quantile."""
import itertools

from symx.runner import Harness

from checks import capture, optim
from checks.capture import NAN, sum_

ASSUMPTIONS = ["scipy.optimize.minimize is replaced by a stand-in that records the objective and returns a marker value"]
OUTSIDE = "the numerical minimisation itself (scipy), more rows than stated, rounding"

DESIGNS = [
    {"a": [0.0, 0.0, 1.0, 1.0], "b": [0.0, 1.0, 1.0, 0.0]},
    {"a": [2.0, NAN, 0.0, 2.0], "b": [0.0, 0.0, 0.0, 0.0]},
    {"a": [1.0, 1.0, -1.0, 0.0], "b": [2.0, 0.0, 0.0, 0.0]},
    {"a": [0.0, 0.0, 1.0, 1.0, 1.0, 2.0, 2.0], "b": [0.0, 2.0, 0.0, 1.0, 2.0, 0.0, 1.0]},
]
TARGETS = [[3.0, 1.0, 0.5, 7.0], [2.0, 5.0, 0.0, 1.0], [2.0, 5.0, 0.0, 1.0, 3.0, 7.0, 4.0], [1.0, 0.0, 0.0, 1.0]]


class Res:
    pass


def pinball(H, y, p, w, q, rows):
    s = 0.0
    for i in rows:
        lo = H.fork(H.lt(y[i], p[i]))
        s = s + w[i] * ((1 - q) * (p[i] - y[i]) if lo else q * (y[i] - p[i]))
    return s / sum_([w[i] for i in rows])


def quantile_of(H, y, w, q):
    """smallest value whose cumulative weight reaches the share q (no ties)"""
    tot = sum_(w)
    for i in sorted(range(len(y)), key=lambda i: y[i]):
        if H.fork(H.isle(q * tot, sum_([w[j] for j in range(len(y)) if y[j] <= y[i]]))):
            return y[i]
    return max(y)


def per_bin(H, cls, design, group, target=0, q=0.3, prior=False, weight=True):
    gl = H.mod("generic_loss")
    np = H.np
    add = "Additive" in cls
    binary = "Classifier" in cls
    d = DESIGNS[design]
    X = capture.frame(H, d)
    yi = TARGETS[target]
    y = H.arr(yi)
    if weight == "fixed":
        wi = [2.0, 1.0, 0.5, 4.0]
    elif weight:
        u = H.reals("w", 2, lo=0.125, hi=4)
        wi = [u[0], 1.0, u[1], 2.0]
    else:
        wi = [1.0] * len(yi)
    X["w"] = H.arr(wi)
    kw = dict(feature_groups=[group], weight_column="w")
    if prior:
        X["p"] = H.arr([1.0, 2.0, 2.0, 0.5])
        kw["prior_prediction_column"] = "p"
    calls = []
    rec = []

    def minimize(fun, x0, args=(), **k):
        t = H.reals("t%d" % len(calls), 1, lo=0.125, hi=4)
        if not isinstance(args, tuple):
            args = (args,)
        had = len(rec)
        v = H.items(H.np.asarray(fun(t, *args)))[0]
        calls.append((H.items(t)[0], v, H.items(H.np.asarray(x0))[0], rec[had:]))
        r = Res()
        r.x = H.arr([1.0 + len(calls)])
        r.success = True
        return r

    def costs(prediction, y, weights):
        rec.append((H.items(prediction), H.items(y), H.items(weights)))
        return np.float64(1.0)

    if "Quantile" in cls:
        kw["quantile"] = q
        base = quantile_of(H, yi, wi, q)
    else:
        kw["costs"] = costs
        base = sum_([a * b for a, b in zip(yi, wi)]) / sum_(wi) + 0.001
    C = getattr(gl, cls)
    with optim.replaced(H, "minimize", minimize):
        (g, es, us), = capture.estimates(H, C, X, y, **kw)
    nos, n = capture.bins(d, group)
    H.check("one estimate per bin and one for missing values", len(es) == n + 1)
    if prior:
        pi = [1.0, 2.0, 2.0, 0.5]
        pm = sum_([a * b for a, b in zip(pi, wi)]) / sum_(wi)
        pred = [p + base - pm if add else p * base / pm for p in pi]
    else:
        pred = [base] * len(yi)
    neutral = 0.0 if add else 0.5 if binary else 1.0
    for k, b in enumerate(list(range(n)) + [-1]):
        rows = [i for i in range(len(yi)) if nos[i] == b]
        # which minimisation this estimate comes from
        e = float(es[k]) if add else float(np.exp(es[k]))
        j = int(round(e)) - 2
        if not rows and abs(e - neutral) < 1e-9:
            continue
        H.check("the estimate of a bin is the (log of the) minimum of its objective",
                0 <= j < len(calls) and abs(e - (2.0 + j)) < 1e-9)
        t, val, x0, mine = calls[j]
        H.check("the minimisation starts at the neutral element", H.eq(x0, neutral))
        p = [t + v if add else t * v for v in pred]
        if not rows:
            continue
        if "Quantile" in cls:
            H.check("the objective of a bin is the weighted pinball loss of its own rows", H.eq(val, pinball(H, yi, p, wi, q, rows)))
        else:
            H.check("the loss of a bin is evaluated for its own rows", bool(mine) and len(mine[0][0]) == len(rows))
            gp, gy, gw = mine[0]
            ok = []
            for perm in itertools.permutations(rows):
                if [yi[i] for i in perm] == [float(v) for v in gy]:
                    ok.append(H.all_([H.and_(H.eq(gp[pos], p[i]), H.eq(gw[pos], wi[i])) for pos, i in enumerate(perm)]))
            H.check("with the target, the model's prediction and the weight of each row", H.or_(*ok) if ok else False)
        A = sum_([wi[i] * yi[i] for i in rows], 2.0)
        if binary:
            H.check("the uncertainty is that of the beta posterior", beta_match(H, us[k], [wi[i] for i in rows], [yi[i] for i in rows]))
        elif add:
            v2 = H.items(us[k] * us[k])[0] if hasattr(us[k], "shape") else us[k] * us[k]
            H.check("the uncertainty is that of the weighted mean", H.eq(v2, mean_var(H, [wi[i] for i in rows], [yi[i] for i in rows])))
        else:
            u2 = H.items(np.log(H.arr([1 + A])))[0] - H.items(np.log(H.arr([A])))[0]
            H.check("the uncertainty is that of the gamma posterior", H.eq(us[k] * us[k], u2))
        H.check("uncertainties are positive", H.gt(us[k], 0))
    H.observe("es", H.arr(es))


def beta_match(H, u, w, y):
    """u is the width of the normal with two quantiles of the beta posterior (on the logit scale)"""
    st, np = H.scipy("stats"), H.np
    al = sum_([a for a, b in zip(w, y) if b == 1.0], 1.001)
    be = sum_([a for a, b in zip(w, y) if b == 0.0], 1.001)
    s = 0.4 * (al / (al + be) - 0.5)
    q1, q2 = 0.75 - s, 0.25 - s
    dist = st.beta(H.arr([al * 1.0]), H.arr([be * 1.0]))
    L = lambda q: [H.items(np.log(v / (1 - v)))[0] for v in [dist.ppf(H.arr([q]))]][0]
    Z = lambda q: H.items(st.norm.ppf(H.arr([q])))[0]
    return H.eq(u * (Z(q1) - Z(q2)), L(q1) - L(q2))


def mean_var(H, w, y):
    """variance of the weighted mean with the variance of the targets shrunk towards their own (one pseudo-observation)"""
    W = sum_(w)
    m = sum_([a * b for a, b in zip(w, y)]) / W
    ss = sum_([a * (b - m) * (b - m) for a, b in zip(w, y)])
    prior = 1.0 if len(set(y)) == 1 else ss / W
    var = (prior + ss) / (1 + W)
    return (sum_([a * a for a in w]) / var + 0.01) / ((W / var + 0.01) * (W / var + 0.01))


def costs(H, n):
    C = H.mod("generic_loss").CBAdditiveQuantileRegressor
    y, p, w = H.reals("y", n, lo=-50, hi=50), H.reals("p", n, lo=-50, hi=50), H.reals("w", n, lo=0, hi=10)
    q = H.real("q", gt=0, lt=1)
    H.assume(H.ge(sum_(H.items(w)), 0.125))
    v = C.quantile_costs(p, y, w, q)
    exp = pinball(H, H.items(y), H.items(p), H.items(w), q, range(n))
    H.check("the cost is the weighted mean pinball loss", H.eq(v * sum_(H.items(w)), exp * sum_(H.items(w))))
    H.check("costs are not negative", H.ge(v, 0))
    H.observe("v", H.arr([v]))


def wquantile(H, n):
    """the weighted quantile function"""
    f = H.mod("utils").continuous_quantile_from_discrete_pdf
    y = H.reals("y", n, lo=-50, hi=50)
    w = H.reals("w", n, lo=0.125, hi=8)
    q = H.real("q", lo=0.01, hi=0.99)
    yi, wi = H.items(y), H.items(w)
    v = H.items(H.np.asarray(f(y, q, w)))[0]
    tot = sum_(wi)
    # the smallest value whose cumulative weight reaches the share
    best = None
    for i in range(n):
        below = sum_([H_ind(H, yi[j], yi[i]) * wi[j] for j in range(n)])
        if H.fork(H.isle(q * tot, below)):
            if best is None or H.fork(H.lt(yi[i], best)):
                best = yi[i]
    if best is None:
        return
    ties = sum([1 if H.fork(H.is_(x, best)) else 0 for x in yi])
    if ties == 1:
        H.check("the smallest target value whose cumulative weight reaches the quantile", H.eq(v, best))
    else:
        # documented approximation: the ties are spread over the unit interval
        H.check("ties are spread over at most one unit", H.and_(H.ge(v, best), H.le(v, best + ties / (ties - 1.0))))
    H.check("only relative weights count", H.eq(H.items(H.np.asarray(f(y, q, w * 16.0)))[0], v))
    H.observe("v", H.arr([v]))


def H_ind(H, a, b):
    return 1.0 if H.fork(H.isle(a, b)) else 0.0


def scale(H, cls):
    """the baseline of a quantile model is that quantile of the targets"""
    gl = H.mod("generic_loss")
    C = getattr(gl, cls)
    add = "Additive" in cls
    X = capture.frame(H, {"a": [0.0, 1.0, 0.0]})
    y = H.reals("y", 3, lo=-50 if add else 0.5, hi=50)
    X["w"] = H.arr([1.0, 2.0, 1.5])
    q = H.choose("q", [0.1, 0.5, 0.9])
    np = H.np

    class Any(C):
        def calc_parameters(self, feature, y, pred, prefit_data):
            return np.zeros(feature.n_bins), np.ones(feature.n_bins)

        def loss(self, prediction, y, weights):
            return np.float64(1.0)

    est = Any(feature_groups=["a"], weight_column="w", quantile=q, maximal_iterations=1, smoother_choice=capture.plain_choice(H))
    yi = H.items(y)
    for i in range(3):
        for j in range(i):
            H.assume(H.not_(H.is_(yi[i], yi[j])))
    est.fit(X, y)
    out = H.items(est.predict(X.copy()))
    w = [1.0, 2.0, 1.5]
    order = sorted_syms(H, yi)
    c, best = 0.0, None
    for i in order:
        c += w[i]
        if best is None and c >= q * 4.5:
            best = yi[i]
    for v in out:
        H.check("the baseline is the weighted quantile of the targets", H.eq(v, best))
    H.observe("out", H.arr(out))


def sorted_syms(H, v):
    out = []
    for i in range(len(v)):
        k = 0
        while k < len(out) and H.fork(H.lt(v[out[k]], v[i])):
            k += 1
        out.insert(k, i)
    return out


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        out.append(Harness(name, fn, p, b))

    B = "4 rows, any weights, any parameter value in [0.125,4]"
    add("mult_quantile", per_bin, B, cls="CBMultiplicativeQuantileRegressor", design=0, group="a")
    add("mult_quantile_missing", per_bin, B, cls="CBMultiplicativeQuantileRegressor", design=1, group="a", q=0.8)
    add("add_quantile_2d", per_bin, B, cls="CBAdditiveQuantileRegressor", design=2, group=("b", "a"), target=1)
    add("add_quantile_prior", per_bin, B, cls="CBAdditiveQuantileRegressor", design=0, group="a", prior=True, weight=False)
    add("mult_generic", per_bin, B, cls="CBMultiplicativeGenericCRegressor", design=1, group="a")
    add("add_generic_2d", per_bin, B, cls="CBAdditiveGenericCRegressor", design=2, group=("a", "b"))
    add("mult_generic_gaps", per_bin, "7 rows of a 3x3 feature with empty bins", cls="CBMultiplicativeGenericCRegressor", design=3,
        group=("a", "b"), target=2, weight=False)
    add("add_quantile_weights", per_bin, B, cls="CBAdditiveQuantileRegressor", design=0, group="b", q=0.7)
    add("mult_quantile_prior", per_bin, "4 rows, any parameter value in [0.125,4]", cls="CBMultiplicativeQuantileRegressor", design=0,
        group="a", prior=True, weight="fixed")
    add("add_quantile_prior_weights", per_bin, "4 rows, any parameter value in [0.125,4]", cls="CBAdditiveQuantileRegressor", design=0,
        group="a", prior=True, weight="fixed")
    add("classifier", per_bin, B, cls="CBGenericClassifier", design=1, group="a", target=3)
    add("classifier_2d", per_bin, "4 rows, any parameter value in [0.125,4]", cls="CBGenericClassifier", design=0, group=("a", "b"),
        target=3, weight="fixed")
    add("costs", costs, "2 rows, any values, weights and quantile", n=2)
    add("wquantile", wquantile, "2 rows, any values, weights and quantile", n=2)
    add("wquantile3", wquantile, "3 rows, any values, weights and quantile", n=3)
    add("scale_add", scale, "3 rows, any distinct targets", cls="CBAdditiveQuantileRegressor")
    add("scale_mult", scale, "3 rows, any distinct targets", cls="CBMultiplicativeQuantileRegressor")
    if tier == "thorough":
        add("costs3", costs, "3 rows, any values, weights and quantile", n=3)
        for k, (c, g) in enumerate([("CBMultiplicativeQuantileRegressor", ("a", "b")), ("CBAdditiveGenericCRegressor", "b"),
                                    ("CBAdditiveQuantileRegressor", "a"), ("CBMultiplicativeGenericCRegressor", ("b", "a"))]):
            for dd in range(3):
                add("t%d_%d" % (k, dd), per_bin, B, cls=c, design=dd, group=g, target=dd % 2, q=0.6)
    return out
