"""The binary classifier: estimates, probabilities and labels."""
from symx.runner import Harness

from checks import capture, cbstub
from checks.capture import NAN, sum_

ASSUMPTIONS = ["the beta quantile function is uninterpreted, increasing and within (0, 1); the normal quantile function is an increasing "
               "bijection symmetric about 1/2"]
OUTSIDE = "more rows than stated, rounding"

DESIGNS = [
    {"a": [0.0, 0.0, 1.0], "b": [0.0, 1.0, 1.0]},
    {"a": [2.0, NAN, 0.0], "b": [0.0, 0.0, 0.0]},
]


def target(H):
    return [1.0 if H.cbool("y%d" % i) else 0.0 for i in range(3)]


def estimate(H, design, group, weight=False):
    C = H.mod("classification").CBClassifier
    np = H.np
    d = DESIGNS[design]
    X = capture.frame(H, d)
    kw = dict(feature_groups=[group])
    if weight:
        # any weights with balanced classes
        u, v = H.real("u", lo=0.125, hi=10), H.real("v", lo=0, hi=10)
        yi = [1.0, 0.0, 1.0]
        w = H.arr([u, u + v, v])
        X["w"] = w
        kw["weight_column"] = "w"
    else:
        yi = target(H)
        w = H.arr([1.0, 1.0, 1.0])
    wi = H.items(w)
    p0 = sum_([p * q for p, q in zip(yi, wi)]) / sum_(wi)
    p = p0 + 0.001
    H.assume(H.isle(p, 1.0 - 0.001))
    (g, es, us), = capture.estimates(H, C, X, H.arr(yi), **kw)
    nos, n = capture.bins(d, group)
    L = lambda v: np.log(v / (1 - v))
    H.check("one estimate per bin and one for missing values", len(es) == n + 1)
    st = H.scipy("stats")
    for k, b in enumerate(list(range(n)) + [-1]):
        rows = [i for i in range(3) if nos[i] == b]
        al = sum_([wi[i] * (1 - p) for i in rows if yi[i] == 1.0], 1.001)
        be = sum_([wi[i] * p for i in rows if yi[i] == 0.0], 1.001)
        s = 0.4 * (al / (al + be) - 0.5)
        q1, q2 = 0.75 - s, 0.25 - s
        dist = st.beta(H.arr([al * 1.0]), H.arr([be * 1.0]))
        l1, l2 = L(dist.ppf(H.arr([q1]))), L(dist.ppf(H.arr([q2])))
        z1, z2 = st.norm.ppf(H.arr([q1])), st.norm.ppf(H.arr([q2]))
        l1, l2, z1, z2 = (H.items(v)[0] for v in (l1, l2, z1, z2))
        H.check("the estimate and its uncertainty match two quantiles of the beta posterior of the bin's own rows",
                H.and_(H.eq(es[k] + us[k] * z1, l1), H.eq(es[k] + us[k] * z2, l2)))
        if not weight:
            H.check("uncertainties are positive", H.gt(us[k], 0))
    H.observe("es", H.arr(es))


def model(H, groups, weight=False, prior=False, cls="CBClassifier", iters=1):
    """whole model with arbitrary bin estimates: probabilities and labels"""
    m = H.mod("classification") if cls == "CBClassifier" else H.mod("generic_loss")
    C = getattr(m, cls)
    np = H.np
    d = DESIGNS[1]
    X = capture.frame(H, d)
    yi = H.choose("y", [[1.0, 0.0, 0.0], [1.0, 1.0, 1.0], [0.0, 0.0, 0.0]])
    choice = capture.plain_choice(H)
    kw = dict(feature_groups=groups, maximal_iterations=iters, smoother_choice=choice, learn_rate=capture.one)
    # any relative weights
    u, v = H.real("u", lo=0, hi=1), H.real("v", lo=0, hi=1)
    H.assume(H.isle(u + v, 1))
    w = H.arr([u, v, 1 - u - v])
    wi = H.items(w)
    H.fork(H.isle(sum_([p * q for p, q in zip(yi, wi)]) / sum_(wi) + 0.001, 1.0 - 0.001))
    X["w"] = w
    kw["weight_column"] = "w"
    log = cbstub.Log()

    class Any(C):
        def calc_parameters(self, feature, y, pred, prefit_data):
            return H.reals(log.fresh("f"), feature.n_bins, lo=-5, hi=5), np.ones(feature.n_bins)

        def loss(self, prediction, y, weights):
            return np.float64(1.0)

    est = Any(**kw)
    est.fit(X, H.arr(yi))
    q = {"a": [0.0, 5.0, NAN], "b": [0.0, NAN, 0.0]}
    Q = capture.frame(H, q)
    pp = est.predict_proba(Q)
    lab = H.items(est.predict(Q))
    H.check("shape", tuple(pp.shape) == (3, 2))
    it = H.items(pp)
    for i in range(3):
        n0, n1 = it[2 * i], it[2 * i + 1]
        H.check("probabilities are numbers", H.and_(H.finite(n0), H.finite(n1)))
        H.check("probabilities lie between 0 and 1", H.and_(H.ge(n1, 0), H.le(n1, 1), H.ge(n0, 0), H.le(n0, 1)))
        H.check("the two classes add up to 1", H.eq(n0 + n1, 1.0))
        one = H.fork(H.gt(n1, 0.5))
        H.check("the label is the more probable class", lab[i] == (1.0 if one else 0.0))
    H.observe("pp", pp)


def harnesses(tier):
    out = []
    B = "3 rows, all targets, any weights"
    out.append(Harness("estimate", estimate, dict(design=0, group="a"), B))
    out.append(Harness("estimate_weighted", estimate, dict(design=1, group="a", weight=True), B))
    out.append(Harness("model", model, dict(groups=["a"]), B + ", any estimates, 3 probe rows"))
    if tier == "thorough":
        out.append(Harness("estimate_2d", estimate, dict(design=0, group=("a", "b"), weight=True), B))
        out.append(Harness("model2", model, dict(groups=["a", "b"]), B + ", any estimates"))
    return out
