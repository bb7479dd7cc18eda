"""Bin estimates of the multiplicative regressors (gamma posterior)."""
from symx.runner import Harness

from checks import capture
from checks.capture import NAN, sum_

ASSUMPTIONS = ["the gamma median (scipy.special.gammaincinv) is uninterpreted, increasing, positive and within (a-1/3, a)",
               "the loss value plays no role for the first update"]
OUTSIDE = "more rows than stated, rounding"

DESIGNS = [
    {"a": [0.0, 0.0, 1.0], "b": [0.0, 1.0, 1.0]},
    {"a": [2.0, NAN, 0.0], "b": [0.0, 0.0, 0.0]},
    {"a": [NAN, 0.0, -1.0], "b": [1.0, 1.0, 0.0]},
]


def post(H, model, design, group, weight=False, prior=False, symbolic_ac=False, big=False):
    reg = H.mod("regression")
    np = H.np
    d = DESIGNS[design]
    X = capture.frame(H, d)
    y = H.reals("y", 3, lo=1e13, hi=1e14) if big else H.reals("y", 3, lo=0, hi=1000)
    kw = {}
    if weight:
        w = H.reals("w", 3, lo=0, hi=10)
        H.assume(w[0] + w[1] + w[2] >= 0.125)
        X["w"] = w
        kw["weight_column"] = "w"
    else:
        w = H.arr([1.0, 1.0, 1.0])
    if prior:
        pr = H.reals("p", 3, lo=0.125, hi=100)
        X["p"] = pr
        kw["prior_prediction_column"] = "p"
    kw.update(feature_groups=[group])
    a, c = 1.0, 0.0
    if model == "nbinom":
        a, c = (H.real("pa", lo=0.5, hi=4), H.real("pc", lo=0, hi=4)) if symbolic_ac else (2.0, 0.5)
        kw.update(a=a, c=c)
    cls = reg.CBNBinomRegressor if model == "nbinom" else reg.CBPoissonRegressor
    (g, es, us), = capture.estimates(H, cls, X, y, **kw)
    yi, wi = H.items(y), H.items(w)
    mean = sum_([p * q for p, q in zip(yi, wi)]) / sum_(wi) + 0.001
    if prior:
        pi = H.items(pr)
        pm = sum_([p * q for p, q in zip(pi, wi)]) / sum_(wi)
        base = [p * mean / pm for p in pi]
    else:
        base = [mean] * 3
    nos, n = capture.bins(d, group)
    gi = H.scipy("special").gammaincinv

    def estimate(b):
        k = [i for i in range(3) if nos[i] == b]
        al = sum_([wi[i] * yi[i] / (a + c * base[i]) for i in k])
        be = sum_([wi[i] * base[i] / (a + c * base[i]) for i in k])
        A, B = al + 2, be + 1.67834
        f = A / B if big and k else H.items(gi(H.arr([A * 1.0]), 0.5))[0] / B
        return A, f
    H.check("one estimate per bin and one for missing values", len(es) == n + 1)
    for k, b in enumerate(list(range(n)) + [-1]):
        A, f = estimate(b)
        H.check("the estimate of a bin is the median of the gamma posterior of its own rows (log)",
                H.eq(es[k], H.items(np.log(H.arr([f])))[0]))
        u2 = H.items(np.log(H.arr([1 + A])))[0] - H.items(np.log(H.arr([A])))[0]
        H.check("the squared uncertainty is the log-normal variance", H.eq(us[k] * us[k], u2))
        H.check("uncertainties are positive", H.gt(us[k], 0))
    H.observe("es", H.arr(es))


def harnesses(tier):
    out = []

    def add(name, **p):
        out.append(Harness(name, post, p, "3 rows, any targets in [0,1000]%s%s" % (", any weights" if p.get("weight") else "",
                                                                                  ", any priors" if p.get("prior") else "")))

    add("poisson", model="poisson", design=0, group="a")
    add("poisson_missing", model="poisson", design=1, group="a", weight=True)
    add("poisson_2d", model="poisson", design=0, group=("a", "b"), weight=True)
    add("poisson_prior", model="poisson", design=0, group="a", prior=True)
    add("nbinom", model="nbinom", design=0, group="a", weight=True)
    add("nbinom_missing", model="nbinom", design=2, group=("b", "a"))
    add("poisson_big", model="poisson", design=0, group="a", big=True)
    if tier == "thorough":
        add("nbinom_ac", model="nbinom", design=0, group="a", symbolic_ac=True)
        add("nbinom_w_p", model="nbinom", design=1, group="b", weight=True, prior=True)
        add("poisson_w_p", model="poisson", design=2, group="b", weight=True, prior=True)
    return out
