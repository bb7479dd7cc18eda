"""Dispersion model of the negative binomial (CBNBinomC)."""
import math

import numpy as np

from symx.runner import Harness

from checks import capture
from checks.capture import NAN, frame, sum_

ASSUMPTIONS = ["the logarithm of the gamma function is uninterpreted (any function)",
               "the mean predictions and candidate dispersions are concrete, the targets arbitrary"]
OUTSIDE = "weights (documented as unused); more rows than stated, rounding"

DESIGNS = [
    {"a": [0.0, 1.0, 0.0]},
    {"a": [1.0, NAN, 1.0]},
    {"a": [0.0, 0.0, -1.0]},
]
MU = [1.0, 2.5, 0.75]


def grid(iteration, n_steps):
    """candidate changes of the dispersion in link space: 0 and +-10^k, log-spaced from 0.001 to 10^(1/iteration)"""
    k = n_steps // iteration
    hi = 1.0 / iteration
    pos = [float(v) for v in np.logspace(-3.0, hi, k)]
    return sorted([-p for p in pos] + [0.0] + pos)


def nll(H, y, mu, c, gamma):
    """negative log-likelihood of a count with variance mu + c*mu^2, with a penalty on c"""
    lg = H.scipy("special").gammaln
    L = lambda v: H.items(H.arr([lg(v)]))[0]  # noqa: E731
    p = min(1.0 / (1.0 + c * mu), 1.0 - 1e-8)
    n = mu * p / (1 - p)
    return -(L(n + y) - L(y + 1.0) - L(n) + n * math.log(p) + y * math.log(1 - p)) + gamma * c


def likelihood(H, design, gamma, n_steps):
    """the change estimated for a bin is the candidate with the largest likelihood of its own rows"""
    m = H.mod("nbinom")
    d = DESIGNS[design]
    nos, n = capture.bins(d, "a")
    X = frame(H, d)
    X["mu"] = H.arr(MU)
    # one arbitrary target in each bin
    free = [nos.index(b) for b in sorted(set(nos))]
    y = H.arr([H.real("y%d" % i, lo=0, hi=16) if i in free else 3.0 for i in range(3)])
    (g, es, us), = capture.estimates(H, m.CBNBinomC, X, y, mean_prediction_column="mu", feature_groups=["a"], gamma=gamma,
                                     n_steps=n_steps)
    yi = H.items(y)
    cand = grid(1, n_steps)
    H.check("one estimate per bin and one for missing rows", len(es) == n + 1)
    for b in range(n + 1):
        rows = [i for i in range(3) if nos[i] == (b if b < n else -1)]
        H.check("a candidate is chosen for bin %d" % b, any(abs(float(es[b]) - c) < 1e-9 for c in cand))
        H.check("uncertainty of bin %d" % b, H.eq(us[b], 1.0 / math.sqrt(max(len(rows), 1))))
        if not rows:
            continue
        loss = [sum_([nll(H, yi[i], MU[i], 1.0 / (1.0 + math.exp(-c)), gamma) for i in rows]) for c in cand]
        k = min(range(len(cand)), key=lambda j: abs(cand[j] - float(es[b])))
        for j in range(len(cand)):
            H.check("no candidate is more likely than the chosen one", H.le(loss[k], loss[j]))


def posterior(H, n_steps):
    """with bayes the estimate is the mean of the candidates weighted by their likelihood"""
    m = H.mod("nbinom")
    d = DESIGNS[0]
    nos, n = capture.bins(d, "a")
    X = frame(H, d)
    X["mu"] = H.arr(MU)
    free = [0]
    y = H.arr([H.real("y%d" % i, lo=0, hi=16) if i in free else 3.0 for i in range(3)])
    (g, es, us), = capture.estimates(H, m.CBNBinomC, X, y, mean_prediction_column="mu", feature_groups=["a"], bayes=True,
                                     n_steps=n_steps)
    yi = H.items(y)
    cand = grid(1, n_steps)
    for b in range(1):
        rows = [i for i in range(3) if nos[i] == b]
        loss = [sum_([nll(H, yi[i], MU[i], 1.0 / (1.0 + math.exp(-c)), 0.0) for i in rows]) for c in cand]
        # not closer than rounding
        for i in range(len(loss)):
            for j in range(i):
                H.assume(H.or_(H.le(loss[i] + 0.0078125, loss[j]), H.le(loss[j] + 0.0078125, loss[i])))
        top = H.np.max(H.arr([-v for v in loss]))
        e = [H.np.exp(-v - top) for v in loss]
        H.check("mean of the candidates", H.eq(es[b], sum_([p * c for p, c in zip(e, cand)]) / sum_(e)))
    H.check("no rows, no preference", H.eq(es[n], 0.0))


def second_iteration(H):
    """later iterations search fewer candidates closer to the current value, on top of the current model"""
    m = H.mod("nbinom")
    d = DESIGNS[0]
    X = frame(H, d)
    X["mu"] = H.arr(MU)
    y = H.arr([4.0, 1.0, 0.0])
    pr = H.choose("prior", [0.5, 0.25])
    X["p"] = H.arr([pr] * 3)
    rec = capture.estimates(H, m.CBNBinomC, X, y, calls=2, mean_prediction_column="mu", feature_groups=["a"], n_steps=4,
                            prior_prediction_column="p", smoother_choice=capture.plain_choice(H), minimal_loss_change=-1.0,
                            minimal_factor_change=-1.0)
    H.check("two updates", len(rec) == 2)
    link = [math.log(pr / (1 - pr))] * 2
    for it, (g, es, us) in enumerate(rec):
        cand = grid(it + 1, 4)
        for b in range(2):
            rows = [i for i in range(3) if int(d["a"][i]) == b]
            loss = [sum(_nll(float(y[i]), MU[i], 1.0 / (1.0 + math.exp(-(c + link[b])))) for i in rows) for c in cand]
            H.check("best candidate on top of the model, iteration %d" % (it + 1),
                    abs(float(es[b]) - cand[loss.index(min(loss))]) < 1e-9)
            link[b] += float(es[b])


def _nll(y, mu, c):
    p = min(1.0 / (1.0 + c * mu), 1.0 - 1e-8)
    n = mu * p / (1 - p)
    return -(math.lgamma(n + y) - math.lgamma(y + 1) - math.lgamma(n) + n * math.log(p) + y * math.log(1 - p))


def loss_value(H, gamma):
    """the loss is the mean negative log-likelihood"""
    m = H.mod("nbinom")
    est = m.CBNBinomC("mu", gamma=gamma)
    est.mu = H.arr(MU)
    y = H.reals("y", 3, lo=0, hi=16)
    cs = [0.25, 0.5, 0.875]
    got = est.loss(H.arr(cs), y, H.arr([1.0] * 3))
    want = sum_([nll(H, v, mu, c, gamma) for v, mu, c in zip(H.items(y), MU, cs)]) / 3.0
    H.check("mean negative log-likelihood", H.eq(got, want))


def range_(H):
    """predictions are dispersions between 0 and 1; training by fit and fit_transform agree"""
    m = H.mod("nbinom")
    d = {"a": [0.0, 1.0, 0.0]}
    pr = [H.choose("p%d" % i, [-0.5, 0.25, 1.0, 1.5]) for i in range(1)] + [0.5, NAN]
    ys = [0.0, 3.0, 6.0]

    def new():
        X = frame(H, d)
        X["mu"] = H.arr(MU)
        X["p"] = H.arr(pr)
        return m.CBNBinomC("mu", feature_groups=["a"], prior_prediction_column="p", output_column="c", maximal_iterations=1,
                           n_steps=2, smoother_choice=capture.plain_choice(H)), X

    est, X = new()
    est.fit(X, H.arr(ys))
    p = H.items(est.predict(X))
    for i in range(3):
        H.check("between 0 and 1", H.and_(H.lt(0.0, p[i]), H.lt(p[i], 1.0)))
    est2, X2 = new()
    t = H.items(est2.fit_transform(X2, H.arr(ys))["c"].values)
    for i in range(3):
        H.check("fit_transform gives the predictions", H.eq(t[i], p[i]))


def harnesses(tier):
    out = []

    def add(hname, fn, b, **p):
        out.append(Harness(hname, fn, p, b, snap=True, fork_max=True, additive=False))

    for i in range(3):
        add("likelihood_%d" % i, likelihood, "3 rows, one arbitrary target per bin in [0, 16], 5 candidates", design=i, gamma=0.0, n_steps=2)
    add("likelihood_lasso", likelihood, "3 rows, one arbitrary target per bin in [0, 16], 5 candidates", design=0, gamma=0.5, n_steps=2)
    add("posterior", posterior, "3 rows, one arbitrary target in [0, 16], 5 candidates", n_steps=2)
    add("iterations", second_iteration, "fixed rows, 2 iterations")
    for g in (0.0, 0.5):
        add("loss_%s" % g, loss_value, "3 rows with any targets", gamma=g)
    add("range", range_, "fixed rows, priors inside and outside (0, 1) and missing")
    return out
