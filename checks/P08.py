"""Predictions are the baseline plus additive contributions (in link space)."""
from symx.runner import Harness

from checks import cbstub
from checks.cbstub import INF, NAN

ASSUMPTIONS = ["per-bin estimates and smoother results are arbitrary values (stubs of the abstract methods); the training loop, "
               "baseline and prediction are the real code"]
OUTSIDE = "more rows, features or iterations than stated"

DESIGN = {"a": [0.0, 1.0, NAN], "b": [1.0, 0.0, 0.0]}
PROBE = {"a": [1.0, 0.0, NAN, 5.0, -1.0], "b": [0.0, NAN, 1.0, 1.0, 0.0]}


def key(g):
    return " ".join(cbstub.tup(g))


def additive(H, link, groups, weight, prior, real_link, iters=1):
    """prediction = unlink(baseline + sum of contributions); the baseline is the weighted target mean or the recalibrated prior."""
    np = H.np
    d = dict(DESIGN)
    y = H.reals("y", 3, lo=0.125, hi=0.875)
    w = H.arr([1.0, 1.0, 1.0])
    X = cbstub.frame(H, d)
    Q = cbstub.frame(H, PROBE)
    n = len(PROBE["a"])
    wcol = pcol = None
    if weight:
        w = H.reals("w", 3, lo=0, hi=4)
        H.assume(w[0] + w[1] >= 0.125)
        X["w"] = w
        wcol = "w"
    if prior:
        pr = H.reals("pr", 3, lo=0.125, hi=0.875)
        q = H.reals("q", n, lo=0.125, hi=0.875)
        prb = H.arr(H.items(pr)[:2] + [NAN]) if prior == "nan" else pr
        qb = H.arr(H.items(q)[:n - 1] + [NAN])
        X["pr"] = prb
        Q["pr"] = qb
        pcol = "pr"
    est, log = cbstub.make(H, link, groups, iters=iters, free_loss=False, weight=wcol, prior=pcol, real_link=real_link, lo=-1, hi=1)
    est.fit(X, y)
    wi, yi = H.items(w), H.items(y)
    W = wi[0] + wi[1] + wi[2]
    mean = (wi[0] * yi[0] + wi[1] * yi[1] + wi[2] * yi[2]) / W + 0.001
    p = H.items(est.predict(Q))
    c = est.get_feature_contributions(Q)
    cc = {g: H.items(c[key(g)]) for g in groups}
    L = est.link_func
    scale_link = H.items(L(H.arr([mean])))[0]
    if not prior:
        bases = [scale_link] * n
    else:
        pi = H.items(pr)
        k = 2 if prior == "nan" else 3
        pm = sum((pi[i] * wi[i] for i in range(1, k)), pi[0] * wi[0]) / sum(wi[1:k], wi[0])
        off = scale_link - H.items(L(H.arr([pm])))[0]
        bases = [H.items(L(H.arr([x])))[0] + off for x in H.items(q)[:n - 1]] + [scale_link]
    o = cbstub.Oracle(H, d, groups, link)
    cbstub.replay_account(H, log, o, lambda it: cbstub.lin_rate(it + 1, iters))
    for i, r in enumerate(cbstub.rows_of(PROBE)):
        z = bases[i]
        for g in groups:
            ct = o.contribution(cbstub.tup(g), r)
            z = z + ct
            H.check("contributions are the learned values", H.eq(cc[g][i], H.items(est.unlink_func(H.arr([ct])))[0]))
        H.check("prediction is the baseline plus the contributions", H.eq(p[i], H.items(est.unlink_func(H.arr([z])))[0]))
    H.observe("p", H.arr(p))


def rows(H, link, groups):
    """each row is predicted on its own: order, subset and repetition of rows are irrelevant"""
    est, log = cbstub.make(H, link, groups, iters=1, free_loss=False, real_link=False)
    y = H.reals("y", 3, lo=0.125, hi=8)
    est.fit(cbstub.frame(H, DESIGN), y)
    Q = cbstub.frame(H, PROBE)
    p = H.items(est.predict(Q))
    rev = H.items(est.predict(cbstub.frame(H, {c: v[::-1] for c, v in PROBE.items()})))[::-1]
    twice = H.items(est.predict(cbstub.frame(H, {c: v + v for c, v in PROBE.items()})))
    n = len(p)
    H.check("row order is irrelevant", H.arr_eq(H.arr(p), H.arr(rev)))
    H.check("repeated rows get the same prediction", H.arr_eq(H.arr(p + p), H.arr(twice)))
    for i in range(n):
        one = H.items(est.predict(cbstub.frame(H, {c: [v[i]] for c, v in PROBE.items()})))[0]
        H.check("a row alone gets the same prediction", H.eq(one, p[i]))
    again = H.items(est.predict(Q))
    H.check("predicting does not change the model", H.arr_eq(H.arr(p), H.arr(again)))
    cats = {g: "cat%d" % (i % 2) for i, g in enumerate(groups)}
    px = est.predict_extended(Q, cats)
    base = H.items(est.predict_extended(cbstub.frame(H, {c: [7.0] * n for c in PROBE})).predict_link())
    tot = {}
    for i, g in enumerate(groups):
        c = H.items(est.get_feature_contributions(Q)[key(g)])
        k = "cat%d" % (i % 2)
        tot[k] = c if k not in tot else [a + b for a, b in zip(tot[k], c)]
    for k in tot:
        H.check("influence categories sum the contributions of their features", H.arr_eq(px.df[k].values, H.arr(tot[k])))
    H.check("prediction with categories is the same", H.arr_eq(px.predict_link(), est.predict_extended(Q).predict_link()))
    H.observe("p", H.arr(p))


AB = ["a", "b", ("a", "b")]


def harnesses(tier):
    out = []

    def add(name, fn=additive, **p):
        out.append(Harness(name, fn, p, "3 training rows, 5 probe rows incl. missing/unseen, any targets, weights, priors and estimates"))

    add("identity", link="identity", groups=AB, weight=False, prior=False, real_link=True)
    add("identity_weighted_prior", link="identity", groups=AB, weight=True, prior=True, real_link=True)
    add("identity_prior_nan", link="identity", groups=AB, weight=False, prior="nan", real_link=True)
    add("log", link="log", groups=["a", "b"], weight=False, prior=False, real_link=True)
    add("log_prior", link="log", groups=["b"], weight=False, prior=True, real_link=True)
    add("log_weighted", link="log", groups=AB, weight=True, prior=True, real_link=False, iters=2)
    add("logit", link="logit", groups=["a"], weight=False, prior=False, real_link=True)
    add("logit_prior", link="logit", groups=["a", "b"], weight=True, prior="nan", real_link=False)
    add("rows_identity", rows, link="identity", groups=AB)
    add("rows_log", rows, link="log", groups=AB)
    if tier == "thorough":
        add("log_2", link="log", groups=AB, weight=True, prior="nan", real_link=True, iters=2)
        add("logit_2", link="logit", groups=AB, weight=True, prior=True, real_link=True, iters=2)
    return out
