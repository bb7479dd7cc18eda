"""Missing and unseen feature values in prediction."""
from symx.runner import Harness

from checks import cbstub
from checks.cbstub import INF, NAN

ASSUMPTIONS = ["the link functions are replaced by the identity here (P13 decides them)", "per-bin estimates and smoother results are arbitrary values (stubs of the abstract methods); the training loop, bin "
               "bookkeeping and prediction are the real code"]
OUTSIDE = "more rows, features, bins or iterations than stated; fractional bin numbers"

DESIGNS = [
    {"a": [0.0, 1.0, NAN], "b": [1.0, 0.0, 0.0]},
    {"a": [0.0, 0.0, 2.0], "b": [NAN, -1.0, 1.0]},
    {"a": [NAN, -1.0, INF], "b": [0.0, 1.0, 0.0]},
    {"a": [1.0, 0.0, 1.0], "b": [INF, 1.0, 2.0]},
]
PROBES = [0.0, 1.0, 2.0, 3.0, 200.0, 1e6, NAN, INF, -INF, -1.0, -999.0]


def probe(H, link, groups, designs, learned, array=False, nan_bins=(), nan_missing=False, iters=2, mixed=False):
    fl = H.mod("flags")
    d = H.choose("design", [DESIGNS[i] for i in designs])
    flag = fl.IS_CONTINUOUS | (fl.HAS_MISSING if learned else fl.MISSING_NOT_LEARNED)
    cols = list(d)
    if array:
        groups = [tuple(cols.index(c) for c in cbstub.tup(g)) for g in groups]
        groups = [g if len(g) > 1 else g[0] for g in groups]
        d = {i: d[c] for i, c in enumerate(cols)}
        cols = list(d)
    props = {c: flag for c in cols}
    if mixed:  # only the second column's missing values are not learned
        props[cols[0]] = fl.IS_CONTINUOUS | fl.HAS_MISSING
    est, log = cbstub.make(H, link, groups, props=props, iters=iters, free_loss=False, nan_bins=nan_bins, nan_missing=nan_missing)

    def data(q):
        if array:
            X = H.np.empty((len(next(iter(q.values()))), len(cols)))
            for c in cols:
                X[:, c] = H.arr(q[c])
            return X
        return cbstub.frame(H, q)

    y = H.reals("y", 3, lo=0.125, hi=8)
    est.fit(data(d), y)
    tg = [cbstub.tup(g) for g in groups]
    o = cbstub.Oracle(H, d, groups, link, not_learned=() if learned else tuple(g for g in tg if not mixed or cols[1] in g))
    cbstub.replay_account(H, log, o, lambda it: cbstub.lin_rate(it + 1, iters))
    q = {cols[0]: [p for p in PROBES for _ in PROBES], cols[1]: [p for _ in PROBES for p in PROBES]}
    base = (y[0] + y[1] + y[2]) / 3 + 0.001
    out = H.items(est.predict(data(q)))
    contrib = est.predict_extended(data(q)).predict_link()
    contrib = H.items(contrib)
    cs = []
    kinds = {"missing": [], "unseen": [], "seen": []}
    for r, p in zip(cbstub.rows_of(q), out):
        H.check("predictions are never NaN or infinite", H.finite(p))
        exp = o.link_prediction(base, r)
        bs = [o.bin_of(g, r) for g in tg]
        k = "missing" if None in bs else ("unseen" if -1 in bs else "seen")
        kinds[k].append(H.eq(p, exp))
    H.check("rows with seen values get the learned values", H.all_(kinds["seen"]))
    H.check("rows with missing values get the learned (or neutral) missing value", H.all_(kinds["missing"]))
    H.check("values not seen in training are neutral", H.all_(kinds["unseen"]))
    H.observe("out", H.arr(out))


def anybin(H, groups):
    """one probe row with arbitrary integral bin numbers"""
    fl = H.mod("flags")
    d = {"a": [0.0, 1.0, NAN], "b": [1.0, 2.0, 0.0]}
    est, log = cbstub.make(H, "identity", groups, props={c: fl.IS_ORDERED for c in d}, iters=1, free_loss=False)
    y = H.reals("y", 3, lo=0.125, hi=8)
    est.fit(cbstub.frame(H, d), y)
    o = cbstub.Oracle(H, d, groups, "identity")
    cbstub.replay_account(H, log, o, lambda it: 1.0)
    a = H.int("pa", -5, 10 ** 6)
    b = H.int("pb", -5, 10 ** 6)
    out = H.items(est.predict(H.pd.DataFrame({"a": H.arr([a * 1.0]), "b": H.arr([b * 1.0])})))[0]

    def conc(v):
        for k in range(3):
            if H.fork(H.is_(v, k)):
                return float(k)
        return -1.0 if H.fork(H.lt(v, 0)) else 10.0 ** 6
    r = {"a": conc(a), "b": conc(b)}
    base = (y[0] + y[1] + y[2]) / 3 + 0.001
    H.check("any bin number gets the value learned for it, the missing value or the neutral one", H.eq(out, o.link_prediction(base, r)))
    H.observe("out", out)


AB = ["a", "b", ("a", "b")]


def harnesses(tier):
    out = []

    def add(name, **p):
        out.append(Harness(name, probe, p, "3 training rows (4 designs), 121 probe rows (all pairs of valid, unseen, negative and "
                                           "non-finite values), %d iterations, any estimates" % p.get("iters", 2)))

    add("learned", link="identity", groups=AB, designs=[0, 1, 2, 3], learned=True)
    add("not_learned", link="identity", groups=AB, designs=[0, 1, 2, 3], learned=False)
    add("mixed", link="identity", groups=[("a", "b"), "a"], designs=[0, 1], learned=False, mixed=True)
    add("log", link="log", groups=AB, designs=[0, 1], learned=True)
    add("log_not_learned", link="log", groups=AB, designs=[1, 2], learned=False)
    add("array", link="identity", groups=["b", ("b", "a"), "a"], designs=[0, 1], learned=True, array=True)
    add("nan_estimates", link="identity", groups=AB, designs=[0, 1, 3], learned=True, nan_bins=(1,), nan_missing=True)
    out.append(Harness("any_bin", anybin, dict(groups=AB), "one row with any two integral bin numbers up to 1e6"))
    if tier == "thorough":
        add("log4", link="log", groups=AB, designs=[0, 1, 2, 3], learned=True, iters=4)
        add("log3_nan", link="log", groups=[("a", "b"), "b"], designs=[0, 1, 2, 3], learned=True, iters=3, nan_bins=(0, 2))
        add("id6", link="identity", groups=AB, designs=[0, 1, 2, 3], learned=True, iters=6)
    return out
