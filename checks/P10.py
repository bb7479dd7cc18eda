"""Training is a sequence of updates, each seeing the current prediction of all other features; hierarchical phase."""
from symx.runner import Harness

from checks import cbstub
from checks.cbstub import INF, NAN

ASSUMPTIONS = ["the link functions are replaced by the identity here (P13 decides them)", "per-bin estimates, smoother results and losses are arbitrary values (stubs of the abstract methods); the training "
               "loop is the real code; divergence of the loss is excluded here (P09, P12)"]
OUTSIDE = "more rows, features or iterations than stated; diverging losses"

DESIGNS = [
    {"a": [0.0, 1.0, NAN, 1.0], "b": [1.0, 0.0, 0.0, 2.0]},
    {"a": [0.0, 0.0, 2.0, -1.0], "b": [NAN, 0.0, 1.0, 1.0]},
]


def account(H, link, groups, designs, iters, aggregate=True, hier=None, hier_iters=1, rate=None, weight=False):
    d = H.choose("design", [DESIGNS[i] for i in designs])
    X = cbstub.frame(H, d)
    y = H.reals("y", 4, lo=0.125, hi=8)
    lr = (lambda it, mx, feature=None: [0.25, 0.5, 1.0, 0.75][it % 4]) if rate else None
    est, log = cbstub.make(H, link, groups, iters=iters, aggregate=aggregate, hier=hier, hier_iters=hier_iters, rate=lr)
    est.fit(X, y)
    yi = H.items(y)
    base = (yi[0] + yi[1] + yi[2] + yi[3]) / 4 + 0.001
    tg = [cbstub.tup(g) for g in groups]
    # who is updated when
    want = []
    total_iters = max(iters, hier_iters + 1) if hier else iters
    for it in range(total_iters):
        for g in tg:
            if hier and it < hier_iters and g not in [cbstub.tup(h) for h in hier]:
                continue
            want.append((it, g))
    H.check("each feature is updated once per iteration, in the given order; only the hierarchical ones in the first iterations",
            [(c[0], c[1]) for c in log.calls] == want)
    o = cbstub.Oracle(H, d, groups, link, aggregate=aggregate)
    if hier:
        rates = lambda it: 1.0
    elif rate:
        rates = lambda it: [0.25, 0.5, 1.0, 0.75][(it + 1) % 4]
    else:
        rates = lambda it: cbstub.lin_rate(it + 1, iters)
    before = cbstub.replay_account(H, log, o, rates)
    final = dict(o.total)
    for (it, g, raw, seen), tot in zip(log.calls, before):
        o.total = tot
        for i, r in enumerate(cbstub.rows_of(d)):
            e = o.link_prediction(base, r, without=None if aggregate else g)
            H.check("an update sees the current prediction of all features" if aggregate else
                    "an update sees the current prediction of all other features", H.eq(H.items(seen)[i], e))
    o.total = final
    p = H.items(est.predict(X))
    for i, r in enumerate(cbstub.rows_of(d)):
        H.check("the final model is the result of all updates", H.eq(p[i], o.link_prediction(base, r)))
    H.observe("p", H.arr(p))


AB = ["a", "b", ("a", "b")]


def harnesses(tier):
    out = []

    def add(name, **p):
        out.append(Harness(name, account, p, "4 training rows, 3 feature groups, %d iterations, any estimates and losses" % p["iters"]))

    add("identity", link="identity", groups=AB, designs=[0, 1], iters=3)
    add("log", link="log", groups=AB, designs=[0, 1], iters=2)
    add("rate", link="identity", groups=AB, designs=[0], iters=3, rate=True)
    add("noagg", link="identity", groups=AB, designs=[0, 1], iters=3, aggregate=False)
    add("noagg_log", link="log", groups=AB, designs=[0], iters=2, aggregate=False, rate=True)
    add("hier", link="identity", groups=AB, designs=[0, 1], iters=3, hier=["b"], hier_iters=2)
    add("hier_late", link="log", groups=AB, designs=[0], iters=1, hier=["a", ("a", "b")], hier_iters=2)
    if tier == "thorough":
        add("identity5", link="identity", groups=AB, designs=[0, 1], iters=5)
        add("log4", link="log", groups=AB, designs=[0, 1], iters=4)
        add("hier5", link="log", groups=AB, designs=[0, 1], iters=5, hier=["b"], hier_iters=3)
        add("noagg5", link="logit", groups=AB, designs=[0, 1], iters=5, aggregate=False)
    return out
