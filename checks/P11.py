"""Multiplicative models: bounded steps and bounded factors."""
from symx.runner import Harness

from checks import cbstub
from checks.cbstub import INF, NAN

ASSUMPTIONS = ["the link functions are replaced by the identity here (P13 decides them)", "per-bin estimates, smoother results and losses are arbitrary values (stubs); the loss does not diverge"]
OUTSIDE = "diverging losses (there the package removes or rescales the factors); more iterations than stated"

DESIGN = {"a": [0.0, 1.0, NAN], "b": [1.0, 0.0, 0.0]}


def limits(H, group, iters, rate1=True):
    import math

    lr = (lambda it, mx, feature=None: 1.0) if rate1 else None
    est, log = cbstub.make(H, "log", [group], iters=iters, rate=lr, lo=-20, hi=20, free_loss=False)
    X = cbstub.frame(H, DESIGN)
    y = H.reals("y", 3, lo=0.125, hi=8)
    est.fit(X, y)
    g = cbstub.tup(group)
    lo, hi = (0.01, 1000.0) if len(g) == 1 else (0.1, 100.0)
    seen = [H.items(c[3]) for c in log.calls]
    final = H.items(est.predict(X))
    seen.append(final)
    mean = H.items(y)
    b0 = (mean[0] + mean[1] + mean[2]) / 3 + 0.001
    for t in range(len(seen) - 1):
        for i in range(3):
            dv = seen[t + 1][i] - seen[t][i]
            H.check("one iteration changes a factor at most by the factor 2",
                    H.and_(H.le(dv, math.log(2.0)), H.ge(dv, math.log(0.5))))
    for t in range(len(seen)):
        for i in range(3):
            tot = seen[t][i] - b0
            H.check("the factor of a feature stays within its limits", H.and_(H.le(tot, math.log(hi)), H.ge(tot, math.log(lo))))
    H.observe("p", H.arr(final))


def harnesses(tier):
    out = []
    n = {"quick": 12, "thorough": 16}[tier]
    for name, g in (("onedim", "a"), ("twodim", ("a", "b"))):
        out.append(Harness(name, limits, dict(group=g, iters=n), "3 rows, one feature group, %d iterations, any estimates" % n))
        out.append(Harness(name + "_rate", limits, dict(group=g, iters=n, rate1=False), "default learning rate, %d iterations" % n))
    return out
