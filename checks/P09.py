"""Predictions of the training equal later predictions on the same rows."""
from symx.runner import Harness

from checks import cbstub

ASSUMPTIONS = ["the link functions are replaced by the identity here (P13 decides them)", "per-bin estimates, smoother results and losses are arbitrary values (stubs of the abstract methods); everything "
               "between them is the real training and prediction code"]
OUTSIDE = "more rows, features or iterations than stated"

NAN = float("nan")
DESIGNS = [
    {"a": [0.0, 1.0, NAN], "b": [1.0, 0.0, 0.0]},
    {"a": [0.0, 0.0, 2.0], "b": [NAN, -1.0, 1.0]},
    {"a": [NAN, NAN, NAN], "b": [0.0, 1.0, 0.0]},
    {"a": [1.0, 0.0, 1.0], "b": [float("inf"), 1.0, 2.0]},
]


def frame(H, d):
    return H.pd.DataFrame({c: H.arr(v) for c, v in d.items()})


def insample(H, link, groups, designs, frame_like=True, **k):
    d = H.choose("design", [DESIGNS[i] for i in designs])
    X = frame(H, d)
    est, log = cbstub.make(H, link, groups, **k)
    y = H.reals("y", 3, lo=0.125, hi=8)
    Xf = X.copy()
    out = est.fit_transform(Xf, y)
    p_fit = out["out"].values
    p = est.predict(X)
    H.check("fit prediction equals later prediction", H.arr_eq(p_fit, p))
    H.check("updates happened", len(log.calls) > 0)
    H.observe("p", p)


AB = ["a", "b", ("a", "b")]


def harnesses(tier):
    out = []

    def add(name, **p):
        out.append(Harness(name, insample, p, "3 training rows (%d designs), 3 feature groups, %d iterations, up to %d divergences, any "
                           "estimates and losses" % (len(p["designs"]), p["iters"], p.get("max_diverged", 0))))

    add("identity", link="identity", groups=AB, designs=[0, 1, 2, 3], iters=2)
    add("log", link="log", groups=AB, designs=[0, 1, 2, 3], iters=2)
    add("noagg", link="identity", groups=AB, designs=[0, 1], iters=3, aggregate=False)
    add("hier", link="identity", groups=AB, designs=[0, 1], iters=3, hier=["b"], hier_iters=1)
    add("diverge", link="log", groups=AB, designs=[0], iters=2, max_diverged=2)
    add("noagg_diverge", link="identity", groups=AB, designs=[0], iters=2, max_diverged=1, aggregate=False)
    add("hier_diverge", link="log", groups=AB, designs=[0], iters=3, max_diverged=1, hier=["b"], hier_iters=1)
    add("id_diverge", link="identity", groups=AB, designs=[0], iters=2, max_diverged=2)
    if tier == "thorough":
        add("log4", link="log", groups=AB, designs=[0, 1, 2, 3], iters=4)
        add("identity_diverge3", link="identity", groups=AB, designs=[0, 1], iters=3, max_diverged=3)
        add("log_diverge3", link="log", groups=AB, designs=[1], iters=2, max_diverged=3)
        add("noagg_diverge2", link="log", groups=AB, designs=[0, 1], iters=2, max_diverged=2, aggregate=False)
    return out
