"""Stopping: iteration limit, stop criteria, divergence."""
from symx.runner import Harness

from checks import cbstub
from checks.cbstub import NAN

ASSUMPTIONS = ["the link functions are replaced by the identity here (P13 decides them)", "per-bin estimates, smoother results and losses are arbitrary values (stubs); the loop and its stop criteria are the "
               "real code"]
OUTSIDE = "more iterations than stated"

DESIGN = {"a": [0.0, 1.0, NAN], "b": [1.0, 0.0, 0.0]}


def run(H, iters, min_loss=False, min_factor=False, hier=None, hier_iters=1, max_diverged=0, link="identity", groups=("a", "b"),
        aggregate=True):
    np = H.np
    ml = H.real("min_loss", lo=0.0, hi=1) if min_loss else -1.0
    mf = H.real("min_factor", lo=0.0, hi=1) if min_factor else -1.0
    groups = list(groups)
    lr = lambda it, mx, feature=None: 1.0
    est, log = cbstub.make(H, link, groups, iters=iters, min_loss=ml, min_factor=mf, hier=hier, hier_iters=hier_iters,
                           max_diverged=max_diverged, rate=lr, aggregate=aggregate, lo=-0.5, hi=0.5)
    log.losses, log.when = [], []
    inner = type(est).loss

    def loss(self, prediction, y, weights):
        v = inner(self, prediction, y, weights)
        log.losses.append(v)
        log.when.append(len(log.calls))
        return v
    type(est).loss = loss
    X = cbstub.frame(H, DESIGN)
    y = H.reals("y", 3, lo=0.125, hi=8)
    ce = H.mod("utils").ConvergenceError
    raised, _ = H.raises(ce, est.fit, X, y)
    n = max([c[0] for c in log.calls]) + 1 if log.calls else 0
    return est, log, n, raised, ml, mf


def stop_loss(H, iters, hier=None, hier_iters=1):
    """stops exactly when the relative loss change falls to the threshold, at the latest after maximal_iterations"""
    est, log, n, raised, ml, mf = run(H, iters, min_loss=True, hier=hier, hier_iters=hier_iters)
    H.check("no convergence error without divergence", not raised)
    L = log.losses
    lim = max(iters, hier_iters + 1) if hier else iters
    H.check("at most the maximal number of iterations", n <= lim)
    H.check("iteration counter", H.eq(est.iteration_, n))

    def small(t):  # change in iteration t (1-based)
        d = L[t - 1] - L[t]
        a = H.clip(d, 0.0, 1e9) + H.clip(-d, 0.0, 1e9)
        return H.isle(a, ml * L[t - 1])
    zero_before = [H.is_(x, 0.0) for x in L[:-1]]
    if any(H.fork(z) for z in zero_before):
        return  # relative change undefined
    for t in range(1, n):
        if hier and t <= hier_iters:
            continue
        H.check("training goes on while the loss still changes", H.not_(small(t)))
    if n < lim:
        H.check("training stops early only when the loss has settled", small(n))
    si, sf, sl = est.stop_criteria_
    H.check("iteration criterion reported", bool(si) == (n >= iters))
    H.check("loss criterion reported", H.iff(small(n), bool(sl)))
    H.check("factor criterion not reported", not sf)
    H.observe("n", n)


def stop_factors(H, iters, groups):
    """several features: the mean over the features of the mean absolute change of their factors counts"""
    est, log, n, raised, ml, mf = run(H, iters, min_factor=True, groups=groups)
    ups, k = {}, 0
    for (it, g, raw, seen), (fg, sm) in zip(log.calls, log.fits):
        ups[it, g] = H.items(sm) + [H.items(raw)[-1]]
    prev = {g: None for _, g in ups}
    for t in range(n):
        s = 0.0
        for g in prev:
            u = ups[t, g]
            d = 0.0
            for a, b in zip(u, prev[g] or [0.0] * len(u)):
                d = d + H.clip(a - b, 0.0, 1e9) + H.clip(b - a, 0.0, 1e9)
            s = s + d / len(u)
            prev[g] = u
        s = s / len(prev)
        if t < n - 1:
            H.check("training goes on while the factors still change", H.gt(s, mf))
        elif n < iters:
            H.check("training stops early only when the factors have settled", H.isle(s, mf))
            H.check("factor criterion reported", bool(est.stop_criteria_[1]))
        else:
            H.check("factor criterion reported", H.iff(H.isle(s, mf), bool(est.stop_criteria_[1])))
    H.observe("n", n)


def stop_factor(H, iters):
    """single feature: stops when the mean absolute change of the factors falls to the threshold"""
    est, log, n, raised, ml, mf = run(H, iters, min_factor=True, groups=("b",))
    H.check("no convergence error without divergence", not raised)
    H.check("at most the maximal number of iterations", n <= iters)
    ups = []
    for (it, g, raw, seen), (fg, sm) in zip(log.calls, log.fits):
        ups.append(H.items(sm) + [H.items(raw)[-1]])
    prev = [0.0] * len(ups[0])
    for t, u in enumerate(ups):
        s = 0.0
        for a, b in zip(u, prev):
            d = a - b
            s = s + H.clip(d, 0.0, 1e9) + H.clip(-d, 0.0, 1e9)
        delta = s / len(u)
        if t < n - 1:
            H.check("training goes on while the factors still change", H.gt(delta, mf))
        elif n < iters:
            H.check("training stops early only when the factors have settled", H.isle(delta, mf))
            H.check("factor criterion reported", bool(est.stop_criteria_[1]))
        prev = u
    H.observe("n", n)


def diverge(H, iters, max_diverged, link, aggregate=True, hier=None):
    est, log, n, raised, ml, mf = run(H, iters, max_diverged=max_diverged, link=link, groups=("b",), aggregate=aggregate, hier=hier)
    L = log.losses
    # one feature: the last loss computed after an update is that of the iteration, one before it judges the update alone
    bad = [H.fork(H.gt(v, 2 * L[0])) for v in L]
    ends, alone = {}, {}
    for k, b in zip(log.when, bad):
        if k:
            if k in ends:
                alone[k] = ends[k]
            ends[k] = b
    count = sum(1 for b in ends.values() if b)
    H.check("the fifth divergence, and no earlier one, ends in a convergence error", raised == (count >= 5))
    if raised:
        H.check("convergence error only after repeated divergence", log.diverged >= 5)
        H.check("convergence error only for a diverged loss", H.gt(L[-1], 2 * L[0]))
        return
    H.check("a fitted model's loss is at most twice the baseline loss", H.isle(est.insample_loss_, 2 * est.initial_loss_))
    H.check("the reported loss is the last one computed", H.or_(*[H.is_(est.insample_loss_, x) for x in L]))
    H.check("the number of iterations is bounded", n <= iters + 5)
    H.check("no fewer than the maximal number of iterations", n >= iters)
    seen = 0
    for k in sorted(ends):
        if link == "log" and aggregate and alone.get(k) and seen > 1 and k == len(ends):
            e = H.items(est.get_feature_contributions(cbstub.frame(H, DESIGN))["b"])
            H.check("a feature that keeps diverging is ignored", H.all_([H.eq(v, 0.0) for v in e]))
        seen += 1 if ends[k] else 0
    H.check("predictions are finite", H.all_([H.finite(v) for v in H.items(est.predict(cbstub.frame(H, DESIGN)))]))
    H.observe("n", n)


def harnesses(tier):
    q = tier == "quick"
    out = [
        Harness("loss", stop_loss, dict(iters=3 if q else 5), "up to %d iterations, any losses and threshold" % (3 if q else 5)),
        Harness("loss_hier", stop_loss, dict(iters=3 if q else 4, hier=["b"], hier_iters=1), "hierarchical phase"),
        Harness("loss_hier_long", stop_loss, dict(iters=1, hier=["b"], hier_iters=2), "hierarchical phase longer than maximal_iterations"),
        Harness("factor", stop_factor, dict(iters=3 if q else 5), "one feature, up to %d iterations" % (3 if q else 5)),
        Harness("factors", stop_factors, dict(iters=2, groups=("a", "b")), "two features, up to 2 iterations"),
        Harness("diverge_log4", diverge, dict(iters=2, max_diverged=4, link="log"), "up to 4 divergences"),
        Harness("diverge_log", diverge, dict(iters=1, max_diverged=2, link="log"), "up to 2 divergences"),
        Harness("diverge_id", diverge, dict(iters=2, max_diverged=5, link="identity"), "up to 5 divergences"),
        Harness("diverge_noagg", diverge, dict(iters=1, max_diverged=5, link="identity", aggregate=False), "up to 5 divergences"),
    ]
    if not q:
        out.append(Harness("diverge_log5", diverge, dict(iters=2, max_diverged=5, link="log"), "up to 5 divergences"))
    return out
