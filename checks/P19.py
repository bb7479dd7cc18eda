"""Shrinkage: regularisation to the (neighbourhood) mean, to a prior, neutralised 2D tables."""
from symx.runner import Harness

from checks.capture import sum_

OUTSIDE = "more bins than stated, rounding"


def smoother(H, kind, u, y, **kw):
    """through the smoothers (1D or one row of a 2D table) or the function"""
    n = len(H.items(y))
    np = H.np
    if kind == "1d":
        X = np.c_[np.arange(n) * 1.0, np.ones(n), u]
        return X, np.arange(n).reshape(-1, 1) * 1.0
    X = np.c_[np.zeros(n), np.arange(n) * 1.0, np.ones(n), u]
    return X, X[:, :2]


def between(H, v, a, b):
    return H.or_(H.and_(H.le(a, v), H.le(v, b)), H.and_(H.le(b, v), H.le(v, a)))


def mean(H, kind, n, prior=False, u=None):
    mod = H.mod("smoothing.onedim" if kind == "1d" else "smoothing.multidim")
    y = H.reals("y", n, lo=-10, hi=10)
    unc = H.reals("u", n, lo=0.125, hi=4) if u is None else H.arr(u)
    X, Q = smoother(H, kind, unc, y)
    p = H.real("p", lo=-10, hi=10) if prior else None
    s = mod.WeightedMeanSmoother(prior_prediction=p)
    yi, ui = H.items(y), H.items(unc)
    y0 = y.copy()
    far = []
    for v in yi:
        d = v - (p if prior else yi[0])
        far.append(H.or_(H.gt(d, 0.01), H.lt(d, -0.01)))
    differ = H.fork(H.or_(*far))
    s.fit(X, y)
    out = H.items(s.predict(Q))
    w = [1 / (q * q) for q in ui]
    m = p if prior else sum_([a * b for a, b in zip(w, yi)]) / sum_(w)
    var = sum_([a * (v - m) * (v - m) for a, v in zip(w, yi)]) / sum_(w)
    for v, o, a in zip(yi, out, w):
        if n == 2 and u:
            H.check("never beyond the value or the mean", between(H, o, v, m))
        if differ:
            H.check("each value is averaged with the mean according to their variances",
                    H.eq(o * (a * var + 1), a * v * var + m))
        else:
            H.check("(almost) equal values stay (almost) the same", H.and_(H.le(o, v + 0.02), H.ge(o, v - 0.02)))
    H.check("the input is not changed", H.arr_eq(y, y0))
    H.observe("out", H.arr(out))


def neighbors(H, n, u):
    mod = H.mod("smoothing.onedim")
    y = H.reals("y", n, lo=-10, hi=10)
    unc = H.arr(u)
    X, Q = smoother(H, "1d", unc, y)
    s = mod.WeightedMeanSmootherNeighbors()
    s.fit(X, y)
    out = H.items(s.predict(Q))
    yi = H.items(y)
    for i in range(n):
        win = [j for j in (i - 1, i, i + 1) if 0 <= j < n]
        w = [1.0 / (q * q) for q in u]
        sw = sum_([w[j] for j in win])
        m = sum_([w[j] * yi[j] for j in win]) / sw
        H.check("a number", H.finite(out[i]))
        var = sum_([w[j] * (yi[j] - m) * (yi[j] - m) for j in win]) / sw
        H.check("each value is averaged with the mean of itself and its neighbours", H.eq(out[i] * (w[i] * var + 1), w[i] * yi[i] * var + m))
    H.observe("out", H.arr(out))


def prior_exp(H, kind, n, meta=False):
    mod = H.mod("smoothing.onedim" if kind == "1d" else "smoothing.multidim")
    y = H.reals("y", n, lo=-10, hi=10)
    unc = H.reals("u", n, lo=0.125, hi=4)
    t = H.real("t", lo=0, hi=4)
    X, Q = smoother(H, kind, unc, y)
    if meta:
        p = H.real("p", lo=-5, hi=5)
        s = mod.PriorExpectationMetaSmoother(mod.BinValuesSmoother(), p, threshold=t)
    elif n == 1:
        p = 1.0
        s = mod.RegularizeToOneSmoother(threshold=t)
    else:
        p = H.real("p", lo=-5, hi=5)
        s = mod.RegularizeToPriorExpectationSmoother(p, threshold=t)
    yi, ui = H.items(y), H.items(unc)
    sig = [H.fork(H.gt((v - p) * (v - p), t * t * a * a)) for v, a in zip(yi, ui)]
    pos = [H.fork(H.gt(v, p)) for v in yi]
    s.fit(X, y)
    out = H.items(s.predict(Q))
    for v, o, a, sg, ps in zip(yi, out, ui, sig, pos):
        if not sg:
            H.check("insignificant values become the prior", H.eq(o, p))
        else:
            d = o - p
            H.check("significant values keep their excess significance", H.eq(d * d, (v - p) * (v - p) - t * t * a * a, tol=4))
            H.check("on the side of the value", H.ge(d, 0) if ps else H.le(d, 0))
    H.observe("out", H.arr(out))


def neutral(H, rows, cols, u):
    f = H.mod("utils").neutralize_one_dim_influence
    v = H.reals("v", (rows, cols), lo=-4, hi=4)
    unc = H.arr(u).reshape((rows, cols))
    v0 = v.copy()
    r = f(v, unc)
    it, orig, un = H.items(r), H.items(v0), H.items(unc)

    def at(x, i, j):
        return x[i * cols + j]

    H.check("the input is not changed", H.arr_eq(v, v0))
    for j in range(cols):
        H.check("no net weighted shift of any column", H.eq(sum_([at(it, i, j) * at(un, i, j) for i in range(rows)]), 0.0))
    for i in range(1, rows):
        for j in range(1, cols):
            H.check("only row and column effects are removed",
                    H.eq(at(it, i, j) - at(it, i, 0) - at(it, 0, j) + at(it, 0, 0),
                         at(orig, i, j) - at(orig, i, 0) - at(orig, 0, j) + at(orig, 0, 0)))
    if all(x == u[0] for x in u):
        for i in range(rows):
            H.check("no net weighted shift of any row", H.eq(sum_([at(it, i, j) * at(un, i, j) for j in range(cols)]), 0.0))
    H.observe("r", r)


def neutral_smoother(H):
    mod = H.mod("smoothing.multidim")
    np = H.np
    y = H.reals("y", 6, lo=-4, hi=4)
    X = np.c_[[0.0, 0, 0, 1, 1, 1], [0.0, 1, 2, 0, 1, 2], np.ones(6), np.ones(6)]
    s = mod.Neutralize2DMetaSmoother(mod.BinValuesSmoother())
    s.fit(X, y)
    out = H.items(s.predict(X[:, :2]))
    yi = H.items(y)
    for i in range(2):
        for j in range(3):
            e = yi[3 * i + j] - sum_(yi[3 * i:3 * i + 3]) / 3.0 - (yi[j] + yi[3 + j]) / 2.0 + sum_(yi) / 6.0
            H.check("row and column means are removed from each bin", H.eq(out[3 * i + j], e))
    H.observe("out", H.arr(out))


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        out.append(Harness(name, fn, p, b))

    add("mean1", mean, "3 bins, any values", kind="1d", n=3, u=[0.5, 1.0, 2.0])
    add("mean1_u", mean, "2 bins, any values and uncertainties", kind="1d", n=2)
    add("mean1_prior", mean, "2 bins, any values and prior", kind="1d", n=2, prior=True, u=[0.5, 1.0])
    add("mean2", mean, "3 bins, any values", kind="2d", n=3, u=[0.5, 1.0, 0.25])
    add("mean2_prior", mean, "2 bins, any values and prior", kind="2d", n=2, prior=True, u=[0.5, 1.0])
    add("neighbors", neighbors, "4 bins, any values", n=4, u=[0.5, 1.0, 0.25, 1.0])
    add("prior1", prior_exp, "2 bins, any values, uncertainties, prior, threshold", kind="1d", n=2)
    add("prior1_one", prior_exp, "1 bin, any value, uncertainty, threshold", kind="1d", n=1)
    add("prior2", prior_exp, "2 bins, any values, uncertainties, prior, threshold", kind="2d", n=2)
    add("prior_meta", prior_exp, "2 bins, any values, uncertainties, prior, threshold", kind="2d", n=2, meta=True)
    add("prior_meta1", prior_exp, "2 bins, any values, uncertainties, prior, threshold", kind="1d", n=2, meta=True)
    add("neutral", neutral, "2x3 table, any values, equal weights", rows=2, cols=3, u=[1.0] * 6)
    add("neutral_u", neutral, "2x2 table, any values, fixed weights", rows=2, cols=2, u=[1.0, 2.0, 0.5, 1.0])
    add("neutral_smoother", neutral_smoother, "2x3 table, any values")
    if tier == "thorough":
        add("neighbors6", neighbors, "6 bins, any values", n=6, u=[0.5, 1.0, 0.25, 1.0, 2.0, 0.5])
        add("neutral33", neutral, "3x3 table, any values", rows=3, cols=3, u=[2.0] * 9)
        add("mean1_4", mean, "4 bins, any values", kind="1d", n=4, u=[0.5, 1.0, 2.0, 1.0])
    return out
