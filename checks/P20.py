"""Bin-value lookup and the meta smoothers around it."""
from symx.runner import Harness

from checks.capture import NAN, sum_

OUTSIDE = "more bins or rows than stated, rounding, pickling"


def table(H, shape, weights=None):
    """(X_for_smoother, values) for all bins of a feature"""
    np = H.np
    n = 1
    for s in shape:
        n *= s
    y = H.reals("y", n, lo=-10, hi=10)
    w = np.ones(n) if weights is None else H.arr(weights)
    u = H.arr([0.25 * (i % 3 + 1) for i in range(n)])
    if len(shape) == 1:
        cols = [np.arange(n) * 1.0]
    else:
        cols = [H.arr([float(i // shape[1]) for i in range(n)]), H.arr([float(i % shape[1]) for i in range(n)])]
    return np.c_[tuple(cols + [w, u])], y


def isfin(H, v):
    return H.fork(H.finite(v))


def probe(H, dims, fractional=True):
    """one arbitrary row, plus one fixed valid row to keep the array two rows long"""
    np = H.np
    kinds = ("finite", "nan", "inf")
    p = [H.anyfloat("p%d" % d, kinds, lo=-3, hi=6) for d in range(dims)]
    if not fractional:
        for v in p:
            if isfin(H, v):
                H.assume(H.or_(*[H.eq(v, float(k)) for k in range(-3, 7)]))
    return H.arr([p, [0.0] * dims]).reshape((2, dims)), p


def lookup(H, shape):
    mod = H.mod("smoothing.onedim" if len(shape) == 1 else "smoothing.multidim")
    X, y = table(H, shape)
    s = mod.BinValuesSmoother()
    s.fit(X, y)
    yi = H.items(y)
    Q, p = probe(H, len(shape))
    Q0 = Q.copy()
    out = H.items(s.predict(Q))
    H.check("the input is not changed", H.arr_eq(Q, Q0))
    H.check("other rows are unaffected", H.eq(out[1], yi[0]))
    if not all(isfin(H, v) for v in p):
        H.check("missing values have no bin value", H.isnan(out[0]))
    elif len(shape) == 1:
        n = shape[0]
        v = p[0]
        H.check("values outside the bins have no bin value",
                H.implies(H.or_(H.lt(v, 0), H.gt(v, n - 0.5)), H.isnan(out[0])))
        for b in range(n):
            H.check("each bin returns its own value", H.implies(H.and_(H.ge(v, 0), H.gt(v, b - 0.5), H.lt(v, b + 0.5)), H.eq(out[0], yi[b])))
    else:
        inside = H.and_(*[H.and_(H.ge(v, 0), H.lt(v, n)) for v, n in zip(p, shape)])
        H.check("values outside the bins have no bin value", H.iff(H.not_(inside), H.isnan(out[0])))
        for a in range(shape[0]):
            for b in range(shape[1]):
                here = H.and_(H.ge(p[0], a), H.lt(p[0], a + 1), H.ge(p[1], b), H.lt(p[1], b + 1))
                H.check("each bin returns its own value", H.implies(here, H.eq(out[0], yi[a * shape[1] + b])))
    H.observe("out", H.arr(out))


class Sub:
    """arbitrary inner smoother: remembers what it was fitted on, predicts given values"""

    def __init__(self, H, values):
        self.H, self.values, self.calls, self.seen = H, values, [], []

    def fit(self, X, y):
        self.calls.append((X.copy(), y.copy()))
        return self

    def predict(self, X):
        self.seen.append(X)
        return self.H.arr([v for v in self.values[: len(X)]])

    def get_params(self, deep=True):
        return {}


def cut(H, shape, kind, weights, norm):
    m = H.mod("smoothing.meta_smoother")
    X, y = table(H, shape, weights)
    inner = H.reals("inner", 2, lo=-5, hi=5)
    sub = Sub(H, H.items(inner))
    rt = m.RegressionType(kind)
    s = (m.NormalizationRegressionTypeSmoother if norm else m.RegressionTypeSmoother)(sub, rt)
    s.fit(X, y)
    yi = H.items(y)
    mean = sum_([a * b for a, b in zip(yi, weights)]) / sum(weights) if norm else 0.0
    H.check("the inner smoother is fitted on the normalised values", H.all_([H.eq(a, b - mean) for a, b in zip(H.items(sub.calls[0][1]), yi)]))
    Q, p = probe(H, len(shape), fractional=kind != "discontinuous")
    out = H.items(s.predict(Q))
    val = H.items(inner)
    w0 = weights[0] if kind == "discontinuous" else 1.0
    H.check("other rows are unaffected", H.isnan(out[1]) if w0 == 0 else H.eq(out[1], val[1] + mean))
    keep = H.eq(out[0], val[0] + mean)
    gone = H.isnan(out[0])
    finite = all(isfin(H, v) for v in p)
    if kind == "extrapolating":
        H.check("extrapolating smoothers are never cut", keep)
    elif not finite:
        if kind == "discontinuous":
            H.check("missing values are cut", gone)
    elif kind == "interpolating":
        off = H.or_(*[H.or_(H.lt(v, 0), H.gt(v, n - 0.5)) for v, n in zip(p, shape)])
        H.check("cut exactly outside the bins", H.and_(H.implies(off, gone), H.implies(H.not_(off), keep)))
    else:
        inside = []
        for i, w in enumerate(weights):
            pos = [i] if len(shape) == 1 else [i // shape[1], i % shape[1]]
            here = H.and_(*[H.eq(v, float(q)) for v, q in zip(p, pos)])
            inside.append(here)
            H.check("only bins with training rows have a value", H.implies(here, keep if w else gone))
        H.check("values outside the bins are cut", H.implies(H.not_(H.or_(*inside)), gone))
    H.observe("out", H.arr(out))


def normal(H, weights):
    m = H.mod("smoothing.meta_smoother")
    n = 3
    X, y = table(H, (n,), [0.0] * n)
    w = H.arr([0.0] * n) if weights == "zero" else H.reals("w", n, lo=0, hi=4)
    if weights != "zero":
        H.assume(sum_(H.items(w)) >= 0.5)
    X = H.np.c_[X[:, 0], w, X[:, 2]]
    inner = H.reals("inner", 2, lo=-5, hi=5)
    sub = Sub(H, H.items(inner))
    s = m.NormalizationSmoother(sub)
    y0 = y.copy()
    s.fit(X, y)
    yi, wi = H.items(y), H.items(w)
    mean = 0.0 if weights == "zero" else sum_([a * b for a, b in zip(yi, wi)]) / sum_(wi)
    H.check("the inner smoother sees the values minus their weighted mean", H.all_([H.eq(a, b - mean) for a, b in zip(H.items(sub.calls[0][1]), yi)]))
    out = H.items(s.predict(X[:2, :1]))
    H.check("and the mean is added back", H.all_([H.eq(a, b + mean) for a, b in zip(out, H.items(inner))]))
    H.check("the input is not changed", H.arr_eq(y, y0))


def section(H, n, nanrep):
    m = H.mod("smoothing.meta_smoother")
    np = H.np
    x = H.reals("x", n, lo=0, hi=8)
    y = H.reals("y", n, lo=-5, hi=5)
    t = H.real("t", lo=0, hi=8)
    eps = 0.25
    X = np.c_[x, np.ones(n), np.ones(n)]
    lo, hi = Sub(H, [H.real("lo%d" % i) for i in range(2)]), Sub(H, [H.real("hi%d" % i) for i in range(2)])
    kw = {} if nanrep is None else {"nan_representation": nanrep}
    s = m.SectionSmoother(t, lo, hi, epsilon=eps, **kw)
    xi, yi = H.items(x), H.items(y)
    below = [H.fork(H.isle(v, t + eps)) for v in xi]
    s.fit(X, y)
    for sub, side in ((lo, True), (hi, False)):
        want = [yi[i] for i in range(n) if below[i] == side]
        if not want:
            H.check("a section without bins is not fitted", not sub.calls)
            continue
        H.check("each section is fitted once", len(sub.calls) == 1)
        got = H.items(sub.calls[0][1])
        H.check("with exactly its bins", H.and_(len(got) == len(want), H.all_([H.eq(a, b) for a, b in zip(got, want)])))
    q = H.reals("q", 2, lo=0, hi=8)
    qb = [H.fork(H.isle(v, t + eps)) for v in H.items(q)]
    out = H.items(s.predict(np.c_[q, q]))
    k = {True: 0, False: 0}
    for i in range(2):
        sub = lo if qb[i] else hi
        if sub.calls:
            H.check("each row is predicted by its section", H.eq(out[i], sub.values[k[qb[i]]]))
        elif nanrep is None:
            H.check("rows of a section without bins are not a number", H.isnan(out[i]))
        else:
            H.check("rows of a section without bins get the configured representation", H.eq(out[i], nanrep))
        k[qb[i]] += 1
    H.observe("out", H.arr(out))


def unfitted(H):
    one, multi, meta, ext = (H.mod("smoothing." + m) for m in ("onedim", "multidim", "meta_smoother", "extrapolate"))
    X = H.arr([[H.real("x"), 0.0]]).reshape((1, 2))
    for s in (one.BinValuesSmoother(), one.WeightedMeanSmoother(), one.OrthogonalPolynomialSmoother(), one.LinearSmoother(),
              one.IsotonicRegressor(), multi.BinValuesSmoother(), multi.WeightedMeanSmoother(), ext.LinearExtrapolator(),
              meta.SectionSmoother(1.0, one.BinValuesSmoother(), one.BinValuesSmoother())):
        raised, _ = H.raises(ValueError, s.predict, X)
        H.check("predicting before fitting is an error", raised)


def groups(H, cls, n_dim, weights=None):
    multi, one = H.mod("smoothing.multidim"), H.mod("smoothing.onedim")
    X, y = table(H, (2, 3), weights)
    yi = H.items(y)
    s = multi.GroupBySmootherCB(one.BinValuesSmoother(), 2) if cls == "cb" else multi.GroupBySmoother(one.BinValuesSmoother(), 2)
    s.fit(X, y)
    a = H.choose("a", [0.0, 1.0, 2.0])
    b = H.real("b", lo=-1, hi=4)
    out = H.items(s.predict(H.arr([[1.0, 2.0], [a, b], [0.0, 1.0]])))
    fitted = [weights is None or cls != "cb" or sum(weights[3 * g:3 * g + 3]) > 0 for g in range(2)]
    H.check("rows of seen groups are predicted by the smoother of their group",
            H.and_(H.eq(out[0], yi[5]) if fitted[1] else H.isnan(out[0]), H.eq(out[2], yi[1]) if fitted[0] else H.isnan(out[2])))
    g = int(a)
    if g > 1 or not fitted[g]:
        H.check("rows of unseen groups are not a number", H.isnan(out[1]))
    else:
        for k in range(3):
            H.check("the value of the bin within the group", H.implies(H.and_(H.ge(b, 0), H.gt(b, k - 0.5), H.lt(b, k + 0.5)), H.eq(out[1], yi[3 * g + k])))
        H.check("outside the bins not a number", H.implies(H.or_(H.lt(b, 0), H.gt(b, 2.5)), H.isnan(out[1])))
    H.observe("out", H.arr(out))


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        out.append(Harness(name, fn, p, b))

    add("lookup1", lookup, "4 bins, any values, any probe", shape=(4,))
    add("lookup2", lookup, "2x3 bins, any values, any probe", shape=(2, 3))
    for kind in ("discontinuous", "interpolating", "extrapolating"):
        add("cut1_" + kind, cut, "4 bins, any values, any probe", shape=(4,), kind=kind, weights=[2.0, 0.0, 1.0, 0.0], norm=False)
        add("cut2_" + kind, cut, "2x2 bins, any values, any probe", shape=(2, 2), kind=kind, weights=[2.0, 0.0, 1.0, 1.0], norm=False)
        add("cut1n_" + kind, cut, "4 bins, any values, any probe", shape=(4,), kind=kind, weights=[0.0, 3.0, 1.0, 2.0], norm=True)
        add("cut2n_" + kind, cut, "2x2 bins, any values, any probe", shape=(2, 2), kind=kind, weights=[0.0, 2.0, 1.0, 0.0], norm=True)
    add("normal", normal, "3 bins, any values and weights", weights="any")
    add("normal0", normal, "3 bins, any values, no weight", weights="zero")
    add("section", section, "2 bins and 2 rows at any position, any split point", n=2, nanrep=None)
    add("section_nan", section, "2 bins and 2 rows at any position, any split point", n=2, nanrep=-7.0)
    add("unfitted", unfitted, "9 smoothers, any row")
    add("groups", groups, "2 groups of 3 bins, any values, any probe", cls="plain", n_dim=2)
    add("groups_cb", groups, "2 groups of 3 bins, any values, any probe", cls="cb", n_dim=2, weights=[0.0, 2.0, 0.0, 0.0, 0.0, 0.0])
    if tier == "thorough":
        add("lookup1_8", lookup, "8 bins, any values, any probe", shape=(8,))
        add("lookup2_34", lookup, "3x4 bins, any values, any probe", shape=(3, 4))
        add("section3", section, "3 bins and 2 rows at any position, any split point", n=3, nanrep=None)
    return out
