"""Quantile-parameterised distributions and the chain of quantile models."""
from symx.runner import Harness

ASSUMPTIONS = ["norm and logistic distributions are arbitrary symmetric continuous distributions (strictly increasing bijections)",
               "exp, log and square roots are exact; degenerate triplets (equal quantile values) are outside"]
OUTSIDE = "equal quantile values; shares below 1/64 or above 63/64; rounding; more than 2 samples at once"


def build(H, kind, alpha, q, l, u, version, **kw):
    m = H.mod("quantile_matching")
    if kind == "S":
        return m.J_QPD_S(alpha, *q, l=l, version=version)
    if kind == "B":
        return m.J_QPD_B(alpha, *q, l=l, u=u, version=version)
    if kind == "xU":
        return m.J_QPD_extended_U(alpha, *q, version=version, **kw)
    if kind == "xS":
        return m.J_QPD_extended_S(alpha, *q, l=l, version=version, **kw)
    return m.J_QPD_extended_B(alpha, *q, l=l, u=u, version=version, **kw)


def phi(H, version):
    st = H.scipy("stats")
    return st.norm() if version == "normal" else st.logistic()


def triplet(H, kind, version, skew, l=0.0, u=1.0, fixed=False):
    """ordered quantile values, skewed to the right (1), left (-1) or symmetric (0) in the internal space of the distribution"""
    if kind == "B" and skew == 0:
        return H.choose("q", [[l + (u - l) * x for x in t] for t in ([0.25, 0.5, 0.75], [0.125, 0.5, 0.875])])
    if fixed:
        L, d1 = H.choose("Ld1", [(-1.0, 0.5), (-0.25, 0.25)])
    else:
        L, d1 = H.real("L", lo=-2, hi=1), H.real("d1", lo=0.125, hi=2)
    d2 = d1
    if skew:
        g = 0.25 if fixed else H.real("g", lo=0.0625, hi=1)
        d1, d2 = (d1, d1 + g) if skew > 0 else (d1 + g, d1)
    z = [L, L + d1, L + d1 + d2]
    if kind == "xU":
        return z
    if kind in ("S", "xS"):
        return [l + H.np.exp(x) for x in z]
    if kind == "B":
        p = phi(H, version)
        return [l + (u - l) * p.cdf(x) for x in z]
    return [l + (u - l) / (1.0 + H.np.exp(-x)) for x in z]


def hits(H, kind, version, skew, l=0.0, u=1.0):
    q = triplet(H, kind, version, skew, l, u)
    alpha = H.choose("alpha", [0.0625, 0.25, 0.375]) if kind == "B" and not skew else H.real("alpha", lo=0.015625, hi=0.46875)
    d = build(H, kind, alpha, q, l, u, version)
    for p, v, name in ((alpha, q[0], "lower"), (0.5, q[1], "median"), (1 - alpha, q[2], "upper")):
        got = H.items(H.arr([d.ppf(p)]))[0]
        H.check("the %s quantile is the given value" % name, H.eq(got, v))


def inverse(H, kind, version, skew, l=0.0, u=1.0):
    """cdf and ppf are inverse to each other, the ppf increases and stays within the bounds"""
    fixed = skew and kind == "S" or skew < 0 and kind in ("xS", "xB")
    q = triplet(H, kind, version, skew, l, u, fixed)
    alpha = 0.25
    d = build(H, kind, alpha, q, l, u, version)
    p = H.real("p", lo=0.125, hi=0.875)
    v = d.ppf(p)
    H.check("the cdf inverts the quantile function", H.eq(H.items(H.arr([d.cdf(v)]))[0], p))
    v = H.items(H.arr([v]))[0]
    if kind not in ("xU",):
        H.check("above the lower bound", H.gt(v, l))
    if kind in ("B", "xB"):
        H.check("below the upper bound", H.lt(v, u))


def shaped(H, kind, skew, shape):
    """with a shape of the base distribution the upper quantile is met and the cdf inverts the quantile function"""
    q = triplet(H, kind, "sinhlogistic", skew, fixed=True)
    d = build(H, kind, 0.25, q, 0.0, 1.0, "sinhlogistic", shape=shape)
    H.check("the upper quantile is the given value", H.eq(scalar(H, d.ppf(0.75)), q[2]))
    p = H.real("p", lo=0.125, hi=0.875)
    H.check("the cdf inverts the quantile function", H.eq(scalar(H, d.cdf(d.ppf(p))), p))


def base(H, sign):
    """the base distribution of shape 0, positive and negative: inverse functions, symmetric about 0"""
    m = H.mod("quantile_matching")
    shape = float(sign) if sign == 0 else sign * H.real("shape", lo=0.25, hi=4)
    d = m.SinhLogistic(shape=shape)
    p = H.real("p", lo=0.0625, hi=0.9375)
    v = scalar(H, d.ppf(p))
    H.check("the cdf inverts the quantile function", H.eq(scalar(H, d.cdf(v)), p))
    H.check("the median is 0", H.eq(scalar(H, d.ppf(0.5)), 0.0))
    H.check("symmetric", H.eq(scalar(H, d.ppf(1 - p)), -v))
    H.check("sign of the quantiles", H.and_(H.implies(H.gt(p, 0.5), H.gt(v, 0.0)), H.implies(H.lt(p, 0.5), H.lt(v, 0.0))))


def density(H, sign):
    """the density is the slope of the cdf F: 4 F (1-F) times the slope of the scaled argument"""
    m = H.mod("quantile_matching")
    d = m.SinhLogistic(shape=float(sign))
    x = H.real("x", lo=-2, hi=2)
    if sign > 0:
        slope = (H.np.exp(sign * x) + H.np.exp(-sign * x)) / 2
    else:
        slope = 1.0 / H.np.sqrt((sign * x) ** 2 + 1) if sign else 1.0
    z = 2 * x if sign == 0 else H.np.sinh(x) * 2 if sign > 0 else H.np.arcsinh(-x) * -2
    H.np.exp(z), H.np.exp(-z)
    F = scalar(H, d.cdf(x))
    H.check("the density", H.eq(scalar(H, d.pdf(x)), 4 * F * (1 - F) * slope))


def width(H):
    """the scaled base distribution has its outer quantile at 1"""
    m = H.mod("quantile_matching")
    alpha = H.real("alpha", lo=0.0625, hi=0.4375)

    class Lin:
        ppf = staticmethod(lambda x: 8.0 * x - 4.0)
        cdf = staticmethod(lambda x: (x + 4.0) / 8.0)
        pdf = staticmethod(lambda x: (16.0 - x * x) / 64.0)

    d = m.BaseDist(Lin, alpha)
    w = 8.0 * (1 - alpha) - 4.0
    x = H.real("x", lo=0, hi=1)
    H.check("outer quantile", H.eq(scalar(H, d.ppf(1 - alpha)), 1.0))
    H.check("quantiles", H.eq(scalar(H, d.ppf(x)) * w, Lin.ppf(x)))
    H.check("cdf", H.eq(scalar(H, d.cdf(x)), Lin.cdf(x * w)))
    H.check("density", H.eq(scalar(H, d.pdf(x)), Lin.pdf(x * w) * w))


def transforms(H, kind):
    """the maps between bounded and unbounded values are inverse to each other, values on the bound are mapped next to it"""
    m = H.mod("quantile_matching")
    to = getattr(m, "transform_from_" + kind)
    back = getattr(m, "back_transform_in_" + kind)
    args = {"bounds": (0.5, 3.0), "semibound_lower": (0.5,), "semibound_upper": (3.0,)}[kind]
    x = H.real("x", lo=0.625, hi=2.875)
    if kind == "semibound_lower":
        edge = 0.5
    elif kind == "semibound_upper":
        edge = 3.0
    else:
        edge = 0.5
    H.check("there and back", H.eq(H.items(back(to(H.arr([x]), *args), *args))[0], x))
    z = H.real("z", lo=-4, hi=4)
    y = H.items(back(H.arr([z]), *args))[0]
    H.check("within the bounds", H.and_(*([H.gt(y, 0.5)] if kind != "semibound_upper" else []), *([H.lt(y, 3.0)] if kind != "semibound_lower" else [])))
    H.check("back and there", H.eq(H.items(to(H.arr([y]), *args))[0], z))
    H.check("finite on the bound", H.finite(H.items(to(H.arr([edge, x]), *args))[0]))


def scalar(H, v):
    return H.items(H.arr([v]))[0]


def monotone(H, kind, version, skew, l=0.0, u=1.0):
    """a larger share has a larger quantile, a larger value a larger share"""
    q = triplet(H, kind, version, skew, l, u, True)
    d = build(H, kind, 0.25, q, l, u, version)
    p1 = H.real("p1", lo=0.0625, hi=0.9375)
    p2 = H.real("p2", lo=0.0625, hi=0.9375)
    H.assume(H.gt(p2, p1 + 0.03125))
    v1, v2 = scalar(H, d.ppf(p1)), scalar(H, d.ppf(p2))
    H.check("quantiles increase", H.lt(v1, v2))


def rejects(H, kind):
    """triplets out of order raise a ValueError, unknown base distributions are refused"""
    bad = H.choose("bad", ["low", "high", "version"])
    m = H.real("m", lo=0.25, hi=0.75)
    g = H.real("g", gt=0.0, lt=0.125)
    e = H.real("e", lo=0.0, hi=0.125)
    if bad == "version":
        raised, _ = H.raises(Exception, lambda: build(H, kind, 0.25, [m - g, m, m + g], 0.0, 1.0, "uniform"))
        H.check("an unknown base distribution is refused", raised)
        return
    q = [m + g, m, m + e] if bad == "low" else [m - e, m, m - g]
    version = "normal" if kind in "SB" else "logistic"
    raised, _ = H.raises(ValueError, lambda: build(H, kind, 0.25, q, 0.0, 1.0, version))
    H.check("a triplet out of order is refused", raised)


def vectors(H, kind, skews):
    """several samples and shares at once give what each gives alone"""
    ps = [H.real("p%d" % i, lo=0.03125, hi=0.96875) for i in range(2)]
    ref = []
    if kind[0] == "x":
        q = [0.125, 0.25, 0.75]
        d = build(H, kind, 0.25, q, 0.0, 1.0, "logistic")
        out = H.items(d.ppf(H.arr(ps)))
        for i in range(2):
            H.check("share %d" % i, H.eq(out[i], scalar(H, build(H, kind, 0.25, q, 0.0, 1.0, "logistic").ppf(ps[i]))))
        return
    qs = [[0.125, 0.25, 0.75], [0.03125, 0.25, 0.5]]
    cols = [H.arr([x[k] for x in qs]) for k in range(3)]
    d = build(H, kind, 0.25, cols, 0.0, 1.0, "normal")
    one = [build(H, kind, 0.25, x, 0.0, 1.0, "normal") for x in qs]
    ref = [[scalar(H, o.ppf(p)) for o in one] for p in ps]
    got = d.ppf(H.arr(ps))
    H.check("one row per share, one column per sample", tuple(got.shape) == (2, 2))
    for i in range(2):
        for j in range(2):
            H.check("share %d of sample %d" % (i, j), H.eq(got[i, j], ref[i][j]))
    got = H.items(d.ppf(H.arr(ps), inner=True))
    H.check("inner: one value per sample", len(got) == 2)
    for i in range(2):
        H.check("share of its own sample %d" % i, H.eq(got[i], ref[i][i]))


def vector_cdf(H, kind):
    """the cdf of several samples and values at once"""
    xs = [H.real("x%d" % i, lo=0.03125, hi=0.96875) for i in range(2)]
    qs = [[0.125, 0.25, 0.75], [0.03125, 0.25, 0.5]]
    cols = [H.arr([x[k] for x in qs]) for k in range(3)]
    d = build(H, kind, 0.25, cols, 0.0, 1.0, "normal")
    one = [build(H, kind, 0.25, x, 0.0, 1.0, "normal") for x in qs]
    ref = [[scalar(H, o.cdf(x)) for o in one] for x in xs]
    got = d.cdf(H.arr(xs))
    H.check("one row per value, one column per sample", tuple(got.shape) == (2, 2))
    for i in range(2):
        for j in range(2):
            H.check("value %d in sample %d" % (i, j), H.eq(got[i, j], ref[i][j]))
    got = H.items(d.cdf(H.arr(xs), inner=True))
    for i in range(2):
        H.check("value of its own sample %d" % i, H.eq(got[i], ref[i][i]))


class Sub:
    """a quantile model that predicts given values and records its training data"""

    def __init__(self, H, out):
        self.H, self.out, self.fits = H, list(out), []

    def fit(self, X, y):
        self.fits.append((X, y))
        return self

    def predict(self, X):
        rows = [int(r) for r in self.H.items(X[:, 0])]
        return self.H.arr([self.out[r] for r in rows])


def chain(H, bound, l, u):
    """quantile models trained on the right rows and targets, prediction in order and within the bounds"""
    m = H.mod("quantile_matching")
    outs = [0.25 if l and t == "med" else H.real(t, lo=-1, hi=1) for t in ("med", "low", "high")]
    subs = [Sub(H, [o]) for o in outs]
    est = m.QPD_RegressorChain(*subs, bound=bound, alpha=0.25, l=l, u=u)
    X = H.arr([[0.0, 0.5]])
    # a target on either side of the median
    z = H.np.exp(outs[0])
    med = l + z if bound == "S" else l + (u - l) * z / (1 + z)
    side = H.choose("side", ["below", "above"])
    r = H.real("r", lo=0.0625, hi=0.9375)
    if side == "below":
        y = l + r * (med - l)
    else:
        y = med + (r * (u - med) if bound == "B" else 4 * r)
    est.fit(X, H.arr([y]))
    low, med, high, qpd = est.predict(X)
    low, med, high = scalar(H, low[0]), scalar(H, med[0]), scalar(H, high[0])
    H.check("the quantiles are in order", H.and_(H.lt(low, med), H.lt(med, high)))
    H.check("above the lower bound", H.lt(l, low))
    if bound == "B":
        H.check("below the upper bound", H.lt(high, u))
    sizes = [len(s.fits) == 1 and len(H.items(s.fits[0][1])) for s in subs]
    H.check("the median model sees all rows", sizes[0] == 1)
    H.check("the lower model sees the rows below the median", sizes[1] == int(side == "below"))
    H.check("the upper model sees the rows above the median", sizes[2] == int(side == "above"))


def own_target(H, bound, which, l, lo, hi):
    """a model that predicts the target it was trained on yields the target"""
    m = H.mod("quantile_matching")
    subs = [Sub(H, [o]) for o in (0.5, -0.25, 0.0)]
    est = m.QPD_RegressorChain(*subs, bound=bound, alpha=0.25, l=l, u=4.0)
    X = H.arr([[0.0, 0.5]])
    y = H.real("y", lo=lo, hi=hi)
    est.fit(X, H.arr([y]))
    k = {"median": 0, "lower": 1, "upper": 2}[which]
    subs[k].out = [H.items(subs[k].fits[0][1])[0]]
    H.check("target of the %s model" % which, H.eq(H.items(est.predict(X)[(1, 0, 2)[k]])[0], y))


def chain_rows(H, bound, n):
    """each quantile model is trained on the rows on its side of the median, in their order, with their own targets"""
    m = H.mod("quantile_matching")
    outs = [[0.5, -0.25, 0.125][:n], [-0.5, 0.25, 0.0][:n], [0.25, -0.125, 0.5][:n]]
    ys = [H.real("y%d" % i, lo=0.0625, hi=0.9375 if bound == "B" else 8) for i in range(n)]
    subs = [Sub(H, o) for o in outs]
    est = m.QPD_RegressorChain(*subs, bound=bound, alpha=0.25, l=0.0, u=1.0)
    est.fit(H.arr([[float(i), 0.5] for i in range(n)]), H.arr(ys))
    med = H.items(est.predict(H.arr([[float(i), 0.5] for i in range(n)]))[1])
    below = [i for i in range(n) if H.fork(H.lt(ys[i], med[i]))]
    above = [i for i in range(n) if H.fork(H.lt(med[i], ys[i]))]
    for s, rows, label in ((subs[0], list(range(n)), "median"), (subs[1], below, "lower"), (subs[2], above, "upper")):
        got = [int(r) for r in H.items(s.fits[0][0][:, 0])]
        H.check("rows of the %s model" % label, got == rows)
        H.check("one target per row of the %s model" % label, len(H.items(s.fits[0][1])) == len(rows))
    for i in range(n):
        one = [Sub(H, [0.0] * i + [o[i]]) for o in outs]
        m.QPD_RegressorChain(*one, bound=bound, alpha=0.25, l=0.0, u=1.0).fit(H.arr([[float(i), 0.5]]), H.arr([ys[i]]))
        for s, o, rows in zip(subs, one, (list(range(n)), below, above)):
            if i in rows:
                H.check("target of row %d" % i, H.eq(H.items(s.fits[0][1])[rows.index(i)], H.items(o.fits[0][1])[0]))


def harnesses(tier):
    out = []

    def add(hname, fn, b, opts=None, **p):
        out.append(Harness(hname, fn, p, b, **(opts or {})))

    for kind in ("S", "B", "xU", "xS", "xB"):
        for version in (("normal",) if kind in "SB" else ("logistic", "sinhlogistic")):
            for skew in (-1, 0, 1):
                o = dict(symbolic_consts=True) if skew == 0 and kind[0] == "x" else None
                name = "%s_%s%+d" % (kind, version, skew)
                add("hits_" + name, hits, "any ordered triplet", o, kind=kind, version=version, skew=skew)
                add("inverse_" + name, inverse, "any ordered triplet and quantile", dict(symbolic_consts=True), kind=kind, version=version, skew=skew)
                if name[:2] in ("B_", "xU") and version != "sinhlogistic":
                    add("monotone_" + name, monotone, "two triplets per shape, any two shares at least 1/32 apart", dict(symbolic_consts=True),
                        kind=kind, version=version, skew=skew)
        add("rejects_" + kind, rejects, "any values out of order", kind=kind)
        add("vectors_" + kind, vectors, "2 samples, 2 arbitrary shares", kind=kind, skews=None)
        if kind in "SB":
            add("vector_cdf_" + kind, vector_cdf, "2 samples, 2 arbitrary values", kind=kind)
        if kind[0] == "x":
            for skew in (-1, 1):
                add("shaped_%s%+d" % (kind, skew), shaped, "two triplets, any share", dict(symbolic_consts=True), kind=kind, skew=skew, shape=-0.5)
    for sign in (-1, 0, 1):
        add("base%+d" % sign, base, "any share, any shape of this sign up to 4", dict(symbolic_consts=True), sign=sign)
        add("density%+d" % sign, density, "any value within 2 of the median, shape of size 1 or 0", dict(symbolic_consts=True), sign=sign)
    add("width", width, "any tail share, a linear base distribution")
    for kind in ("bounds", "semibound_lower", "semibound_upper"):
        add("transforms_" + kind, transforms, "any value within fixed bounds", dict(symbolic_consts=True), kind=kind)
    add("chain_S", chain, "1 row, any target and sub-model predictions", bound="S", l=0.0, u=1.0)
    add("chain_B", chain, "1 row, any target and sub-model predictions", bound="B", l=0.0, u=1.0)
    add("chain_B_bounds", chain, "1 row, any target and sub-model predictions", bound="B", l=0.5, u=4.0)
    for bound in "SB":
        add("rows_" + bound, chain_rows, "2 rows with any targets", bound=bound, n=2)
        for which, lo, hi in (("median", 0.25, 3.75), ("lower", 0.25, 1.5), ("upper", 2.75, 3.75)):
            for l, tag in ((0.0, ""), (0.5, "_bounds")):
                add("%s_%s%s" % (which, bound, tag), own_target, "1 row with any target on its side of the median", bound=bound,
                    which=which, l=l, lo=lo + l, hi=hi)
    return out
