"""Binned statistics, histograms and smeared distribution shares."""
import contextlib

import numpy

from symx.runner import Harness

from checks.capture import sum_

ASSUMPTIONS = ["pandas grouping and linear quantile interpolation are modelled; the random number generator returns any number of its range"]
OUTSIDE = "more rows or bins than stated"

# shares of the one and two sigma bands of the normal distribution
S1, S2 = 0.15865, 0.02275


def order(H, xs):
    """sort by forking"""
    out = []
    for x in xs:
        k = len(out)
        for i, o in enumerate(out):
            if H.fork(H.lt(x, o)):
                k = i
                break
        out.insert(k, x)
    return out


def order2(H, xs, ws):
    out = []
    for x, w in zip(xs, ws):
        k = len(out)
        for i, (o, _) in enumerate(out):
            if H.fork(H.lt(x, o)):
                k = i
                break
        out.insert(k, (x, w))
    return out


def digitize(H, n, k):
    u = H.mod("utils")
    b0 = H.real("b0", lo=-3, hi=3)
    bins = [b0]
    for i in range(k - 1):
        bins.append(bins[-1] + H.real("g%d" % i, lo=0.0625, hi=2))
    x = H.reals("x", n, lo=-10, hi=10)
    x0 = x.copy()
    r = H.items(u.digitize(x, H.arr(bins)))
    H.check("the values are left alone", H.arr_eq(x, x0))
    for v, b in zip(H.items(x0), r):
        H.check("values below all bins", H.iff(H.lt(v, bins[0]), H.eq(b, 0)))
        for i in range(k - 2):
            H.check("number of bins starting at or below the value", H.iff(H.and_(H.ge(v, bins[i]), H.lt(v, bins[i + 1])), H.eq(b, i + 1)))
        H.check("values at or above the last boundary are in the last bin", H.iff(H.ge(v, bins[-2]), H.eq(b, k - 1)))
    H.observe("r", H.arr(r))


def linear(H, n, k):
    u = H.mod("utils")
    x = H.reals("x", n, lo=-5, hi=5)
    b, c = u.calc_linear_bins(x, k)
    b, c = H.items(b), H.items(c)
    xs = H.items(x)
    H.check("one boundary more than bins, one centre per bin", len(b) == k + 1 and len(c) == k)
    H.check("the bins cover all values", H.and_(*[H.and_(H.le(b[0], v), H.ge(b[-1], v)) for v in xs]))
    H.check("and no more", H.and_(H.or_(*[H.eq(b[0], v) for v in xs]), H.or_(*[H.eq(b[-1], v) for v in xs])))
    for i in range(k):
        H.check("bins are equally wide", H.eq((b[i + 1] - b[i]) * k, b[-1] - b[0]))
        H.check("centres are in the middle", H.eq(2 * c[i], b[i] + b[i + 1]))
    num = H.items(u.digitize(x, H.arr(b)))
    for v, j in zip(xs, num):
        H.check("every value has a bin", H.and_(H.ge(j, 1), H.le(j, k)))
    H.observe("b", H.arr(b))


def quant(H, s, q):
    """linear interpolation in the sorted values"""
    p = q * (len(s) - 1)
    i = int(p)
    if i + 1 >= len(s):
        return s[-1]
    return s[i] + (s[i + 1] - s[i]) * (p - i)


def groups(numbers):
    return {b: [i for i, v in enumerate(numbers) if v == b] for b in sorted(set(numbers))}


def even(H, numbers, weight):
    u = H.mod("utils")
    y = H.reals("y", len(numbers), lo=-5, hi=5)
    w = None if weight is None else H.arr([weight] * len(numbers))
    means, medians, counts, errors = u.calc_means_medians(H.arr(numbers), y, w)
    g = groups(numbers)
    for s in [means, medians, counts] + list(errors):
        H.check("one entry per bin", [float(v) for v in H.items(s.index.values)] == list(g))
    yi = H.items(y)
    for k, rows in enumerate(g.values()):
        s = order(H, [yi[i] for i in rows])
        med = quant(H, s, 0.5)
        H.check("mean of the bin", H.eq(H.items(means.values)[k] * len(rows), sum_([yi[i] for i in rows])))
        H.check("median of the bin", H.eq(H.items(medians.values)[k], med))
        H.check("rows of the bin", H.eq(H.items(counts.values)[k], len(rows)))
        for e, q in zip(errors, (S1, 1 - S1, S2, 1 - S2)):
            d = H.items(e.values)[k] - (quant(H, s, q) - med)
            H.check("one and two sigma band around the median", H.and_(H.le(d, 0.01), H.ge(d, -0.01)))
    H.observe("m", H.arr(H.items(means.values)))


def wquant(H, s, share):
    """smallest value at which the cumulated weight reaches the share"""
    tot = sum_([w for _, w in s])
    c = 0.0
    for v, w in s[:-1]:
        c = c + w
        if H.fork(H.ge(c, tot * share)):
            return v
    return s[-1][0]


def weighted(H, numbers, ws, only):
    u = H.mod("utils")
    n = len(numbers)
    y = H.reals("y", n, lo=-5, hi=5)
    w = H.arr([H.real("w%d" % i, lo=0.25, hi=4) if v is None else v for i, v in enumerate(ws)])
    wi, yi = H.items(w), H.items(y)
    H.assume(H.gt(wi[0], wi[1] + 0.0625))
    g = groups(numbers)
    if only == "quantile":
        r = u.calc_weighted_quantile(H.arr(numbers), y, w, 0.75)
        H.check("one entry per bin", [float(v) for v in H.items(r.index.values)] == list(g))
        for k, rows in enumerate(g.values()):
            s = order2(H, [yi[i] for i in rows], [wi[i] for i in rows])
            H.check("weighted quantile of the bin", H.eq(H.items(r.values)[k], wquant(H, s, 0.75)))
        return
    means, medians, counts, errors = u.calc_means_medians(H.arr(numbers), y, w)
    for s in [means, medians, counts] + list(errors):
        H.check("one entry per bin", [float(v) for v in H.items(s.index.values)] == list(g))
    for k, rows in enumerate(g.values()):
        tot = sum_([wi[i] for i in rows])
        H.check("weighted mean of the bin", H.eq(H.items(means.values)[k] * tot, sum_([wi[i] * yi[i] for i in rows])))
        H.check("weight of the bin", H.eq(H.items(counts.values)[k], tot))
        s = order2(H, [yi[i] for i in rows], [wi[i] for i in rows])
        med = wquant(H, s, 0.5)
        H.check("weighted median of the bin", H.eq(H.items(medians.values)[k], med))
        lo1, hi1, lo2, hi2 = [H.items(e.values)[k] for e in errors]
        v = [a - med for a, _ in s]
        for e in (lo1, hi1, lo2, hi2):
            H.check("bands end at values of the bin", H.or_(*[H.eq(e, d) for d in v]))
        H.check("the bands contain the median and each other", H.and_(H.le(lo2, lo1), H.le(lo1, 0), H.ge(hi1, 0), H.ge(hi2, hi1)))
        for e, q in ((lo1, S1), (hi1, 1 - S1), (lo2, S2), (hi2, 1 - S2)):
            # weight up to the end of the band reaches the share, without its last value it does not exceed it
            upto = [b for (a, b), d in zip(s, v) if H.fork(H.le(d, e))]
            under = [b for (a, b), d in zip(s, v) if H.fork(H.lt(d, e))]
            H.check("the band reaches its share", H.ge(sum_(upto), (q - 1e-3) * tot))
            H.check("and not more", H.le(sum_(under), (q + 1e-3) * tot))
    H.observe("m", H.arr(H.items(means.values)))


def stddev(H, n):
    u = H.mod("utils")
    x = H.reals("x", n, lo=-3, hi=3)
    w = H.arr([1.0, 0.5, 2.5][:n])
    s = u.weighted_stddev(x, w)
    xi, wi, tot = H.items(x), H.items(w), sum(H.items(w))
    m = sum_([a * b for a, b in zip(wi, xi)]) / tot
    H.check("root of the weighted mean squared deviation", H.and_(H.ge(s, 0), H.eq(s * s * tot, sum_([a * (b - m) * (b - m) for a, b in zip(wi, xi)]))))


def histogram(H, preds, ws, classes, quantile):
    o = H.mod("observers")
    n = len(preds)
    if classes:
        y = H.arr([H.np.float64(v) for v in classes])
    else:
        y = H.reals("y", n, lo=2, hi=5)
    w = H.arr(ws)
    means, centers, errors, counts = o.calc_in_sample_histograms(y, H.arr(preds), w, quantile)
    lo, hi = min(preds), max(preds)
    width = (hi - lo) / 100
    nums = [min(int((p - lo) / width) + 1, 100) if width else 100 for p in preds]
    g = groups([float(v) for v in nums])
    H.check("one entry per bin with rows", [float(v) for v in H.items(means.index.values)] == list(g))
    c = H.items(centers)
    H.check("one centre per bin with rows", len(c) == len(g))
    H.check("classes have no bands", (errors is None) == (bool(classes) or quantile is not None))
    yi = H.items(y)
    for k, (b, rows) in enumerate(g.items()):
        d = c[k] - (lo + (b - 0.5) * width)
        H.check("centre of the bin", H.and_(H.le(d, 1e-6), H.ge(d, -1e-6)))
        tot = sum(ws[i] for i in rows)
        if quantile is None:
            H.check("mean target of the bin", H.eq(H.items(means.values)[k] * tot, sum_([ws[i] * yi[i] for i in rows])))
        else:
            s = order2(H, [yi[i] for i in rows], [ws[i] for i in rows])
            H.check("quantile of the bin", H.eq(H.items(means.values)[k], wquant(H, s, quantile)))
        same = len(set(ws)) == 1
        H.check("weight of the bin", H.eq(H.items(counts.values)[k], len(rows) if same else tot))
    H.observe("m", H.arr(H.items(means.values)))


@contextlib.contextmanager
def uniform(H, values, asked):
    old = numpy.random.uniform

    def fake(low=0.0, high=1.0, size=None):
        asked.append((low, high, size))
        r = [low + (high - low) * v for v in values]
        return r[0] if size is None else H.arr(r[:int(size)])

    numpy.random.uniform = fake
    try:
        yield
    finally:
        numpy.random.uniform = old


def smear(H, y):
    u = H.mod("utils")
    r = H.real("r", lo=0, hi=1)
    c = [H.real("c%d" % i, lo=0, hi=1) for i in range(y + 1)]
    for i in range(y):
        H.assume(H.le(c[i], c[i + 1]))
    with uniform(H, [r], []):
        t = u.smear_discrete_cdftruth(lambda v: c[int(v)], y)
    low = c[y - 1] if y > 0 else 0.0
    H.check("the share lies between those of the count below and the count", H.and_(H.ge(t, low), H.le(t, c[y])))
    H.check("uniformly", H.eq(t, low + r * (c[y] - low)))
    H.observe("t", t)


def smear_many(H, ys):
    u = H.mod("utils")
    n = len(ys)
    r = [H.real("r%d" % i, lo=0, hi=1) for i in range(n)]
    c = [[H.real("c%d_%d" % (i, k), lo=0, hi=1) for k in range(int(v) + 1)] for i, v in enumerate(ys)]
    for cs in c:
        for k in range(len(cs) - 1):
            H.assume(H.le(cs[k], cs[k + 1]))

    class Dist:
        def cdf(self, x, inner=False):
            assert inner
            # one value per sample; counts below zero have some share, which is of no concern
            return H.arr([c[i][int(v)] if v >= 0 else 0.5 for i, v in enumerate(H.items(x))])

    with uniform(H, r, []):
        t = H.items(u.smear_discrete_cdftruth_qpd(Dist(), H.arr(ys)))
    H.check("one share per sample", len(t) == n)
    for i, v in enumerate(ys):
        low = c[i][int(v) - 1] if v > 0 else 0.0
        H.check("the share lies uniformly between those of the count below and the count", H.eq(t[i], low + r[i] * (c[i][-1] - low)))
    H.observe("t", H.arr(t))


def bounds(H, where):
    b, fl = H.mod("binning"), H.mod("flags")
    g = H.mod("utils").get_bin_bounds if where == "utils" else b.get_bin_bounds
    x = H.reals("x", 3, lo=-5, hi=5)
    X = H.pd.DataFrame({"f": x, "d": H.arr([2.0, 7.0, 2.0])})
    t1 = b.BinNumberTransformer(n_bins=2, feature_properties={"f": fl.IS_CONTINUOUS}).fit(X)
    t2 = b.BinNumberTransformer(n_bins=2, feature_properties={"d": fl.IS_UNORDERED}).fit(X)
    H.check("no binner, no boundaries", g(None, "f") is None)
    H.check("a feature that is not binned has no boundaries", g([t2], "e") is None and g([], "f") is None)
    r = H.items(g([t1, t2], "f"))
    H.check("boundaries start at the smallest value and end at the largest",
            H.and_(*[H.and_(H.le(r[0], v), H.ge(r[-1], v)) for v in H.items(x)]))
    for a, c in zip(r, r[1:]):
        H.check("boundaries do not decrease", H.le(a, c))
    for v in r:
        H.check("boundaries are values of the data", H.or_(*[H.eq(v, q) for q in H.items(x)]))
    H.check("boundaries of the other feature are its values", sorted(set(float(v) for v in H.items(g([t1, t2], "d")))) == [2.0, 7.0])


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        out.append(Harness(name, fn, p, b))

    add("digitize", digitize, "2 values, 3 boundaries, any", n=2, k=3)
    add("digitize4", digitize, "1 value, 4 boundaries, any", n=1, k=4)
    add("linear", linear, "3 values, 2 bins, any", n=3, k=2)
    add("linear4", linear, "2 values, 4 bins, any", n=2, k=4)
    add("even", even, "4 rows in 2 bins, any targets", numbers=[1.0, 0.0, 1.0, 1.0], weight=None)
    add("even_w", even, "4 rows in 2 bins, any targets, equal weights", numbers=[3.0, 1.0, 3.0, 1.0], weight=2.5)
    add("weighted", weighted, "4 rows in 2 bins, any targets, 2 arbitrary weights", numbers=[1.0, 1.0, 0.0, 1.0], ws=[None, None, 1.0, 0.5], only=None)
    add("weighted2", weighted, "4 rows in 2 bins, any targets, 2 arbitrary weights", numbers=[5.0, 2.0, 5.0, 2.0], ws=[None, None, 1.0, 0.5], only=None)
    add("quantile", weighted, "4 rows in 2 bins, any targets, 2 arbitrary weights", numbers=[1.0, 1.0, 0.0, 1.0], ws=[None, None, 1.0, 0.5], only="quantile")
    add("stddev", stddev, "3 values", n=3)
    P = [0.0, 10.0, 3.05, 10.0]
    add("histogram", histogram, "4 rows, any targets", preds=P, ws=[1.0] * 4, classes=None, quantile=None)
    add("histogram_w", histogram, "4 rows, any targets, weighted", preds=P, ws=[1.0, 2.0, 0.5, 1.5], classes=None, quantile=None)
    add("histogram_q", histogram, "4 rows, any targets, weighted", preds=P, ws=[1.0, 2.0, 0.5, 1.5], classes=None, quantile=0.75)
    add("histogram_const", histogram, "3 rows with the same prediction, any targets", preds=[2.0, 2.0, 2.0], ws=[1.0, 2.0, 0.5], classes=None, quantile=None)
    add("histogram_c", histogram, "4 rows of two classes", preds=P, ws=[1.0] * 4, classes=[0.0, 1.0, 1.0, 0.0], quantile=None)
    for y in (0, 1, 2):
        add("smear%d" % y, smear, "count %d, any distribution and random number" % y, y=y)
    add("smear_many", smear_many, "3 samples, any distributions and random numbers", ys=[2.0, 0.0, 1.0])
    for w in ("utils", "binning"):
        add("bounds_" + w, bounds, "3 rows, any values", where=w)
    return out
