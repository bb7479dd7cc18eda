"""Distributions fitted to many quantiles."""
from symx.runner import Harness

from checks import optim

ASSUMPTIONS = ["curve_fit and the interpolating spline are replaced by stand-ins that record what they are given and return arbitrary parameters",
               "the normal, gamma and negative binomial distributions are replaced by stand-ins that are rational functions of the parameters in scipy's convention"]
OUTSIDE = "the numerical fit itself, more quantiles than stated, rounding"


class Frozen:
    def __init__(self, ppf, cdf):
        self.ppf, self.cdf = ppf, cdf


class Normal:
    """location and scale"""

    def __call__(self, loc=0, scale=1):
        return Frozen(lambda x: loc + scale * (x - 0.5), lambda x: (x - loc) / scale + 0.5)


class Gamma:
    """shape and scale"""

    def __call__(self, a, loc=0, scale=1):
        return Frozen(lambda x: loc + scale * (a + 2.0 * x), lambda x: ((x - loc) / scale - a) / 2.0)


class NBinom:
    """number of successes and their probability"""

    def __call__(self, n, p, loc=0):
        return Frozen(lambda x: (n * x + loc) / p, lambda x: (x - loc) * p / n)


for _c in (Normal, Gamma, NBinom):
    _c.ppf = lambda self, x, *a, **k: self(*a, **k).ppf(x)
    _c.cdf = lambda self, x, *a, **k: self(*a, **k).cdf(x)

# distribution, function, free parameters -> parameters of scipy
FITS = {
    "gaussian": ("norm", Normal, lambda a, b: (a, b)),
    "gamma": ("gamma", Gamma, lambda a, b: (a, 0, 1 / b)),
    "nbinom": ("nbinom", NBinom, lambda m, v: (m * m / (v - m), m / v)),
}


def fit(H, kind, mode):
    """the fit is asked for the quantile curve of the given pairs, and what it finds is what is returned"""
    m = H.mod("quantile_matching")
    name, dist, conv = FITS[kind]
    n = 3
    qs = H.items(H.reals("q", n, lo=0.0625, hi=0.9375))
    vs = H.items(H.reals("v", n, lo=0.125, hi=16))
    a = H.real("a", lo=0.5, hi=8)
    b = a + H.real("b", lo=0.25, hi=8) if kind == "nbinom" else H.real("b", lo=0.25, hi=8)
    calls = []

    def curve_fit(f, xdata, ydata, p0=None, **kw):
        calls.append((f, xdata, ydata, kw))
        return H.arr([a, b]), None

    with optim.replaced(H, "curve_fit", curve_fit), optim.replaced(H, name, dist(), where="stats"):
        kw = {} if mode == "default" else {"mode": mode}
        got = getattr(m, "quantile_fit_" + kind)(H.arr(qs), H.arr(vs), **kw)
        H.check("one fit", len(calls) == 1)
        f, xs, ys, more = calls[0]
        H.check("all quantiles count the same", more.get("sigma") is None)
        want = dist()(*conv(a, b))
        # the curve at arbitrary parameters
        c = H.real("c", lo=0.5, hi=4)
        d = c + 0.75 if kind == "nbinom" else H.real("d", lo=0.25, hi=4)
        trial = dist()(*conv(c, d))
        curve = H.items(f(xs, c, d))
        xs, ys = H.items(xs), H.items(ys)
        by_value = kind == "nbinom"
        H.check("the fit has all the pairs", len(xs) == len(ys) == len(curve) == n)
        for i in range(n):
            H.check("pair %d" % i, H.and_(H.eq(xs[i], (vs if by_value else qs)[i]), H.eq(ys[i], (qs if by_value else vs)[i])))
            H.check("curve at pair %d" % i, H.eq(curve[i], (trial.cdf if by_value else trial.ppf)(xs[i])))
        x = H.real("x", lo=0.125, hi=0.875)
        if mode == "dist":
            H.check("quantile function of the result", H.eq(got.ppf(x), want.ppf(x)))
            H.check("cdf of the result", H.eq(got.cdf(x), want.cdf(x)))
        else:
            H.check("the result", H.eq(got(x), (want.cdf if mode == "cdf" else want.ppf)(x)))


def moments(H):
    """the negative binomial of the fit has the fitted mean and variance"""
    m = H.mod("quantile_matching")
    mu = H.real("mu", lo=0.25, hi=8)
    var = mu + H.real("e", lo=0.125, hi=8)
    seen = []

    class Rec(NBinom):
        def __call__(self, n, p, loc=0):
            seen.append((n, p))
            return NBinom.__call__(self, n, p, loc)

    with optim.replaced(H, "curve_fit", lambda f, x, y, p0=None, **kw: (f(x, mu, var), (H.arr([mu, var]), None))[1]), \
            optim.replaced(H, "nbinom", Rec(), where="stats"):
        m.quantile_fit_nbinom(H.arr([0.25, 0.75]), H.arr([1.0, 3.0]), mode=H.choose("mode", ["ppf", "cdf", "dist"]))
    H.check("the distribution is built in the fit and for the result", len(seen) >= 2)
    for n, p in seen:
        H.check("mean", H.eq(n * (1 - p) / p, mu))
        H.check("variance", H.eq(n * (1 - p) / (p * p), var))


def bad_mode(H, kind):
    m = H.mod("quantile_matching")
    name, dist, conv = FITS[kind]
    a = H.real("a", lo=0.5, hi=2)
    b = H.real("b", lo=2.5, hi=8)
    with optim.replaced(H, "curve_fit", lambda f, x, y, **kw: (H.arr([a, b]), None)), optim.replaced(H, name, dist(), where="stats"):
        raised, _ = H.raises(Exception, lambda: getattr(m, "quantile_fit_" + kind)(H.arr([0.25, 0.5, 0.75]), H.arr([1.0, 2.0, 3.0]), mode="pdf"))
    H.check("an unknown mode is refused", raised)


def spline(H):
    """the spline goes through the pairs and is held constant outside [0, 1]"""
    m = H.mod("quantile_matching")
    qs = [0.125, 0.25, 0.5, 0.75]
    vs = H.items(H.reals("v", 4, lo=0.125, hi=16))
    calls = []

    class Spline:
        def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0, **kw):
            calls.append((x, y, w, list(bbox), k, ext))

        def __call__(self, x):
            return x * 2.0

    with optim.replaced(H, "InterpolatedUnivariateSpline", Spline, where="interpolate"):
        got = m.quantile_fit_spline(H.arr(qs), H.arr(vs))
    H.check("one spline", len(calls) == 1)
    x, y, w, bbox, k, ext = calls[0]
    H.check("its pairs", H.and_(H.arr_eq(x, H.arr(qs)), H.arr_eq(y, H.arr(vs))))
    H.check("unweighted, cubic, for shares in [0, 1], constant outside", w is None and k == 3 and bbox == [0, 1] and ext in (3, "const"))
    p = H.real("p", lo=0, hi=1)
    H.check("the spline is returned", H.eq(got(p), p * 2.0))


def harnesses(tier):
    out = []

    def add(hname, fn, b, opts=None, **p):
        out.append(Harness(hname, fn, p, b, **(opts or {})))

    for kind in FITS:
        for mode in ("default", "ppf", "cdf", "dist"):
            add("%s_%s" % (kind, mode), fit, "3 arbitrary pairs, any parameters", kind=kind, mode=mode)
        add("mode_" + kind, bad_mode, "any parameters", kind=kind)
    add("moments", moments, "any mean and larger variance")
    add("spline", spline, "4 arbitrary values at fixed shares")
    return out
