"""Smoothers that fit curves with library routines, and the choice of smoothers."""
import contextlib
import importlib
import math
import sys

from symx.runner import Harness

from checks import capture, cbstub, optim
from checks.capture import NAN, sum_

ASSUMPTIONS = ["the fit routines of scipy and sklearn (curve_fit, splines, isotonic and lasso regression) are replaced by stand-ins that record "
               "what they are given and return arbitrary results"]
OUTSIDE = "the numerical fits themselves, more bins than stated, rounding"


@contextlib.contextmanager
def swapped(module, name, fake):
    """module.name is ``fake``, however the package imports it"""
    mod = importlib.import_module(module)
    undo = [(mod, getattr(mod, name))]
    for k, m in list(sys.modules.items()):
        if (k == "cyclic_boosting" or k.startswith("cyclic_boosting.")) and getattr(m, "__dict__", {}).get(name) is undo[0][1]:
            undo.append((m, undo[0][1]))
    for m, _ in undo:
        setattr(m, name, fake)
    try:
        yield
    finally:
        for m, v in undo:
            setattr(m, name, v)


def bins(H, n, u=None, w=None):
    """bins for a smoother with any uncertainties: positions, weights, uncertainties"""
    u = H.items(H.reals("u", n, lo=0.125, hi=4)) if u is None else u
    w = [float(2 + i % 3) for i in range(n)] if w is None else w
    X = H.arr([x for i in range(n) for x in (float(i), w[i], u[i])]).reshape(n, 3)
    return X, w, u


def wave(par, x, n, order):
    t = 2 * math.pi * x / n
    v = par[0]
    for k in range(1, order + 1):
        v = v + par[2 * k - 1] * math.sin(k * t) + par[2 * k] * math.cos(k * t)
    return v


POS = [0.0, 1.0, 2.5, 7.0, -1.0]


def at(H, xs):
    return H.arr([v for x in xs for v in (x, 1.0, 1.0)]).reshape(len(xs), 3)


def seasonal(H, n, order, offset):
    m = H.mod("smoothing.onedim")
    sm = m.SeasonalSmoother(offset_tozero=offset, order=order)
    X, w, u = bins(H, n)
    y = H.reals("y", n, lo=-5, hi=5)
    par = H.items(H.reals("c", 2 * order + 1, lo=-3, hi=3))
    rec = []

    def curve_fit(f, xdata, ydata, p0=None, sigma=None, **kw):
        rec.append((H.items(f(xdata, *par)), H.items(ydata), H.items(sigma)))
        return H.arr(par), None

    H.check("no prediction before the fit", H.raises(ValueError, sm.predict, at(H, POS))[0])
    with optim.replaced(H, "curve_fit", curve_fit):
        sm.fit(X.copy(), y.copy())
    f, gy, gs = rec[-1]
    H.check("one fit", len(rec) == 1)
    H.check("the curve is compared with the values of the bins", H.all_([H.eq(a, b) for a, b in zip(gy, H.items(y))]))
    H.check("with their uncertainties", H.all_([H.eq(a, b) for a, b in zip(gs, u)]))
    H.check("waves with the number of bins as period are fitted", H.all_([H.eq(f[i], wave(par, i, n, order)) for i in range(n)]))
    own = [0.0] + par[1:] if offset else par
    out = H.items(sm.predict(at(H, POS)))
    for x, v in zip(POS, out):
        H.check("the fitted curve is predicted, without its constant if asked for", H.eq(v, wave(own, x, n, order)))
    H.observe("out", H.arr(out))


def seasonal_fails(H, n):
    """a fit that does not converge leaves the fallback value; the next fit counts again"""
    m = H.mod("smoothing.onedim")
    fb = H.real("fallback", lo=-3, hi=3)
    sm = m.SeasonalSmoother(fallback_value=fb, offset_tozero=False)
    X, w, u = bins(H, n)
    y = H.reals("y", n, lo=-5, hi=5)
    par = H.items(H.reals("c", 3, lo=-3, hi=3))
    # what curve_fit raises for too few points and when it does not converge
    err = H.choose("error", [TypeError, RuntimeError])
    mode = ["fail"]

    def curve_fit(f, xdata, ydata, p0=None, sigma=None, **kw):
        if mode[0] == "fail":
            raise err("no solution")
        return H.arr(par), None

    with optim.replaced(H, "curve_fit", curve_fit):
        before = H.choose("before", [False, True])
        if before:
            mode[0] = "ok"
            sm.fit(X.copy(), y.copy())
            mode[0] = "fail"
        raised, _ = H.raises(Exception, sm.fit, X.copy(), y.copy())
        H.check("a fit that does not converge is no error", not raised)
        if raised:
            return
        H.check("the fallback value is predicted", H.all_([H.eq(v, fb) for v in H.items(sm.predict(at(H, POS)))]))
        mode[0] = "ok"
        sm.fit(X.copy(), y.copy())
        H.check("the next fit counts", H.all_([H.eq(v, wave(par, x, n, 1)) for x, v in zip(POS, H.items(sm.predict(at(H, POS))))]))


def order_of(H):
    m = H.mod("smoothing.onedim")
    for o in (0, 4, -1):
        H.check("other orders are rejected", H.raises(ValueError, m.SeasonalSmoother, True, o)[0])
    own = lambda x, a: a + x
    sm = m.SeasonalSmoother(offset_tozero=False, custom_fit_function=own)
    c = H.real("c", lo=-3, hi=3)
    rec = []

    def curve_fit(f, xdata, ydata, p0=None, sigma=None, **kw):
        rec.append(f)
        return H.arr([c]), None

    X, w, u = bins(H, 3)
    with optim.replaced(H, "curve_fit", curve_fit):
        sm.fit(X, H.reals("y", 3, lo=-5, hi=5))
    H.check("a function of the user is fitted", H.eq(H.items(rec[0](H.arr([2.0]), c))[0], c + 2.0))
    H.check("and predicted", H.all_([H.eq(v, c + 2 * math.pi * x / 3) for x, v in zip(POS, H.items(sm.predict(at(H, POS))))]))


def isotonic(H, n, how):
    m = H.mod("smoothing.onedim")
    rec, res = [], H.items(H.reals("r", len(POS), lo=-5, hi=5))

    class Iso:
        def __init__(self, *, y_min=None, y_max=None, increasing=True, out_of_bounds="nan"):
            self.kw = (y_min, y_max, increasing, out_of_bounds)

        def fit(self, X, y, sample_weight=None):
            rec.append((self.kw, H.items(X), H.items(y), H.items(sample_weight)))
            return self

        def predict(self, T):
            rec.append(H.items(T))
            return H.arr(res)

    u = H.items(H.reals("u", n - 1, lo=0.125, hi=4)) + [0.0]
    X, w, u = bins(H, n, u=u)
    y = H.reals("y", n, lo=-5, hi=5)
    with swapped("sklearn.isotonic", "IsotonicRegression", Iso):
        sm = m.IsotonicRegressor(increasing=how)
        H.check("no prediction before the fit", H.raises(ValueError, sm.predict, at(H, POS))[0])
        sm.fit(X.copy(), y.copy())
        out = H.items(sm.predict(at(H, POS)))
    (kw, gx, gy, gw), gt = rec
    H.check("direction", kw[2] is how or kw[2] == how)
    H.check("constant outside the bins", kw[0] is None and kw[1] is None and kw[3] == "clip")
    H.check("bins", H.all_([H.and_(H.eq(gx[i], float(i)), H.eq(gy[i], H.items(y)[i])) for i in range(n)]))
    H.check("weights are the inverse variances", H.all_([H.eq(gw[i] * u[i] * u[i], 1.0) for i in range(n - 1)]))
    H.check("bins without uncertainty have next to no weight", H.and_(H.gt(gw[n - 1], 0), H.lt(gw[n - 1], 1e-20)))
    H.check("predictions are those of the fit", H.all_([H.eq(a, b) for a, b in zip(gt, POS)] + [H.eq(a, b) for a, b in zip(out, res)]))


def spline(H, n, lsq):
    m = H.mod("smoothing.onedim")
    rec, res = [], H.items(H.reals("r", len(POS), lo=-5, hi=5))

    class Fitted:
        def __call__(self, x, *a, **k):
            rec.append(H.items(x))
            return H.arr(res)

    def plain(x, y, w=None, bbox=None, k=3, s=None, **kw):
        rec.append((H.items(x), H.items(y), H.items(w), k, s))
        return Fitted()

    def knots(x, y, t, w=None, bbox=None, k=3, **kw):
        rec.append((H.items(x), H.items(y), H.items(w), k, [float(v) for v in H.items(t)]))
        return Fitted()

    w = H.items(H.reals("w", n, lo=0, hi=9))
    X, w, u = bins(H, n, w=w)
    y = H.reals("y", n, lo=-5, hi=5)
    if lsq:
        k = H.choose("k", [1, 3, 4, 5, 6])
        sm = m.LSQUnivariateSpline(interior_knots=[0.5, 1.5], degree=k)
        H.check("no prediction before the fit", H.raises(ValueError, sm.predict, at(H, POS))[0])
        with lsq_replaced(H, knots):
            raised, _ = H.raises(ValueError, sm.fit, X.copy(), y.copy())
            H.check("the degree is at most 5 and below the number of bins", raised == (k > 5 or k >= n))
            if raised:
                return
            out = H.items(sm.predict(at(H, POS)))
        extra = [0.5, 1.5]
    else:
        k, extra = H.choose("k", [1, 3]), H.choose("s", [None, 2.0])
        sm = m.UnivariateSplineSmoother(k=k, s=extra)
        H.check("no prediction before the fit", H.raises(ValueError, sm.predict, at(H, POS))[0])
        with optim.replaced(H, "UnivariateSpline", plain, where="interpolate"):
            sm.fit(X.copy(), y.copy())
            out = H.items(sm.predict(at(H, POS)))
    gx, gy, gw, gk, ge = rec[0]
    H.check("bins and weights", H.all_([H.and_(H.eq(gx[i], float(i)), H.eq(gy[i], H.items(y)[i]), H.eq(gw[i], w[i])) for i in range(n)]))
    H.check("settings", gk == k and ge == extra)
    H.check("predictions are those of the fit", H.all_([H.eq(a, b) for a, b in zip(rec[1], POS)] + [H.eq(a, b) for a, b in zip(out, res)]))


@contextlib.contextmanager
def lsq_replaced(H, fake):
    # the smoother has the name of the routine it uses
    sc = H.scipy("interpolate")
    old = sc.LSQUnivariateSpline
    sc.LSQUnivariateSpline = fake
    try:
        yield
    finally:
        sc.LSQUnivariateSpline = old


def lasso(H, n):
    m = H.mod("smoothing.onedim")
    rec, res = [], H.items(H.reals("r", len(POS), lo=-5, hi=5))

    class Lasso:
        def __init__(self, criterion="aic", **kw):
            self.kw = kw

        def fit(self, X, y, **kw):
            rec.append((self.kw, X, H.items(y)))
            return self

        def predict(self, X):
            rec.append(X)
            return H.arr(res)

    w = [1.0] * n
    w[1] = 0.0
    X, w, u = bins(H, n, w=w)
    y = H.reals("y", n, lo=-5, hi=5)
    least = H.choose("least", [n - 2, n - 1, n])
    with swapped("sklearn.linear_model", "LassoLarsIC", Lasso):
        sm = m.SeasonalLassoSmoother(min_days=least)
        H.check("no prediction before the fit", H.raises(ValueError, sm.predict, at(H, POS))[0])
        sm.fit(X.copy(), y.copy())
        out = H.items(sm.predict(at(H, POS)))
    if least > n - 1:
        H.check("too few bins with data give no effect", H.and_(not rec, *[H.eq(v, 0.0) for v in out]))
        return
    (kw, gx, gy), gt = rec
    have = [i for i in range(n) if i != 1]
    H.check("the bins with data are fitted", H.and_(len(gy) == len(have), *[H.eq(gy[k], H.items(y)[i]) for k, i in enumerate(have)]))
    H.check("without a constant, with coefficients of fixed sign", kw.get("positive") is True and kw.get("fit_intercept") is False)
    for xs, g in ((have, gx), (POS, gt)):
        for k, x in enumerate(xs):
            t = 2 * math.pi * x / (n - 1)
            row = H.items(g[k])
            H.check("waves of both signs", H.all_([H.eq(a, b) for a, b in zip(row, [math.sin(t), math.cos(t), -math.sin(t), -math.cos(t)])]))
    H.check("predictions are those of the fit", H.all_([H.eq(a, b) for a, b in zip(out, res)]))


def shrink(H, dims, which):
    """without normalisation, categories are drawn towards the neutral element, also if there is only one"""
    cs, fl = H.mod("common_smoothers"), H.mod("flags")
    ch = getattr(cs, which)(use_regression_type=False, use_normalization=False)
    group, prop = ("f", "g")[:dims], (fl.IS_UNORDERED,) * dims
    sm = ch.choice_fct(group, prop)
    v = H.real("v", lo=-3, hi=3)
    X = H.arr([0.0] * dims + [2.0, 0.5]).reshape(1, dims + 2)
    sm.fit(X, H.arr([v]))
    out = H.items(sm.predict(X[:, :dims]))[0]
    H.check("between the estimate and the neutral element",
            H.or_(H.and_(H.lt(0, out), H.lt(out, v)), H.and_(H.lt(v, out), H.lt(out, 0)), H.and_(H.eq(v, 0), H.eq(out, 0))))
    H.observe("out", out)


def season_choice(H, norm):
    """the constant of seasonal features is left to the normalisation if there is one"""
    cs, fl = H.mod("common_smoothers"), H.mod("flags")
    ch = cs.SmootherChoiceWeightedMean(use_regression_type=False, use_normalization=norm)
    sm = ch.choice_fct(("f",), (fl.IS_SEASONAL,))
    n = 4
    X, w, u = bins(H, n)
    y = H.reals("y", n, lo=-5, hi=5)
    par = H.items(H.reals("c", 3, lo=-3, hi=3))

    def curve_fit(f, xdata, ydata, p0=None, sigma=None, **kw):
        return H.arr(par), None

    with optim.replaced(H, "curve_fit", curve_fit):
        sm.fit(X.copy(), y.copy())
    mean = sum_([a * b for a, b in zip(H.items(y), w)]) / sum_(w)
    own = [par[0] + mean] + par[1:] if norm else [0.0] + par[1:]
    for x, v in zip(POS, H.items(sm.predict(at(H, POS)))):
        H.check("seasonal curve", H.eq(v, wave(own, x, n, 1)))


def inner(H, cont_last):
    """group-by choice: the last column decides how the groups are smoothed"""
    cs, fl = H.mod("common_smoothers"), H.mod("flags")
    ch = cs.SmootherChoiceGroupBy()
    prop = (fl.IS_UNORDERED, fl.IS_CONTINUOUS) if cont_last else (fl.IS_CONTINUOUS, fl.IS_UNORDERED)
    sm = ch.choice_fct(("f", "g"), prop)
    vals = H.items(H.reals("y", 2, lo=-1, hi=1))
    ys = [vals[0], 0.5, 0.25, -0.5, 0.125, vals[1]]
    ws = [1.0, 0.0, 2.0, 1.0, 1.0, 1.0]
    X = H.arr([v for i in range(6) for v in (float(i // 3), float(i % 3), ws[i], 0.5)]).reshape(6, 4)
    sm.fit(X, H.arr(ys))
    out = H.items(sm.predict(X[:, :2]))
    for i in range(6):
        if not cont_last and ws[i] == 0:
            H.check("an unseen category has no smoothed value", H.isnan(out[i]))
        else:
            H.check("bins have a smoothed value", H.finite(out[i]))


def explicit(H):
    """smoothers given for a feature group are used, others are chosen by the property"""
    cs, fl = H.mod("common_smoothers"), H.mod("flags")
    one, multi = H.mod("smoothing.onedim"), H.mod("smoothing.multidim")
    mine = {("f",): one.BinValuesSmoother(), ("f", "g"): multi.BinValuesSmoother()}
    ch = cs.SmootherChoiceWeightedMean(use_regression_type=False, use_normalization=False, explicit_smoothers=mine)
    y = H.reals("y", 2, lo=-3, hi=3)
    for group in mine:
        k = len(group)
        X = H.arr([v for i in range(2) for v in [0.0] * (k - 1) + [float(i), 1.0, 0.5]]).reshape(2, k + 2)
        for p in (fl.IS_UNORDERED, fl.IS_CONTINUOUS):
            sm = ch.choice_fct(group, (p,) * k)
            sm.fit(X, y.copy())
            H.check("the given smoother is used", H.all_([H.eq(a, b) for a, b in zip(H.items(sm.predict(X[:, :-2])), H.items(y))]))
    for bad in ({"f": one.BinValuesSmoother()}, {("f", 1): one.BinValuesSmoother()}, {("f",): "x"}, {("f",): one.BinValuesSmoother}):
        H.check("wrong settings are rejected", H.raises(ValueError, cs.SmootherChoiceWeightedMean, True, True, bad)[0])
    X = H.arr([0.0, 1.0, 0.5]).reshape(1, 3)
    sm = ch.choice_fct(("g",), (fl.IS_UNORDERED,))
    v = H.real("v", lo=0.5, hi=3)
    sm.fit(X, H.arr([v]))
    H.check("other features are smoothed as usual", H.lt(H.items(sm.predict(X))[0], v))
    g = cs.SmootherChoiceGroupBy(use_regression_type=False, use_normalization=False, explicit_smoothers={("g",): one.BinValuesSmoother()})
    sm = g.choice_fct(("f", "g"), (fl.IS_UNORDERED, fl.IS_UNORDERED))
    X = H.arr([v for i in range(2) for v in (0.0, float(i), 1.0, 0.5)]).reshape(2, 4)
    sm.fit(X, y.copy())
    H.check("also within groups", H.all_([H.eq(a, b) for a, b in zip(H.items(sm.predict(X[:, :-2])), H.items(y))]))


DESIGN = {"a": [0.0, 1.0, 0.0, 1.0], "b": [0.0, 0.0, 1.0, 1.0]}


def separate(H, props, choice=None):
    """features of the same kind are smoothed separately: their summands add up as if trained alone"""
    C = H.mod("location").CBLocationRegressor
    fl, cs = H.mod("flags"), H.mod("common_smoothers")
    np = H.np
    y = H.arr([1.0, 2.0, 0.5, 3.0])
    raw = {g: H.items(H.reals("e" + g, 3, lo=-1, hi=1)) for g in ("a", "b")}

    class Any(C):
        def calc_parameters(self, feature, y, pred, prefit_data):
            return H.arr(raw[feature.feature_group[0]]), H.arr([0.5, 0.25, 1.0])

        def loss(self, prediction, y, weights):
            return np.float64(1.0)

    def run(groups):
        kw = {} if choice is None else {"smoother_choice": getattr(cs, choice)()}
        est = Any(feature_groups=groups, feature_properties={g: getattr(fl, props) for g in ("a", "b")}, maximal_iterations=1,
                  learn_rate=capture.one, minimal_loss_change=-1e9, minimal_factor_change=-1e9, **kw)
        X = capture.frame(H, DESIGN)
        est.fit(X, y)
        return H.items(est.predict(X.copy()))

    both, a, b = run(["a", "b"]), run(["a"]), run(["b"])
    for i in range(4):
        H.check("summands of separately smoothed features add up", H.eq(both[i], a[i] + b[i] - 1.626))
    H.observe("both", H.arr(both))


def harnesses(tier):
    out = []

    def add(hname, fn, b, **p):
        out.append(Harness(hname, fn, p, b))

    for o in (1, 2, 3):
        add("seasonal%d" % o, seasonal, "4 bins, any values, uncertainties and fitted curve", n=4, order=o, offset=o == 2)
    add("seasonal_zero", seasonal, "5 bins, any values, uncertainties and fitted curve", n=5, order=1, offset=True)
    add("seasonal_fails", seasonal_fails, "3 bins, any values", n=3)
    add("seasonal_order", order_of, "3 bins, any values")
    for how in (True, False, "auto"):
        add("isotonic_%s" % how, isotonic, "3 bins, any values and uncertainties", n=3, how=how)
    for lsq in (False, True):
        add("spline%d" % lsq, spline, "4 bins, any values and weights", n=4, lsq=lsq)
    add("lasso", lasso, "4 bins, any values", n=4)
    add("shrink1", shrink, "1 bin, any value", dims=1, which="SmootherChoiceWeightedMean")
    add("shrink2", shrink, "1 bin, any value", dims=2, which="SmootherChoiceWeightedMean")
    for norm in (True, False):
        add("season_choice%d" % norm, season_choice, "4 bins, any values and fitted curve", norm=norm)
    for c in (True, False):
        add("inner%d" % c, inner, "2 groups of 3 bins, any two values", cont_last=c)
    add("explicit", explicit, "2 bins, any values")
    add("separate", separate, "4 rows, 2 features, any estimates", props="IS_UNORDERED")
    add("separate_ordered", separate, "4 rows, 2 features, any estimates", props="IS_ORDERED")
    add("separate_groupby", separate, "4 rows, 2 features, any estimates", props="IS_UNORDERED", choice="SmootherChoiceGroupBy")
    return out
