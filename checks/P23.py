"""Rejection of invalid training data and wrong use; inputs stay unchanged."""
from symx.runner import Harness

from checks import capture, cbstub
from checks.cbstub import NAN

ASSUMPTIONS = ["special functions (gamma and beta quantiles) and the numerical minimiser are uninterpreted"]
OUTSIDE = "more rows or features than stated"

MULT = ["regression.CBPoissonRegressor", "regression.CBNBinomRegressor", "nbinom.CBNBinomC",
        "generic_loss.CBMultiplicativeQuantileRegressor", "generic_loss.CBMultiplicativeGenericCRegressor"]
ADD = ["location.CBLocationRegressor", "location.CBLocPoissonRegressor", "generic_loss.CBAdditiveQuantileRegressor",
       "generic_loss.CBAdditiveGenericCRegressor"]
BIN = ["classification.CBClassifier", "generic_loss.CBGenericClassifier"]


def cls(H, name):
    m, c = name.split(".")
    return getattr(H.mod(m), c)


def extra(H, name):
    if "Quantile" in name:
        return {"quantile": 0.5}
    if "Generic" in name:
        return {"costs": lambda prediction, y, weights: 1.0}
    if "NBinomC" in name:
        return {"mean_prediction_column": "m"}
    return {}


def data(H, name, cols):
    if "NBinomC" in name:
        cols = dict(cols, m=[1.0] * len(cols["a"]))
    return cbstub.frame(H, cols)


class Started(Exception):
    pass


def start(H, name, X, y, **kw):
    """begin the training; Started is raised once the data has been accepted"""
    class C(cls(H, name)):
        def calc_parameters(self, feature, y, pred, prefit_data):
            raise Started()

        def precalc_parameters(self, feature, y, pred):
            return None

        def loss(self, prediction, y, weights):
            return H.np.float64(1.0)

    est = C(**dict({"feature_groups": ["a"], "maximal_iterations": 1}, **dict(extra(H, name), **kw)))
    try:
        est.fit(X, y)
    except ValueError:
        return "rejected"
    except Started:
        return "accepted"
    return "finished"


def target(H, name, kind):
    X = data(H, name, {"a": [0.0, 1.0, 0.0]})
    k = H.choose("kind", ["finite", "nan"] + (["inf", "-inf"] if kind != "mult" else ["-inf"]))
    v = H.real("v", lo=-10, hi=10) if k == "finite" else float(k)
    if kind == "bin":
        ok = k == "finite" and (H.fork(H.is_(v, 0.0)) or H.fork(H.is_(v, 1.0)))
        rest = [0.0, 1.0]
    elif kind == "mult":
        ok = k == "finite" and H.fork(H.isle(0.0, v))
        rest = [2.0, 1.0]
    else:
        ok = k == "finite"
        rest = [-2.0, 1.0]
    p = H.choose("pos", [0, 2])
    vals = list(rest)
    vals.insert(p, v)
    r = start(H, name, X, H.arr(vals))
    H.check("invalid targets are rejected, valid ones are not", r == ("accepted" if ok else "rejected"))


def empty(H, names):
    """training on no rows is an error, whatever the target"""
    y1 = H.reals("y", 1, lo=0, hi=1)
    for name in names:
        full, none = data(H, name, {"a": [0.0, 1.0, 0.0]}), data(H, name, {"a": []})
        H.check("no rows at all", start(H, name, none, H.arr([])) == "rejected")
        H.check("targets without rows", start(H, name, none, y1) == "rejected")
        H.check("rows without targets", start(H, name, full, H.arr([])) == "rejected")


def unfitted(H, names):
    X = H.pd.DataFrame({"a": H.reals("x", 2, lo=0, hi=3)})
    for name in names:
        for fg in (None, ["a"]):
            est = cls(H, name)(feature_groups=fg, **extra(H, name))
            raised, _ = H.raises(ValueError, est.predict, X)
            H.check("predicting before fitting is an error", raised)


def config(H):
    base, cs, one = H.mod("base"), H.mod("common_smoothers"), H.mod("smoothing.onedim")
    for name in MULT + ADD + BIN:
        c = cls(H, name)
        H.check("no feature groups", H.raises(ValueError, lambda: c(feature_groups=[], **extra(H, name)))[0])
        H.check("smoother choice of another type", H.raises(ValueError, lambda: c(smoother_choice=one.BinValuesSmoother(), **extra(H, name)))[0])
    H.check("smoothers for names instead of tuples", H.raises(ValueError, lambda: cs.SmootherChoiceWeightedMean(explicit_smoothers={"a": one.BinValuesSmoother()}))[0])
    H.check("smoothers of another type", H.raises(ValueError, lambda: cs.SmootherChoiceGroupBy(explicit_smoothers={("a",): 3}))[0])
    H.check("valid configuration", cs.SmootherChoiceWeightedMean(explicit_smoothers={("a",): one.BinValuesSmoother()}) is not None)


def columns(H):
    d = {"a": [0.0, 1.0, 0.0], "out": [1.0, 1.0, 1.0]}
    y = H.reals("y", 3, lo=0, hi=4)
    k = H.choose("case", ["none", "existing", "array"])
    output, X, exc = {"none": (None, cbstub.frame(H, d), KeyError), "existing": ("out", cbstub.frame(H, d), KeyError),
                      "array": ("new", H.arr([[0.0], [1.0], [0.0]]), TypeError)}[k]
    est, log = cbstub.make(H, "identity", ["a"], iters=1, free_loss=False, output=output)
    if H.choose("m", ["fit_transform", "transform"]) == "transform":
        est.fit(cbstub.frame(H, d), y)
        raised, _ = H.raises(exc, est.transform, X, y)
    else:
        raised, _ = H.raises(exc, est.fit_transform, X, y)
    H.check("missing or existing output columns and arrays are rejected", raised)


def transformed(H):
    d = {"a": [0.0, 1.0, NAN], "b": [0.0, 0.0, 1.0]}
    y = H.reals("y", 3, lo=-4, hi=4)
    est, log = cbstub.make(H, "identity", ["a", "b"], iters=2, free_loss=False, output="new")
    labels = [5, 2, 9]

    def rows():
        return H.pd.DataFrame({c: H.arr(v) for c, v in d.items()}, index=labels)

    X = rows()
    Z = est.fit_transform(X, y)
    X2 = rows()
    p = H.items(est.predict(X2))
    Z2 = est.transform(X2)
    H.check("the output column has the predictions", H.and_(H.all_([H.eq(a, b) for a, b in zip(H.items(Z["new"].values), p)]),
                                                           H.all_([H.eq(a, b) for a, b in zip(H.items(Z2["new"].values), p)])))
    H.check("rows keep their labels", list(Z.index) == labels and list(Z2.index) == labels)
    for c in d:
        H.check("other columns are unchanged", H.and_(H.arr_eq(Z[c].values, H.arr(d[c])), H.arr_eq(Z2[c].values, H.arr(d[c]))))
    H.check("one column is added", H.and_(sorted(Z.columns) == ["a", "b", "new"], sorted(Z2.columns) == ["a", "b", "new"]))


def categories(H):
    est, log = cbstub.make(H, "identity", ["a", ("a", "b"), "b"], iters=1, free_loss=False)
    d = {"a": [0.0, 1.0, NAN], "b": [0.0, 0.0, 1.0]}
    X = cbstub.frame(H, d)
    est.fit(X, H.reals("y", 3, lo=-4, hi=4))
    for cats in ({"a": "u", ("a", "b"): "v"}, {"a": "u"}, {("a", "b"): "u", "b": "v"}):
        raised, _ = H.raises(KeyError, est.predict_extended, X, cats)
        H.check("categories have to name all features", raised)
    df = est.predict_extended(X, {"a": "u", ("a", "b"): "u", "b": "v"}).df
    con = est.get_feature_contributions(X)
    u, v = H.items(df["u"].values), H.items(df["v"].values)
    a, b, ab = (H.items(con[k]) for k in ("a", "b", "a b"))
    for i in range(3):
        H.check("the categories add up the contributions of their features", H.and_(H.eq(u[i], a[i] + ab[i]), H.eq(v[i], b[i])))
    f = H.items(df["factors"].values)
    H.check("and the total is the prediction", H.all_([H.eq(x, z) for x, z in zip(f, H.items(est.predict(X)))]))


def intact(H, name, prior="finite"):
    """fit and predict leave the frame and the target as they were"""
    c = cls(H, name)
    gbs = "GBS" in name
    cols = {"a": H.arr([0.0, 1.0, NAN]), "w": H.arr([1.0, 2.0, 0.5]), "p": H.arr([H.real("p0", lo=-1, hi=2), H.real("p1", lo=-1, hi=2), 0.5 if prior == "finite" else float(prior)])}
    if "NBinomC" in name:
        cols["m"] = H.arr([1.0, 2.0, 3.0])
    y = H.arr([0.0, 1.0, 1.0])
    kw = dict(feature_groups=["a"], weight_column="w", maximal_iterations=1, smoother_choice=capture.plain_choice(H), **extra(H, name))
    if not gbs:
        kw["prior_prediction_column"] = "p"
    keep = {k: v.copy() for k, v in cols.items()}
    y0 = y.copy()

    class C(c):
        def calc_parameters(self, feature, y, pred, prefit_data):
            return H.np.array([0.5, -0.25, 0.125]), H.np.ones(feature.n_bins)

        def precalc_parameters(self, feature, y, pred):
            return None

        def loss(self, prediction, y, weights):
            return H.np.float64(1.0)

    X = H.pd.DataFrame({k: v for k, v in cols.items()})
    est = C(**kw)
    est.fit(X, y)
    est.predict(X)
    est.get_feature_contributions(X)
    H.check("no column is added or removed", sorted(X.columns) == sorted(cols))
    for k in keep:
        H.check("column %s is not changed" % k, H.arr_eq(X[k].values, keep[k]))
    H.check("the target is not changed", H.arr_eq(y, y0))


def harnesses(tier):
    out = []

    def add(hname, fn, b, **p):
        out.append(Harness(hname, fn, p, b))

    for kind, names in (("mult", MULT), ("add", ADD), ("bin", BIN)):
        for n in names:
            add("target_" + n.split(".")[1], target, "3 rows, one of them with any target", name=n, kind=kind)
    add("empty", empty, "all estimators, no rows or no targets", names=MULT + ADD + BIN)
    add("unfitted", unfitted, "all estimators, any rows", names=MULT + ADD + BIN + ["GBSregression.CBGBSRegressor"])
    add("config", config, "all estimators")
    add("columns", columns, "3 rows, any targets")
    add("transformed", transformed, "3 rows, any targets and estimates, 2 iterations")
    add("categories", categories, "3 rows, any estimates")
    for n in MULT + ADD + BIN + ["GBSregression.CBGBSRegressor"]:
        add("intact_" + n.split(".")[1], intact, "3 rows, two of them with any prior prediction in [-1, 2]", name=n)
    for n in ("regression.CBPoissonRegressor", "location.CBLocationRegressor", "classification.CBClassifier"):
        for k in ("nan", "inf"):
            add("intact_%s_%s" % (n.split(".")[1], k), intact, "3 rows, one of them with prior prediction %s" % k, name=n, prior=k)
    return out
