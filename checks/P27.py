"""Ready-made pipelines: settings, columns and clones."""
from sklearn.base import clone

from symx.runner import Harness

from checks import capture
from checks.capture import frame

ASSUMPTIONS = ["sklearn.pipeline.Pipeline and sklearn.base.clone run unchanged"]
OUTSIDE = "settings not listed in the documentation of the estimator; more rows than stated"

COMMON = ["feature_groups", "feature_properties", "weight_column", "prior_prediction_column", "minimal_loss_change",
          "minimal_factor_change", "maximal_iterations", "observers", "smoother_choice", "output_column", "learn_rate",
          "hierarchical_feature_groups", "aggregate"]
PRICE = ["external_colname", "standard_feature_groups", "external_feature_groups", "var_prior_exponent",
         "prior_exponent_colname", "a", "c"]


def without(*names):
    return [n for n in COMMON if n not in names]


PIPES = {
    "CBPoissonRegressor": COMMON,
    "CBNBinomRegressor": COMMON + ["a", "c"],
    "CBClassifier": COMMON,
    "CBLocationRegressor": COMMON,
    "CBExponential": without("feature_groups", "hierarchical_feature_groups", "aggregate") + PRICE,
    "CBLocPoissonRegressor": COMMON,
    "CBNBinomC": without("hierarchical_feature_groups", "aggregate") + ["mean_prediction_column", "gamma", "bayes", "n_steps"],
    "CBGBSRegressor": without("prior_prediction_column") + ["regalpha"],
    "CBMultiplicativeQuantileRegressor": COMMON + ["quantile"],
    "CBAdditiveQuantileRegressor": COMMON + ["quantile"],
    "CBMultiplicativeGenericCRegressor": COMMON + ["costs"],
    "CBAdditiveGenericCRegressor": COMMON + ["costs"],
    "CBGenericClassifier": COMMON + ["costs"],
}
BINNER = {"number_of_bins": "n_bins", "feature_properties": "feature_properties", "inplace": "inplace",
          "weight_column": "weight_column"}
NEEDED = {"CBExponential": ["external_colname", "standard_feature_groups", "external_feature_groups"],
          "CBNBinomC": ["mean_prediction_column"],
          "CBMultiplicativeQuantileRegressor": ["quantile"], "CBAdditiveQuantileRegressor": ["quantile"],
          "CBMultiplicativeGenericCRegressor": ["costs"], "CBAdditiveGenericCRegressor": ["costs"],
          "CBGenericClassifier": ["costs"]}


def my_costs(prediction, y, weights):
    return 0.0


def my_learn_rate(iteration, maximal_iteration, feature=None):
    return 0.5


def values(H):
    """a value for every setting; numbers are arbitrary"""
    F = H.mod("flags")
    return dict(
        feature_groups=["f", ("f", "g")], hierarchical_feature_groups=["g"],
        feature_properties={"f": F.IS_CONTINUOUS, "g": F.IS_UNORDERED}, weight_column="w", prior_prediction_column="p",
        minimal_loss_change=H.real("minimal_loss_change", lo=0, hi=1),
        minimal_factor_change=H.real("minimal_factor_change", lo=0, hi=1),
        maximal_iterations=H.int("maximal_iterations", 1, 100), observers=[object()],
        smoother_choice=H.mod("common_smoothers").SmootherChoiceGroupBy(), output_column="out", learn_rate=my_learn_rate,
        aggregate=H.choose("aggregate", [False, True]), a=H.real("a", lo=0, hi=9), c=H.real("c", lo=0, hi=9),
        external_colname="price", standard_feature_groups=["f"], external_feature_groups=["g"],
        var_prior_exponent=H.real("var_prior_exponent", gt=0, hi=9), prior_exponent_colname="pe", mean_prediction_column="m",
        gamma=H.real("gamma", lo=0, hi=9), bayes=H.choose("bayes", [False, True]), n_steps=H.int("n_steps", 1, 100),
        regalpha=H.real("regalpha", lo=0, hi=9), quantile=H.real("quantile", gt=0, lt=1), costs=my_costs,
        number_of_bins=H.int("number_of_bins", 1, 1000), inplace=H.choose("inplace", [False, True]))


def same(H, a, b):
    if a is b:
        return True
    if isinstance(b, (str, bool, list, dict, tuple)) or b is None or callable(b):
        return type(a) is type(b) and a == b
    try:
        return H.eq(a, b)
    except TypeError:
        return False


def parts(pipe):
    (_, binner), (_, est) = pipe.steps
    return binner, est


def settings(H, name, hierarchical):
    """every setting given to the pipeline is a setting of its estimator or binner"""
    m = H.mod("pipelines")
    vals = values(H)
    if hierarchical:  # documented to override the learning rate
        del vals["learn_rate"]
    else:
        del vals["hierarchical_feature_groups"]
    names = [n for n in PIPES[name] if n in vals]
    given = {n: vals[n] for n in list(dict.fromkeys(names + ["number_of_bins", "inplace"]))}
    pipe = getattr(m, "pipeline_" + name)(**given)
    binner, est = parts(pipe)
    H.check("the estimator is the one asked for", type(est) is getattr(m, name))
    H.check("the binner gives bin numbers", type(binner) is m.binning.BinNumberTransformer)
    for q, label in ((pipe, "pipeline"), (clone(pipe), "clone")):
        binner, est = parts(q)
        ep, bp = est.get_params(deep=False), binner.get_params(deep=False)
        for n in names:
            if label == "clone" and n in ("smoother_choice", "observers"):  # copies
                H.check("%s: %s reaches the estimator" % (label, n), type(ep.get(n)) is type(vals[n]))
                continue
            H.check("%s: %s reaches the estimator" % (label, n), same(H, ep.get(n), vals[n]))
        for n, b in BINNER.items():
            H.check("%s: %s reaches the binner" % (label, n), same(H, bp.get(b), vals[n]))


def independent(H, name):
    """a setting changes nothing but itself"""
    m = H.mod("pipelines")
    vals = values(H)
    fn = getattr(m, "pipeline_" + name)
    base = {n: vals[n] for n in NEEDED.get(name, [])}
    b0, e0 = (x.get_params(deep=False) for x in parts(fn(**base)))
    for n in PIPES[name] + ["number_of_bins", "inplace"]:
        b1, e1 = (x.get_params(deep=False) for x in parts(fn(**{**base, n: vals[n]})))
        over = {"hierarchical_feature_groups": ["learn_rate"]}.get(n, [])
        bn = BINNER.get(n)
        for k in e0:
            if k == n or k in over:
                continue
            ok = type(e1[k]) is type(e0[k]) if k == "smoother_choice" else same(H, e1[k], e0[k])
            H.check("%s leaves %s of the estimator alone" % (n, k), ok)
        for k in b0:
            if k != bn:
                H.check("%s leaves %s of the binner alone" % (n, k), same(H, b1[k], b0[k]))


def columns(H, name, kind, props):
    """features reach the estimator as bin numbers, the columns for weights, priors and the like as they are"""
    m = H.mod("pipelines")
    F = H.mod("flags")
    cols = dict(weight_column=["w"], prior_prediction_column=["p"], mean_prediction_column=["m"],
                price=["price", "pe"])[kind]
    vals = {c: [H.real("%s%d" % (c, i), lo=0.5, hi=2) for i in range(3)] for c in cols}
    kw = {kind: cols[0]}
    if kind == "price":
        kw = dict(external_colname="price", prior_exponent_colname="pe", standard_feature_groups=["f"],
                  external_feature_groups=["g"])
    X = frame(H, {"f": [2.0, 7.0, 2.0], "g": [5.0, 1.0, 1.0]})
    for c in cols:
        X[c] = H.arr(vals[c])
    fp = {"f": F.IS_UNORDERED, "g": F.IS_UNORDERED} if props else None
    pipe = getattr(m, "pipeline_" + name)(feature_properties=fp, **kw)
    got = pipe[:-1].fit(X).transform(X)
    for c, want in (("f", [0, 1, 0]), ("g", [1, 0, 0])):
        for i, v in enumerate(H.items(got[c].values)):
            H.check("bin numbers of %s" % c, H.eq(v, float(want[i])))
    for c in cols:
        for i, v in enumerate(H.items(got[c].values)):
            H.check("the column %s is left alone" % c, H.eq(v, vals[c][i]))


def harnesses(tier):
    out = []

    def add(hname, fn, b, **p):
        out.append(Harness(hname, fn, p, b, **OPTS.get(hname, {})))

    for n in PIPES:
        for h in (False, True):
            if h and "hierarchical_feature_groups" not in PIPES[n]:
                continue
            add("settings_%s%s" % (n, "_hier" if h else ""), settings, "any numbers, all settings at once", name=n, hierarchical=h)
        add("independent_%s" % n, independent, "any numbers, one setting at a time", name=n)
    for p in (False, True):
        s = "_props" if p else ""
        for n, k in (("CBLocationRegressor", "weight_column"), ("CBClassifier", "weight_column"),
                     ("CBLocationRegressor", "prior_prediction_column"), ("CBNBinomC", "mean_prediction_column"),
                     ("CBExponential", "price")):
            add("columns_%s_%s%s" % (n, k, s), columns, "3 rows, any values in the column", name=n, kind=k, props=p)
    return out


OPTS = {}
