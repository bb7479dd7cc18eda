"""Saved, copied and cloned models."""
import copy
import io
import pickle
import types

from symx.runner import Harness

from checks import cbstub
from checks.P22 import DESIGN, OTHER, frame, simple
from checks.capture import sum_
from checks.cbstub import NAN

ASSUMPTIONS = ["pickle is the real one; numbers, arrays and classes are handed to it as given objects (persistent ids), functions must be importable as pickle requires",
               "sparse matrices keep the dense array", "per-bin estimates are arbitrary values; the training loop is the real code"]
OUTSIDE = "pickles of other versions, joblib; more rows, features or iterations than stated"


class _Pickler(pickle.Pickler):
    def __init__(self, f, H, kept):
        super().__init__(f, 4)
        self.H, self.kept = H, kept

    def persistent_id(self, obj):
        if isinstance(obj, types.FunctionType):
            if not obj.__module__.startswith("checks") and ("<" in obj.__qualname__ or "." in obj.__qualname__):
                raise pickle.PicklingError("cannot pickle %s" % obj.__qualname__)
        elif not (isinstance(obj, (type, types.BuiltinFunctionType, self.H.np.ndarray)) or type(obj).__module__.startswith("symx.")):
            return None
        elif type(obj).__module__ in ("symx.spd", "symx.loader") and not isinstance(obj, type):
            return None
        self.kept.append(obj)
        return str(len(self.kept) - 1)


class _Unpickler(pickle.Unpickler):
    def __init__(self, f, kept):
        super().__init__(f)
        self.kept = kept

    def persistent_load(self, pid):
        o = self.kept[int(pid)]
        return o.copy() if hasattr(o, "shape") and not isinstance(o, type) and hasattr(o, "copy") else o


def restore(H, obj, how):
    if how == "copy":
        return copy.deepcopy(obj)
    kept = []
    f = io.BytesIO()
    _Pickler(f, H, kept).dump(obj)
    f.seek(0)
    return _Unpickler(f, kept).load()


def same(H, name, a, b):
    a, b = H.items(a), H.items(b)
    H.check(name + ": as many", len(a) == len(b))
    for u, v in zip(a, b):
        H.check(name, H.or_(H.and_(H.isnan(u), H.isnan(v)), H.eq(u, v)))


def table(H, shape, any_weights):
    n = 1
    for k in shape:
        n *= k
    rows = []
    for i in range(n):
        if len(shape) == 1:
            rows.append([float(i)])
        else:
            rows.append([float(i // shape[1]), float(i % shape[1])])
    w = H.items(H.reals("w", n, lo=0, hi=4)) if any_weights else [1.0] * n
    return H.np.c_[tuple([H.arr([r[k] for r in rows]) for k in range(len(shape))] + [H.arr(w), H.arr([0.5] * n)])]


def smoother(H, kind, shape, how, missing):
    one, multi, meta = H.mod("smoothing.onedim"), H.mod("smoothing.multidim"), H.mod("smoothing.meta_smoother")
    make = {
        "bins": lambda: one.BinValuesSmoother(), "bins2": lambda: multi.BinValuesSmoother(),
        "prior": lambda: one.RegularizeToPriorExpectationSmoother(0.25), "mean": lambda: one.WeightedMeanSmoother(prior_prediction=0.0),
        "cut": lambda: meta.NormalizationRegressionTypeSmoother(one.BinValuesSmoother(), meta.RegressionType.discontinuous),
        "cut2": lambda: meta.NormalizationRegressionTypeSmoother(multi.BinValuesSmoother(), meta.RegressionType.discontinuous),
        "inner2": lambda: meta.RegressionTypeSmoother(multi.BinValuesSmoother(), meta.RegressionType.interpolating),
        "line": lambda: H.mod("smoothing.extrapolate").LinearExtrapolator(),
    }[kind]
    s = make()
    fresh = restore(H, s, how)
    H.check("an unfitted smoother is restored with its settings", {k: v for k, v in s.get_params(deep=False).items() if k != "smoother"} == {k: v for k, v in fresh.get_params(deep=False).items() if k != "smoother"})
    X = table(H, shape, kind in ("bins2", "cut2", "bins") and not missing)
    n = X.shape[0]
    y = H.items(H.reals("y", n, lo=-3, hi=3))
    if missing:
        y[1] = H.np.float64("nan")
    y = H.arr(y)
    probes = [[float(i)] for i in range(shape[0] + 1)] + [[NAN], [-1.0]] if len(shape) == 1 else \
        [[float(i), float(j)] for i in range(shape[0]) for j in range(shape[1])] + [[0.0, float(shape[1])], [NAN, 0.0]]
    P = H.np.c_[tuple(H.arr([p[k] for p in probes]) for k in range(len(shape)))]
    s.fit(X, y.copy())
    before = H.items(s.predict(P.copy()))
    r = restore(H, s, how)
    same(H, "the restored smoother predicts the same", r.predict(P.copy()), H.arr(before))
    rr = restore(H, r, how)
    same(H, "also when it is saved again", rr.predict(P.copy()), H.arr(before))
    y2 = H.reals("z", n, lo=-3, hi=3)
    same(H, "saving does not change the original", s.predict(P.copy()), H.arr(before))
    r.fit(X.copy(), y2)
    same(H, "fitting the copy does not change the original", s.predict(P.copy()), H.arr(before))
    a, b = make(), fresh
    a.fit(X.copy(), y2.copy())
    b.fit(X.copy(), y2.copy())
    same(H, "a restored unfitted smoother learns the same", b.predict(P.copy()), a.predict(P.copy()))
    same(H, "and so does a copy that is fitted again", r.predict(P.copy()), a.predict(P.copy()))
    H.observe("out", H.arr(before))


def model(H, groups, how, weight, prior, choice):
    memo = {}
    cs = H.mod("common_smoothers")
    ex1, ex2, exq = {}, {}, {}
    if weight:
        ex1["w"], ex2["w"] = H.reals("w1", 4, lo=0.5, hi=2), H.reals("w2", 3, lo=0.5, hi=2)
    if prior:
        ex1["p"], ex2["p"], exq["p"] = H.reals("p1", 4, lo=0.5, hi=2), H.reals("p2", 3, lo=0.5, hi=2), H.reals("q", 3, lo=0.5, hi=2)
    X1, X2 = frame(H, OTHER, False, ex1), frame(H, DESIGN, False, ex2)
    y1, y2 = H.reals("y1", 4, lo=-3, hi=3), H.reals("y2", 3, lo=-3, hi=3)
    Q = frame(H, {"a": [0.0, NAN, 2.0], "b": [1.0, 0.0, 5.0]}, False, exq)

    def build():
        e = simple(H, groups, 1, memo, "w" if weight else None, "p" if prior else None)
        if choice == "plain":
            e.smoother_choice = cs.NoSmootherChoice(use_normalization=False, use_regression_type=True)
        return e

    a = build()
    fresh = restore(H, a, how)
    a.fit(X1, y1)
    p0 = H.items(a.predict(Q))
    i0 = a.get_feature_importances()
    r = restore(H, a, how)
    same(H, "the restored model predicts the same", r.predict(Q), H.arr(p0))
    ir = r.get_feature_importances()
    H.check("it has the same importances", H.and_(list(ir) == list(i0), *[H.eq(ir[k], i0[k]) for k in i0]))
    c0, cr = a.get_feature_contributions(Q), r.get_feature_contributions(Q)
    H.check("and the same contributions", H.and_(list(cr) == list(c0), *[H.arr_eq(H.arr(H.items(cr[k])), H.arr(H.items(c0[k]))) for k in c0]))
    same(H, "saving does not change the original", a.predict(Q), H.arr(p0))
    r.fit(X2, y2)
    same(H, "fitting the copy does not change the original", a.predict(Q), H.arr(p0))
    b = build()
    b.fit(X2, y2)
    fresh.fit(X2, y2)
    pb = H.items(b.predict(Q))
    same(H, "a restored unfitted model learns the same", fresh.predict(Q), H.arr(pb))
    same(H, "and so does a copy that is fitted again", r.predict(Q), H.arr(pb))
    H.observe("p", H.arr(p0))


def binner(H, cls, how, array):
    b, fl = H.mod("binning"), H.mod("flags")
    x = H.reals("x", 3, lo=-5, hi=5)
    d = [2.0, 7.0, 2.0]
    if array:
        X = H.np.c_[x, H.arr(d)]
        cols = [0, 1]
    else:
        X = H.pd.DataFrame({"f": x, "d": H.arr(d)})
        cols = ["f", "d"]
    kw = dict(feature_properties={cols[0]: fl.IS_CONTINUOUS, cols[1]: fl.IS_UNORDERED})
    t = b.BinNumberTransformer(n_bins=2, inplace=False, **kw) if cls == "bins" else H.mod("binning.ecdf_transformer").ECdfTransformer(**kw)
    fresh = restore(H, t, how)
    t.fit(X)

    def apply(u):
        q = H.arr([1.0])
        Q = H.np.c_[q, H.arr([7.0])] if array else H.pd.DataFrame({"f": q, "d": H.arr([7.0])})
        o = u.transform(Q)
        return H.items(o) if array else H.items(o["f"].values) + H.items(o["d"].values)

    out = apply(t)
    r = restore(H, t, how)
    same(H, "the restored binner gives the same bins", H.arr(apply(r)), H.arr(out))
    fresh.fit(X)
    same(H, "a restored unfitted binner learns the same", H.arr(apply(fresh)), H.arr(out))
    r.fit(X[:2] if array else H.pd.DataFrame({"f": H.arr([0.0, 3.0]), "d": H.arr([7.0, 9.0])}))
    same(H, "fitting the copy does not change the original", H.arr(apply(t)), H.arr(out))
    H.observe("out", H.arr(out))


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        out.append(Harness(name, fn, p, b))

    for how in ("pickle", "copy"):
        for kind, shape in (("bins", (3,)), ("bins2", (2, 2)), ("prior", (2,)), ("mean", (2,)), ("cut", (3,)), ("cut2", (2, 2)), ("inner2", (2, 2)), ("line", (3,))):
            add("smoother_%s_%s" % (kind, how), smoother, "%s bins, any values twice" % (shape,), kind=kind, shape=shape, how=how, missing=False)
            if kind in ("bins", "bins2"):
                add("smoother_%s_missing_%s" % (kind, how), smoother, "%s bins, one without value" % (shape,), kind=kind, shape=shape, how=how, missing=True)
        for c in ("bins", "plain"):
            add("model_%s_%s" % (c, how), model, "4, then 3 rows, any targets and estimates", groups=["a", ("a", "b")], how=how, weight=False, prior=False, choice=c)
        add("model_wp_%s" % how, model, "4, then 3 rows, any targets, weights, priors and estimates", groups=["a", "b"], how=how, weight=True, prior=True, choice="bins")
        for cls in ("bins", "ecdf"):
            for array in (False, True):
                add("%s_%s_%s" % (cls, "array" if array else "frame", how), binner, "3 rows, any values", cls=cls, how=how, array=array)
    return out
