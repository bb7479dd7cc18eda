"""Transforming values to the empirical-CDF scale."""
from symx.runner import Harness

ASSUMPTIONS = ["probes within 1e-3 of a gap next to a boundary are a don't-care zone for equality with discrete values"]
OUTSIDE = "more boundaries / rows than stated"


def state(H, k, kind, frame):
    """Any fitted table with k bins; rows may be NaN or infinite."""
    m = H.mod("binning.ecdf_transformer")
    fl = H.mod("flags")
    v = H.reals("v", k, lo=-100, hi=100)
    c = [H.real("c_%d" % i, gt=0, lt=1) for i in range(k - 1)] + [1.0]
    for i in range(k - 1):
        H.assume(v[i + 1] >= v[i] + 0.01)
        H.assume(c[i + 1] > c[i])
    lo = v[0]
    if kind == "continuous":
        lo = H.real("b0", lo=-200, hi=100)
        H.assume(H.or_(H.is_(lo, v[0]), H.isle(lo, v[0] - 0.01)))
    bc = H.np.empty((k + 1, 2))
    bc[0, 0] = lo
    bc[1:, 0] = v
    bc[0, 1] = 0.0
    bc[1:, 1] = H.arr(c)
    col = "f" if frame else 0
    t = m.ECdfTransformer(feature_properties={col: fl.IS_CONTINUOUS if kind == "continuous" else fl.IS_UNORDERED})
    t.bins_and_cdfs_ = [(col, 1e-9 * 0.01, bc)]
    p = H.anyfloats("p", 2, lo=-1000, hi=1000)
    a, b = H.items(p)
    X = H.pd.DataFrame({"f": p}) if frame else H.arr([[a], [b]])
    out = t.transform(X)
    o = H.items(out["f"].values if frame else out[:, 0])
    H.observe("o", o)
    H.check("the input is left alone", H.arr_eq(X["f"].values if frame else X[:, 0], [a, b]))
    if kind == "continuous":
        for x, y in ((a, o[0]), (b, o[1])):
            if not H.fork(H.finite(x)):
                H.check("non-finite values are missing", H.isnan(y))
                continue
            H.check("result is a probability", H.and_(H.finite(y), H.ge(y, 0.0), H.le(y, 1.0)))
            H.check("below the range: 0", H.implies(H.lt(x, lo - 1e-6), H.eq(y, 0.0)))
            H.check("above the range: 1", H.implies(H.ge(x, v[k - 1]), H.eq(y, 1.0)))
            for j in range(k):
                H.check("cumulative share at a boundary", H.implies(H.is_(x, v[j]), H.eq(y, c[j])))
                if j:
                    H.check("linear between boundaries", H.implies(
                        H.and_(H.gt(x, v[j - 1]), H.lt(x, v[j] - 1e-6)),
                        H.eq((y - c[j - 1]) * (v[j] - v[j - 1]), (x - v[j - 1]) * (c[j] - c[j - 1]))))
            H.check("linear in the first bin", H.implies(
                H.and_(H.gt(x, lo), H.lt(x, v[0] - 1e-6)), H.eq(y * (v[0] - lo), (x - lo) * c[0])))
        if H.fork(H.and_(H.finite(a), H.finite(b))):
            H.check("monotone", H.implies(H.isle(a, b), H.le(o[0], o[1])))
    else:
        for x, y in ((a, o[0]), (b, o[1])):
            if not H.fork(H.finite(x)):
                H.check("non-finite values are missing", H.isnan(y))
                continue
            for j in range(k):
                if H.fork(H.is_(x, v[j])):
                    H.check("seen values get their cumulative share", H.and_(H.finite(y), H.eq(y, c[j])))
                    break
            else:
                if H.fork(H.and_(*[H.or_(H.gt(x, v[j] + 1e-5), H.lt(x, v[j] - 1e-5)) for j in range(k)])):
                    H.check("unseen values are missing", H.isnan(y))


def fit_transform(H, n, kind):
    """Fit on n rows, transform the same rows: weighted share of rows up to the value."""
    m = H.mod("binning.ecdf_transformer")
    fl = H.mod("flags")
    x = H.anyfloats("x", n, kinds=("finite", "nan"))
    xi = H.items(x)
    fin = [v for v in xi if H.fork(H.finite(v))]
    prop = fl.IS_CONTINUOUS if kind == "continuous" else fl.IS_ORDERED
    t = m.ECdfTransformer(n_bins=3, feature_properties={"f": prop})
    t.fit(H.pd.DataFrame({"f": x}))
    X = H.pd.DataFrame({"f": x})
    o = H.items(t.transform(X)["f"].values)
    H.observe("o", o)
    for i in range(n):
        if not H.fork(H.finite(xi[i])):
            H.check("missing stays missing", H.isnan(o[i]))
            continue
        if kind == "continuous":
            H.check("probability", H.and_(H.finite(o[i]), H.ge(o[i], 0.0), H.le(o[i], 1.0)))
            for j in range(n):
                if H.fork(H.finite(xi[j])):
                    H.check("order is kept", H.implies(H.isle(xi[i], xi[j]), H.le(o[i], o[j])))
        else:
            cnt = sum(1 for v in fin if H.fork(H.isle(v, xi[i])))
            H.check("share of rows up to the value", H.and_(H.finite(o[i]), H.eq(o[i] * len(fin), cnt * 1.0)))
    H.check("input unchanged", H.arr_eq(X["f"].values, xi))


def columns(H, order, frame):
    """Several columns: each declared one uses its own table, the others are passed through, rows keep their labels."""
    m = H.mod("binning.ecdf_transformer")
    fl = H.mod("flags")
    fit = {"f": [1.0, 2.0, 3.0, 4.0], "g": [30.0, 10.0, 20.0, 40.0], "w": [1.0, 1.0, 1.0, 1.0], "o": [0.25, 7.0, 0.5, 1.5]}
    key = {c: (c if frame else i) for i, c in enumerate(order)}
    labels = [7, 3]

    def matrix(d, index=None):
        if frame:
            return H.pd.DataFrame({c: d[c] for c in order}, index=index)
        X = H.np.empty((len(d[order[0]]), len(order)))
        for i, c in enumerate(order):
            X[:, i] = d[c]
        return X

    def column(X, c):
        return H.items(X[c].values) if frame else H.items(X[:, key[c]])

    props = {key[c]: fl.IS_CONTINUOUS if c == "f" else fl.IS_ORDERED for c in "fg" if c in key}
    t = m.ECdfTransformer(n_bins=4, feature_properties=props, weight_column=key["w"] if "w" in key else None)
    t.fit(matrix({c: H.arr(v) for c, v in fit.items()}))
    vals = {c: H.arr([H.real("p_" + c, lo=-100, hi=100), fit[c][2]]) for c in order}
    keep = {c: H.items(vals[c]) for c in order}
    X = matrix(vals, labels)
    out = t.transform(X)
    H.check("same columns", out.shape == X.shape and (not frame or list(out.columns) == list(order)))
    if frame:
        H.check("rows keep their labels", list(out.index) == labels)
    for c in order:
        for v, o, x in zip(keep[c], column(out, c), column(X, c)):
            H.check("the caller's data are unchanged", H.is_(x, v))
            if c == "f":
                H.check("share of its own data", H.and_(H.implies(H.is_(v, 3.0), H.eq(o, 0.75)), H.implies(H.gt(v, 4.0), H.eq(o, 1.0))))
            elif c == "g":
                H.check("share of its own data", H.implies(H.is_(v, 30.0), H.eq(o, 0.75)))
            else:
                H.check("other columns are passed through", H.is_(o, v))


def harnesses(tier):
    hs = [
        Harness("state_cont_k2_frame", state, dict(k=2, kind="continuous", frame=True), "any 2-bin table, 2 rows incl. NaN/inf"),
        Harness("state_cont_k3_array", state, dict(k=3, kind="continuous", frame=False), "any 3-bin table, 2 rows incl. NaN/inf"),
        Harness("state_disc_k3_frame", state, dict(k=3, kind="discrete", frame=True), "any 3 categories, 2 rows"),
        Harness("state_disc_k3_array", state, dict(k=3, kind="discrete", frame=False), "any 3 categories, 2 rows"),
        Harness("fit_disc_n3", fit_transform, dict(n=3, kind="discrete"), "3 rows (finite or NaN)"),
        Harness("fit_cont_n3", fit_transform, dict(n=3, kind="continuous"), "3 rows (finite or NaN)"),
    ]
    for order in ("wfo", "fwg", "gof"):
        for frame in (True, False):
            hs.append(Harness("columns_%s_%s" % (order, "frame" if frame else "array"), columns, dict(order=order, frame=frame),
                              "columns %s (f, g features, w weights, o other), a row of any values in [-100, 100] and a fixed one" % ", ".join(order)))
    if tier == "thorough":
        hs += [
            Harness("state_cont_k6_array", state, dict(k=6, kind="continuous", frame=False), "any 6-bin table, 2 rows", max_seconds=3000),
            Harness("state_disc_k8_frame", state, dict(k=8, kind="discrete", frame=True), "any 8 categories, 2 rows", max_seconds=3000),
            Harness("fit_disc_n4", fit_transform, dict(n=4, kind="discrete"), "4 rows (finite or NaN)", max_seconds=3000),
            Harness("fit_cont_n4", fit_transform, dict(n=4, kind="continuous"), "4 rows (finite or NaN)", max_seconds=3000),
        ]
    return hs
