"""Continuous binning: total, monotone, consistent with the fitted boundaries."""
from symx.runner import Harness

ASSUMPTIONS = ["comparison slack of the binning (epsilon times the smallest bin width) is treated as a don't-care zone of "
               "1e-3 bin widths next to a boundary"]
OUTSIDE = "more rows / probes / bins than stated; string-typed columns"


def fitted(H, n, n_bins, frame, lo=None, hi=None):
    b = H.mod("binning.bin_number_transformer")
    fl = H.mod("flags")
    x = H.reals("x", n, lo=lo, hi=hi)
    if frame:
        X = H.pd.DataFrame({"f": x})
        props = {"f": fl.IS_CONTINUOUS}
        col = "f"
    else:
        X = x.reshape(n, 1).copy()
        props = None
        col = 0
    t = b.BinNumberTransformer(n_bins=n_bins, feature_properties=props)
    t.fit(X)
    return t, x, col


def check_bins(H, p, b, B0, B, tag=""):
    """b is the bin of value p for upper boundaries B (B0: fit minimum)."""
    nb = len(B)
    H.check("bin number is an index of a fitted bin" + tag, H.and_(H.ge(b, 0), H.le(b, nb - 1)))
    # smallest positive bin width bounds the don't care zone
    for j in range(nb - 1):
        gap = B[j + 1] - B[j]
        H.check("values up to a boundary stay at or below its bin" + tag, H.implies(H.isle(p, B[j]), H.le(b, j)))
        H.check("values beyond a boundary go to a later bin" + tag,
                H.implies(H.gt(p, B[j] + 1e-3 * gap), H.ge(b, j + 1)))


def transform1(H, t, vals, frame):
    if frame:
        out = t.transform(H.pd.DataFrame({"f": vals}))
        return out["f"].values
    return t.transform(vals.reshape(len(vals), 1).copy())[:, 0]


def end_to_end(H, n, n_bins, frame):
    t, x, col = fitted(H, n, n_bins, frame)
    c, eps, bc = t.bins_and_cdfs_[0]
    H.check("column recorded", c == col)
    B0, B = bc[0, 0], bc[1:, 0]
    H.check("at most n_bins bins", len(B) <= n_bins)
    p = H.reals("p", 1)
    for j in range(len(B) - 1):
        H.check("boundaries strictly increase", H.lt(B[j], B[j + 1]))
    b = transform1(H, t, p, frame)
    check_bins(H, p[0], b[0], B0, B)
    H.observe("bin", b)
    H.observe("bounds", B)


def training_rows(H, n, n_bins, frame):
    """Every training value lands in a bin whose boundaries enclose it."""
    t, x, col = fitted(H, n, n_bins, frame)
    c, eps, bc = t.bins_and_cdfs_[0]
    B = bc[1:, 0]
    b = transform1(H, t, x, frame)
    for i in range(n):
        check_bins(H, x[i], b[i], bc[0, 0], B)
        H.check("no training value is missing", H.ge(b[i], 0))
        H.check("training values lie within the boundaries", H.and_(H.ge(x[i], bc[0, 0]), H.le(x[i], B[len(B) - 1])))
    H.observe("bins", b)


def given_bounds(H, k, frame, magic):
    """Arbitrary valid fitted state with k bins, arbitrary rows."""
    b = H.mod("binning.bin_number_transformer")
    fl = H.mod("flags")
    bounds = H.reals("b", k + 1, lo=-100, hi=100)
    for j in range(1, k):
        H.assume(bounds[j + 1] >= bounds[j] + 0.01)
    H.assume(bounds[0] <= bounds[1])
    cdf = [float(i) / k for i in range(k + 1)]
    bc = H.np.empty((k + 1, 2))
    bc[:, 0] = bounds
    bc[:, 1] = H.arr(cdf)
    prop = fl.IS_CONTINUOUS | fl.HAS_MAGIC_INT_MISSING if magic else fl.IS_CONTINUOUS
    t = b.BinNumberTransformer(n_bins=k, feature_properties={"f": prop} if frame else {0: prop})
    t.bins_and_cdfs_ = [("f" if frame else 0, 1e-9 * 0.01, bc)]
    p = H.anyfloats("p", 2, lo=-1000, hi=1000)
    keep = H.arr([v for v in H.items(p)])
    out = transform1(H, t, p, frame)
    B = bounds[1:]
    for i in range(2):
        pi, oi = H.items(keep)[i], H.items(out)[i]
        fin = H.finite(pi)
        if not H.fork(fin):
            H.check("non-finite values are missing", H.eq(oi, -1))
            continue
        if magic and H.fork(H.or_(H.is_(pi, -9), H.is_(pi, -999))):
            H.check("magic values are missing", H.eq(oi, -1))
            continue
        H.check("finite values are never missing", H.ge(oi, 0))
        check_bins(H, pi, oi, bounds[0], H.items(B))
    a, c = H.items(keep)
    if H.fork(H.and_(H.finite(a), H.finite(c))) and not magic:
        oa, oc = H.items(out)
        H.check("monotone", H.implies(H.isle(a, c), H.le(oa, oc)))
    # alone or together: the same bin
    alone = transform1(H, t, H.arr([a]), frame)
    H.check("bin of a row does not depend on other rows", H.eq(H.items(alone)[0], H.items(out)[0]))
    H.observe("out", out)


def wide(H, k, lo=None, hi=None):
    """Wide feature with many unit bins, one symbolic row."""
    b = H.mod("binning.bin_number_transformer")
    fl = H.mod("flags")
    bc = H.np.empty((k + 1, 2))
    bc[:, 0] = H.arr([0.0] + [float(i + 1) for i in range(k)])
    bc[:, 1] = H.arr([float(i) / k for i in range(k + 1)])
    t = b.BinNumberTransformer(n_bins=k, feature_properties={"f": fl.IS_CONTINUOUS})
    t.bins_and_cdfs_ = [("f", 1e-9, bc)]
    p = H.reals("p", 1, lo=-5 if lo is None else lo, hi=k + 5 if hi is None else hi)
    out = t.transform(H.pd.DataFrame({"f": p}))["f"].values
    o = H.items(out)[0]
    H.check("in range", H.and_(H.ge(o, 0), H.le(o, k - 1)))
    H.check("bin upper boundary is not below the value", H.or_(H.le(p[0], o + 1.001), H.eq(o, k - 1)))
    H.check("bin lower boundary is below the value", H.or_(H.gt(p[0], o), H.eq(o, 0)))
    H.observe("o", out)


def unfitted(H, frame):
    """A column without any usable value becomes all missing, never an error."""
    b = H.mod("binning.bin_number_transformer")
    fl = H.mod("flags")
    nan = float("nan")
    x = H.arr([nan, nan])
    t = b.BinNumberTransformer(n_bins=3, feature_properties={"f": fl.IS_CONTINUOUS} if frame else {0: fl.IS_CONTINUOUS})
    t.fit(H.pd.DataFrame({"f": x}) if frame else x.reshape(2, 1))
    p = H.anyfloats("p", 2)
    out = transform1(H, t, p, frame)
    for o in H.items(out):
        H.check("all missing", H.eq(o, -1))


def columns(H, order, frame, n_bins, inplace):
    """Several columns: each declared one is binned by its own boundaries, the others and the caller's data stay as they are."""
    b = H.mod("binning.bin_number_transformer")
    fl = H.mod("flags")
    fit = {"f": [1.0, 2.0, 3.0, 4.0], "g": [30.0, 10.0, 20.0, 40.0], "w": [1.0, 1.0, 1.0, 1.0], "o": [0.25, 7.0, 0.5, 1.5]}
    key = {c: (c if frame else i) for i, c in enumerate(order)}
    props = {key[c]: fl.IS_CONTINUOUS for c in "fg" if c in key}

    def matrix(d):
        if frame:
            return H.pd.DataFrame({c: d[c] for c in order})
        X = H.np.empty((len(d[order[0]]), len(order)))
        for i, c in enumerate(order):
            X[:, i] = d[c]
        return X

    def column(X, c):
        return H.items(X[c].values) if frame else H.items(X[:, key[c]])

    t = b.BinNumberTransformer(n_bins=n_bins, feature_properties=props, weight_column=key["w"] if "w" in key else None, inplace=inplace)
    t.fit(matrix({c: H.arr(v) for c, v in fit.items()}))
    H.check("one entry per declared column", [c for c, _, _ in t.bins_and_cdfs_] == [key[c] for c in order if c in "fg"])
    vals = {c: H.anyfloats("p_" + c, 1, lo=-100, hi=100) if c == "f" else H.reals("p_" + c, 1, lo=-100, hi=100) for c in order}
    keep = {c: H.items(vals[c])[0] for c in order}
    X = matrix(vals)
    out = t.transform(X)
    H.check("same columns", out.shape == X.shape and (not frame or list(out.columns) == list(order)))
    for c in order:
        o = column(out, c)[0]
        if c in "fg":
            B = [v for k, _, bc in t.bins_and_cdfs_ if k == key[c] for v in bc[1:, 0]]
            H.check("its own boundaries", H.eq(B[-1], max(fit[c])))
            if H.fork(H.finite(keep[c])):
                check_bins(H, keep[c], o, min(fit[c]), B)
            else:
                H.check("non-finite values are missing", H.eq(o, -1))
        else:
            H.check("other columns are passed through", H.is_(o, keep[c]))
        if not inplace:
            v = column(X, c)[0]
            H.check("the caller's data are unchanged",
                    H.is_(v, keep[c]) if H.fork(H.finite(keep[c])) else H.not_(H.finite(v)))
    H.observe("out", [column(out, c)[0] for c in order])


def harnesses(tier):
    hs = []
    for order in ("wfo", "fwg", "fog", "ofw", "gf"):
        for frame in (True, False):
            hs.append(Harness("columns_%s_%s" % (order, "frame" if frame else "array"), columns, dict(order=order, frame=frame, n_bins=2, inplace=False),
                              "columns %s (f, g features, w weights, o other), one row of any values in [-100, 100] (f also NaN or infinite)" % ", ".join(order)))
    hs.append(Harness("columns_inplace", columns, dict(order="fog", frame=False, n_bins=3, inplace=True), "two features and another column, one row, in place"))
    for frame in (True, False):
        f = "frame" if frame else "array"
        hs.append(Harness("fit_probe_n4_b2_" + f, end_to_end, dict(n=4, n_bins=2, frame=frame), "4 training rows (any reals), n_bins=2, 1 probe"))
        hs.append(Harness("fit_rows_n3_b3_" + f, training_rows, dict(n=3, n_bins=3, frame=frame), "3 training rows (any reals), n_bins=3, all rows binned"))
        hs.append(Harness("state_k3_" + f, given_bounds, dict(k=3, frame=frame, magic=False), "any 3-bin fitted state, 2 rows incl. NaN/inf"))
    hs.append(Harness("state_k2_magic", given_bounds, dict(k=2, frame=True, magic=True), "2-bin state, magic missing values"))
    hs.append(Harness("state_k5", given_bounds, dict(k=5, frame=False, magic=False), "any 5-bin fitted state, 2 rows"))
    hs.append(Harness("wide_40000_int16", wide, dict(k=40000, lo=32760, hi=32775), "40000 unit bins, 1 row near bin 2^15"))
    hs.append(Harness("wide_40000_end", wide, dict(k=40000, lo=39990, hi=50000), "40000 unit bins, 1 row near the upper end"))
    hs.append(Harness("wide_200", wide, dict(k=200), "200 unit bins, 1 row"))
    hs.append(Harness("all_missing_column", unfitted, dict(frame=False), "column of NaN, 2 probe rows"))
    hs.append(Harness("all_missing_column_frame", unfitted, dict(frame=True), "column of NaN, 2 probe rows"))
    if tier == "thorough":
        for frame in (True, False):
            f = "frame" if frame else "array"
            hs.append(Harness("fit_probe_n4_b3_" + f, end_to_end, dict(n=4, n_bins=3, frame=frame), "4 training rows, n_bins=3, 1 probe", max_seconds=3000))
            hs.append(Harness("fit_rows_n4_b4_" + f, training_rows, dict(n=4, n_bins=4, frame=frame), "4 training rows, n_bins=4", max_seconds=3000))
        hs.append(Harness("state_k9", given_bounds, dict(k=9, frame=False, magic=False), "any 9-bin state, 2 rows", max_seconds=3000))
        hs.append(Harness("wide_1000", wide, dict(k=1000), "1000 unit bins, 1 row", max_seconds=3000))
    return hs
