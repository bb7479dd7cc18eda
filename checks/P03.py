"""Bin boundaries learned from (weighted) data."""
from symx.runner import Harness

ASSUMPTIONS = ["each distinct value carries at least 1e-4 of the total weight (the binning's comparison slack is 1e-9)"]
OUTSIDE = "more distinct values / bins than stated; infinite feature values in the training data"


def reduced(H, k, n_bins, tol):
    """The continuous reduction from any strictly increasing empirical CDF."""
    m = H.mod("binning.ecdf_transformer")
    v = H.reals("v", k, lo=-1000, hi=1000)
    c = [H.real("c_%d" % i, gt=0, lt=1) for i in range(k - 1)] + [1.0]
    for i in range(k - 1):
        H.assume(v[i + 1] > v[i])
        H.assume(c[i + 1] >= c[i] + 1e-4)
    H.assume(c[0] >= 1e-4)
    c = H.arr(c)
    B, C = m.reduce_cdf_and_boundaries_to_nbins(v, c, n_bins, 1e-9, tol)
    H.observe("B", B)
    H.observe("C", C)
    B, C = H.items(B), H.items(C)
    H.check("as many boundaries as cumulative shares", len(B) == len(C))
    H.check("at most n_bins bins and at least one", len(B) <= n_bins + 1 and len(B) >= 2)
    H.check("starts at the minimum with share 0", H.and_(H.eq(B[0], v[0]), H.eq(C[0], 0.0)))
    H.check("ends at the maximum with share 1", H.and_(H.eq(B[-1], v[k - 1]), H.eq(C[-1], 1.0)))
    for j in range(1, len(B)):
        H.check("boundary is an observed value with its own cumulative share",
                H.or_(*[H.and_(H.eq(B[j], v[i]), H.eq(C[j], c[i])) for i in range(k)]))
        H.check("each bin holds at least the tolerated share", H.ge(C[j] - C[j - 1], (1 - tol) / n_bins - 1e-8, tol=0.01) if len(B) > 2 else True)
        if j >= 2:
            H.check("boundaries strictly increase", H.lt(B[j - 1], B[j]))
        if j < len(B) - 1:
            H.check("a bin ends as soon as it has its share",
                    H.all_([H.or_(H.isle(B[j], v[i]), H.le(c[i] - C[j - 1], 1.0 / n_bins)) for i in range(k)]))


def weighted_cdf(H, n, nanable, wlo):
    """The empirical CDF of weighted rows."""
    m = H.mod("binning.ecdf_transformer")
    z = H.anyfloats("z", n) if nanable else H.reals("z", n)
    w = H.reals("w", n, lo=wlo, hi=10)
    zi, wi = H.items(z), H.items(w)
    fin = [i for i in range(n) if H.fork(H.finite(zi[i]))]
    tot = sum([wi[i] for i in fin]) if fin else 0.0
    if fin:
        H.assume(H.gt(tot, 0.001))
    U, C, wsum, nn = m.calculate_cdf_from_weighted_data(z, w)
    H.observe("U", U)
    H.observe("C", C)
    U, C = H.items(U), H.items(C)
    H.check("number of missing values", H.eq(nn, n - len(fin)))
    H.check("one cumulative share per value", len(U) == len(C))
    H.check("total weight", H.eq(wsum, tot) if fin else True)
    for j in range(len(U)):
        H.check("values are observed with positive weight", H.or_(False, *[H.and_(H.eq(U[j], zi[i]), H.gt(wi[i], 0)) for i in fin]))
        if j:
            H.check("values strictly increase", H.lt(U[j - 1], U[j]))
        s = 0.0
        for i in fin:
            if H.fork(H.isle(zi[i], U[j])):
                s = s + wi[i]
        H.check("cumulative share = weight of rows up to the value / total", H.eq(C[j] * tot, s))
    for i in fin:
        H.check("every value with weight is present", H.or_(H.is_(wi[i], 0), *[H.eq(U[j], zi[i]) for j in range(len(U))]))


def fitted(H, n, kind, n_bins, weighted, frame=True, first=False):
    """Whole fit: boundaries/cdf table of one feature."""
    b = H.mod("binning.ecdf_transformer") if kind != "binno" else H.mod("binning.bin_number_transformer")
    fl = H.mod("flags")
    x = H.reals("x", n)
    w = H.reals("w", n, lo=0.5 if not weighted == "zero" else 0, hi=4) if weighted else H.arr([1.0] * n)
    xi, wi = H.items(x), H.items(w)
    d = {"w": w, "f": x} if weighted and first else {"f": x}
    if weighted:
        d["w"] = w
        tot = sum(wi)
        H.assume(H.gt(tot, 0.1))
    else:
        tot = float(n)
    prop = fl.IS_ORDERED if kind == "discrete" else fl.IS_CONTINUOUS
    if frame:
        t = b.ECdfTransformer(n_bins={"f": n_bins}, feature_properties={"f": prop}, weight_column="w" if weighted else None)
        X = H.pd.DataFrame(d)
    else:
        # an array: feature columns are the ones that are not the weight column
        at = {c: i for i, c in enumerate(d)}
        t = b.ECdfTransformer(n_bins=n_bins, weight_column=at.get("w"))
        X = H.np.empty((n, len(d)))
        for c in d:
            X[:, at[c]] = d[c]
    t.fit(X)
    H.check("one entry per feature", len(t.bins_and_cdfs_) == 1)
    col, eps, bc = t.bins_and_cdfs_[0]
    H.check("named after its column", col == ("f" if frame else at["f"]))
    H.observe("bc", bc)
    B, C = H.items(bc[:, 0]), H.items(bc[:, 1])
    H.check("starts with share 0, ends with share 1", H.and_(H.eq(C[0], 0.0), H.eq(C[-1], 1.0)))
    for i in range(n):
        inside = H.and_(H.ge(xi[i], B[0]), H.le(xi[i], B[-1]))
        H.check("all weighted values lie within the boundaries", H.or_(inside, H.is_(wi[i], 0)))
    if kind == "discrete":
        cnt = 0
        for i in range(n):
            if H.fork(H.and_(H.gt(wi[i], 0), *[H.or_(H.not_(H.is_(xi[c], xi[i])), H.is_(wi[c], 0)) for c in range(i)])):
                cnt += 1
        H.check("one bin per distinct value", len(B) - 1 == cnt)
    else:
        H.check("at most n_bins bins", len(B) - 1 <= n_bins)
    for j in range(1, len(B)):
        H.check("boundaries are observed values", H.or_(*[H.and_(H.eq(B[j], xi[i]), H.gt(wi[i], 0)) for i in range(n)]))
        s = 0.0
        for i in range(n):
            if H.fork(H.isle(xi[i], B[j])):
                s = s + wi[i]
        H.check("cumulative share of the data up to the boundary", H.eq(C[j] * tot, s))
        if kind != "discrete" and len(B) > 2:
            H.check("each bin holds at least the tolerated share", H.ge(C[j] - C[j - 1], 0.9 / n_bins - 1e-8, tol=0.01))


def harnesses(tier):
    hs = [Harness("reduce_k%d_b%d_t%s" % (k, nb, tol), reduced, dict(k=k, n_bins=nb, tol=tol), "any CDF over %d values, %d bins, tolerance %s" % (k, nb, tol))
          for k, nb, tol in [(2, 2, 0.1), (3, 2, 0.1), (4, 3, 0.1), (5, 4, 0.1), (4, 2, 0.0), (4, 3, 0.3), (5, 3, 0.1), (1, 2, 0.1)]]
    hs += [
        Harness("cdf_n3", weighted_cdf, dict(n=3, nanable=True, wlo=0), "3 rows (finite, NaN or infinite), weights in [0,10]"),
        Harness("fit_cont_n4", fitted, dict(n=4, kind="continuous", n_bins=2, weighted=False), "4 rows, 2 bins"),
        Harness("fit_cont_n4_b4", fitted, dict(n=4, kind="continuous", n_bins=4, weighted=False), "4 rows, 4 bins"),
        Harness("fit_cont_w_n3", fitted, dict(n=3, kind="continuous", n_bins=2, weighted=True), "3 weighted rows, 2 bins"),
        Harness("fit_cont_w0_n3", fitted, dict(n=3, kind="continuous", n_bins=3, weighted="zero"), "3 rows with weights in [0,4], 3 bins"),
        Harness("fit_disc_w_n3", fitted, dict(n=3, kind="discrete", n_bins=2, weighted=True), "3 weighted rows, discrete"),
        Harness("fit_disc_w0_n3", fitted, dict(n=3, kind="discrete", n_bins=2, weighted="zero"), "3 rows, weights may be 0, discrete"),
    ]
    hs += [
        Harness("fit_cont_w_first", fitted, dict(n=3, kind="continuous", n_bins=2, weighted=True, first=True), "3 weighted rows, 2 bins, weight column first"),
        Harness("fit_cont_array", fitted, dict(n=3, kind="continuous", n_bins=2, weighted=False, frame=False), "array with 3 rows, 2 bins"),
        Harness("fit_cont_array_w_first", fitted, dict(n=3, kind="continuous", n_bins=2, weighted=True, first=True, frame=False),
                "array with 3 weighted rows, 2 bins, weight column first"),
    ]
    if tier == "thorough":
        hs += [Harness("reduce_k%d_b%d" % (k, nb), reduced, dict(k=k, n_bins=nb, tol=0.1), "any CDF over %d values, %d bins" % (k, nb), max_seconds=3000)
               for k, nb in [(6, 5), (6, 3), (7, 4)]]
        hs += [Harness("cdf_n4", weighted_cdf, dict(n=4, nanable=True, wlo=0), "4 rows (finite or NaN), weights in [0,10]", max_seconds=3000),
               Harness("fit_cont_w_n4", fitted, dict(n=4, kind="continuous", n_bins=3, weighted=True), "4 weighted rows, 3 bins", max_seconds=3000),
               Harness("fit_disc_n5", fitted, dict(n=5, kind="discrete", n_bins=2, weighted=False), "5 rows, discrete", max_seconds=3000)]
    return hs
