"""Numbering of multi-dimensional bins."""
from symx.runner import Harness

OUTSIDE = "more dimensions, larger bin counts or more rows than stated"
NAN = float("nan")


def rows(H, n, d, lim, fractional=False):
    """n rows of d bin numbers: any integer in [-2, lim], or NaN/inf."""
    out = []
    for i in range(n):
        r = []
        for j in range(d):
            k = H.choose("k_%d_%d" % (i, j), ["num", "nan", "inf"] if j == 0 else ["num", "nan"])
            if k == "num":
                v = H.real("x_%d_%d" % (i, j), lo=-2, hi=lim) if fractional else H.int("x_%d_%d" % (i, j), -2, lim) * 1.0
                r.append(v)
            else:
                r.append(float(k))
        out.append(r)
    return out


def given(H, n, nb, frame):
    u = H.mod("utils")
    d = len(nb)
    x = rows(H, n, d, max(nb) + 1)
    X = H.arr(x)
    if frame:
        X = H.pd.DataFrame({"c%d" % j: H.arr([x[i][j] for i in range(n)]) for j in range(d)})
    r, out_nb = u.multidim_binnos_to_lexicographic_binnos(X, n_bins=H.np.asarray(nb))
    H.observe("r", r)
    r = H.items(r)
    total = 1
    for b in nb:
        total *= b
    H.check("bin counts passed through", H.arr_eq(out_nb, nb))
    valid = []
    for i in range(n):
        ok = all(H.fork(H.finite(v)) for v in x[i]) and H.fork(
            H.and_(*[H.and_(H.isle(0, x[i][j]), H.isle(x[i][j], nb[j] - 1)) for j in range(d)]))
        valid.append(ok)
        if not ok:
            H.check("missing or out-of-range rows get the extra last bin", H.eq(r[i], total))
            continue
        e = 0.0
        for j in range(d):
            e = e * nb[j] + x[i][j]
        H.check("row-major number", H.eq(r[i] * 1.0, e))
        H.check("valid rows never use the extra bin", H.and_(H.ge(r[i], 0), H.le(r[i], total - 1)))
    for i in range(n):
        for j in range(i):
            if valid[i] and valid[j]:
                same = H.and_(*[H.is_(x[i][c], x[j][c]) for c in range(d)])
                H.check("one number per combination", H.iff(same, H.is_(r[i], r[j])))


def steps(H, d, lim):
    """Any bin counts: the step table is the product of the following dimensions."""
    u = H.mod("utils")
    nb = [H.int("n_%d" % i, 1, lim) for i in range(d)]
    s = H.items(u.bin_steps(H.arr(nb)))
    H.observe("s", s)
    H.check("one entry per dimension plus the total", len(s) == d + 1)
    p = 1
    for j in range(d, -1, -1):
        H.check("steps are products of the following dimensions", H.eq(s[j], p))
        if j:
            p = p * nb[j - 1]


def symbolic_counts(H, n, d, lim):
    """Any bin counts: numbers stay in range and distinct tuples get distinct numbers."""
    u = H.mod("utils")
    nb = [H.int("n_%d" % i, 1, lim) for i in range(d)]
    x = []
    for i in range(n):
        r = [H.int("x_%d_%d" % (i, j), 0, lim - 1) for j in range(d)]
        for j in range(d):
            H.assume(H.isle(r[j] + 1, nb[j]))
        x.append([v * 1.0 for v in r])
    r, _ = u.multidim_binnos_to_lexicographic_binnos(H.arr(x), n_bins=H.arr(nb))
    r = H.items(r)
    H.observe("r", r)
    tot = 1
    for b in nb:
        tot = tot * b
    for i in range(n):
        H.check("in range", H.and_(H.ge(r[i], 0), H.le(r[i] + 1, tot)))
    same = H.and_(*[H.is_(x[0][c], x[1][c]) for c in range(d)])
    H.check("one number per combination", H.iff(same, H.is_(r[0], r[1])))


def determined(H, n, d, lim):
    """Bin counts determined from the data itself."""
    u = H.mod("utils")
    x = rows(H, n, d, lim)
    r, nb = u.multidim_binnos_to_lexicographic_binnos(H.arr(x))
    H.observe("r", r)
    H.observe("nb", nb)
    r, nb = H.items(r), H.items(nb)
    ok = [all(H.fork(H.finite(v)) for v in x[i]) and H.fork(H.and_(*[H.isle(0, v) for v in x[i]])) for i in range(n)]
    for j in range(d):
        m = 0.0
        for i in range(n):
            if ok[i] and H.fork(H.gt(x[i][j] + 1.0, m)):
                m = x[i][j] + 1.0
        H.check("number of bins = largest valid bin number + 1", H.eq(nb[j] * 1.0, m))
    tot = 1
    for b in nb:
        tot = tot * b
    for i in range(n):
        if ok[i]:
            e = 0.0
            for j in range(d):
                e = e * nb[j] + x[i][j]
            H.check("row-major number", H.eq(r[i] * 1.0, e))
        else:
            H.check("invalid rows get the extra last bin", H.eq(r[i], tot))


def row_independent(H, nb):
    """A row's number does not depend on which other rows are in the table."""
    u = H.mod("utils")
    d = len(nb)
    x = rows(H, 2, d, max(nb))
    both, _ = u.multidim_binnos_to_lexicographic_binnos(H.arr(x), n_bins=H.np.asarray(nb))
    one, _ = u.multidim_binnos_to_lexicographic_binnos(H.arr(x[:1]), n_bins=H.np.asarray(nb))
    H.observe("both", both)
    H.check("same number alone and together", H.eq(H.items(both)[0], H.items(one)[0]))


def inverse(H, nb):
    """The enumeration of all combinations is the inverse of the numbering."""
    u = H.mod("utils")
    a = u.arange_multi(nb)
    total = 1
    for b in nb:
        total *= b
    H.check("one row per combination", a.shape == (total, len(nb)))
    i = H.int("i", 0, total - 1)
    row = [a[i, j] if not H.symbolic else H.snp.SArr.__getitem__(a[:, j], i) for j in range(len(nb))]
    x = H.arr([[v * 1.0 for v in row]])
    r, _ = u.multidim_binnos_to_lexicographic_binnos(x, n_bins=H.np.asarray(nb))
    H.check("combination i is numbered i", H.eq(H.items(r)[0], i))
    for j in range(len(nb)):
        H.check("combination within range", H.and_(H.ge(row[j], 0), H.le(row[j], nb[j] - 1)))
    H.observe("row", row)


def slices(H, n, d):
    """Row validity: finite and not negative in every dimension."""
    u = H.mod("utils")
    x = rows(H, n, d, 3, fractional=True)
    if d == 1:
        X = H.arr([v[0] for v in x])
    else:
        X = H.arr(x)
    m = H.items(u.slice_finite_semi_positive(X))
    H.observe("m", m)
    for i in range(n):
        ok = all(H.fork(H.finite(v)) for v in x[i]) and H.fork(H.and_(*[H.isle(0.0, v) for v in x[i]]))
        H.check("valid iff all entries are finite and >= 0", H.iff(m[i], ok))


def harnesses(tier):
    hs = [
        Harness("given_2x3", given, dict(n=2, nb=[2, 3], frame=False), "2 rows, 2x3 bins"),
        Harness("given_3x2_frame", given, dict(n=2, nb=[3, 2], frame=True), "2 rows, 3x2 bins, data frame"),
        Harness("given_1d", given, dict(n=2, nb=[4], frame=False), "2 rows, 4 bins"),
        Harness("given_2x1x3", given, dict(n=1, nb=[2, 1, 3], frame=False), "1 row, 2x1x3 bins"),
        Harness("determined_d1", determined, dict(n=2, d=1, lim=3), "2 rows, 1 dimension, values up to 3"),
        Harness("determined_d2", determined, dict(n=2, d=2, lim=2), "2 rows, 2 dimensions, values up to 2"),
        Harness("steps_d3", steps, dict(d=3, lim=10), "3 dimensions of 1..10 bins"),
        Harness("counts_d2", symbolic_counts, dict(n=2, d=2, lim=6), "2 rows, 2 dimensions of any 1..6 bins"),
        Harness("row_independent", row_independent, dict(nb=[2, 3]), "2 rows, 2x3 bins"),
        Harness("inverse_2x3x2", inverse, dict(nb=[2, 3, 2]), "2x3x2 bins"),
        Harness("inverse_7x5", inverse, dict(nb=[7, 5]), "7x5 bins"),
        Harness("valid_d2", slices, dict(n=2, d=2), "2 rows, 2 columns"),
        Harness("valid_d1", slices, dict(n=3, d=1), "3 values"),
    ]
    if tier == "thorough":
        hs += [
            Harness("given_3x4x5", given, dict(n=2, nb=[3, 4, 5], frame=False), "2 rows, 3x4x5 bins", max_seconds=3000),
            Harness("given_n3_2x2", given, dict(n=3, nb=[2, 2], frame=True), "3 rows, 2x2 bins", max_seconds=3000),
            Harness("determined_n3_d2", determined, dict(n=3, d=2, lim=3), "3 rows, 2 dimensions", max_seconds=3000),
            Harness("steps_d5", steps, dict(d=5, lim=50), "5 dimensions", max_seconds=3000),
            Harness("counts_d3", symbolic_counts, dict(n=2, d=3, lim=4), "2 rows, 3 dimensions of any 1..4 bins", max_seconds=3000),
            Harness("inverse_4x5x6", inverse, dict(nb=[4, 5, 6]), "4x5x6 bins", max_seconds=3000),
        ]
    return hs
