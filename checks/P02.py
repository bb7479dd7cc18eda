"""Discrete (ordered/unordered) binning: rank of seen values, everything else missing."""
from symx.runner import Harness

ASSUMPTIONS = ["probes closer to a seen value than 1e-3 of the smallest gap, but different from it, are a don't-care zone "
               "(the binning's float comparison slack)"]
OUTSIDE = "more rows / categories than stated"


def run(H, n, kind, frame, kinds=("finite", "nan")):
    b = H.mod("binning.bin_number_transformer")
    fl = H.mod("flags")
    prop = {"ordered": fl.IS_ORDERED, "unordered": fl.IS_UNORDERED, "unordered_missing": fl.IS_UNORDERED | fl.HAS_MISSING,
            "magic": fl.IS_UNORDERED | fl.HAS_MAGIC_INT_MISSING}[kind]
    x = H.anyfloats("x", n, kinds=kinds)
    vals = H.items(x)
    fin = [v for v in vals if H.fork(H.finite(v))]
    t = b.BinNumberTransformer(feature_properties={"f": prop} if frame else {0: prop})
    t.fit(H.pd.DataFrame({"f": x}) if frame else x.reshape(n, 1).copy())
    p = H.anyfloats("p", 1)
    pv = H.items(p)[0]
    q = H.arr(vals + [pv])
    if frame:
        out = t.transform(H.pd.DataFrame({"f": q}))["f"].values
    else:
        out = t.transform(q.reshape(n + 1, 1).copy())[:, 0]
    o = H.items(out)
    H.observe("out", out)

    def magicval(v):
        return H.or_(H.is_(v, -9), H.is_(v, -999)) if kind == "magic" else H.and_(False)

    for i, v in enumerate(vals):
        if not H.fork(H.finite(v)) or H.fork(magicval(v)):
            H.check("missing training values map to the missing bin", H.eq(o[i], -1))
            continue
        H.check("seen values get a bin", H.ge(o[i], 0))
        for j, w in enumerate(vals):
            if H.fork(H.finite(w)) and not H.fork(magicval(w)):
                H.check("bin order is value order", H.and_(H.implies(H.is_(v, w), H.eq(o[i], o[j])),
                                                           H.implies(H.lt(v, w), H.le(o[i] + 1, o[j]))))
        # rank = number of distinct smaller values
        smaller = []
        for a in range(len(fin)):
            new = H.and_(H.lt(fin[a], v), *[H.not_(H.is_(fin[c], fin[a])) for c in range(a)])
            smaller.append(new)
        cnt = sum(1 if H.fork(s) else 0 for s in smaller)
        H.check("bins are numbered consecutively from 0", H.eq(o[i], cnt))
    if not H.fork(H.finite(pv)) or H.fork(magicval(pv)):
        H.check("missing values map to the missing bin", H.eq(o[n], -1))
        return
    seen = H.or_(False, *[H.is_(pv, v) for v in fin])
    if H.fork(seen):
        for i, v in enumerate(vals):
            if H.fork(H.finite(v)):
                H.check("a seen value keeps its bin", H.implies(H.is_(pv, v), H.eq(o[n], o[i])))
    else:
        # far from all seen values
        far = []
        gap = None
        for a in range(len(fin)):
            for c in range(a):
                d = fin[a] - fin[c]
                if H.fork(H.lt(d, 0.0)):
                    d = -d
                if H.fork(H.gt(d, 0.0)) and (gap is None or H.fork(H.lt(d, gap))):
                    gap = d
        gap = 1.0 if gap is None else gap
        for v in fin:
            H.assume(H.or_(H.gt(pv, v + gap * 1e-3), H.lt(pv, v - gap * 1e-3)))
        H.check("unseen values map to the missing bin", H.eq(o[n], -1))


def state(H, k):
    """Any fitted state with k categories (not only those reachable by tiny fits)."""
    b = H.mod("binning.bin_number_transformer")
    fl = H.mod("flags")
    c = H.reals("c", k, lo=-1000, hi=1000)
    for j in range(k - 1):
        H.assume(c[j + 1] >= c[j] + 0.01)
    bc = H.np.empty((k + 1, 2))
    bc[0, 0] = c[0]
    bc[1:, 0] = c
    bc[:, 1] = H.arr([float(i) / k for i in range(k + 1)])
    t = b.BinNumberTransformer(feature_properties={"f": fl.IS_UNORDERED})
    t.bins_and_cdfs_ = [("f", 1e-11, bc)]
    p = H.anyfloats("p", 1, lo=-2000, hi=2000)
    pv = H.items(p)[0]
    o = H.items(t.transform(H.pd.DataFrame({"f": p}))["f"].values)[0]
    H.observe("o", o)
    if not H.fork(H.finite(pv)):
        H.check("missing stays missing", H.eq(o, -1))
        return
    for j in range(k):
        H.check("seen category gets its own bin", H.implies(H.is_(pv, c[j]), H.eq(o, j)))
    H.check("unseen category is missing",
            H.implies(H.and_(*[H.or_(H.gt(pv, c[j] + 1e-4), H.lt(pv, c[j] - 1e-4)) for j in range(k)]), H.eq(o, -1)))


def harnesses(tier):
    hs = [
        Harness("fit_n3_unordered_frame", run, dict(n=3, kind="unordered", frame=True), "3 training rows (finite or NaN), 1 probe"),
        Harness("fit_n3_ordered_array", run, dict(n=3, kind="ordered", frame=False), "3 training rows (finite or NaN), 1 probe"),
        Harness("fit_n2_missing_frame", run, dict(n=2, kind="unordered_missing", frame=True), "2 training rows, 1 probe"),
        Harness("fit_n2_magic_frame", run, dict(n=2, kind="magic", frame=True, kinds=("finite",)), "2 training rows, 1 probe, -9/-999 are missing"),
        Harness("state_k6", state, dict(k=6), "any 6 categories, 1 probe incl. NaN/inf"),
    ]
    if tier == "thorough":
        hs += [
            Harness("fit_n4_unordered_frame", run, dict(n=4, kind="unordered", frame=True), "4 training rows (finite or NaN), 1 probe", max_seconds=3000),
            Harness("fit_n4_ordered_array", run, dict(n=4, kind="ordered", frame=False, kinds=("finite",)), "4 training rows, 1 probe", max_seconds=3000),
            Harness("state_k20", state, dict(k=20), "any 20 categories, 1 probe", max_seconds=3000),
        ]
    return hs
