"""Price model: demand factors times a power of the price ratio."""
from symx.runner import Harness

from checks import capture, cbstub
from checks.cbstub import INF, NAN

ASSUMPTIONS = ["bin estimates and smoothers of the training are arbitrary (stubbed); links are the identity in the training harnesses",
               "exp and log are uninterpreted with their monotonicity, sign and inverse axioms"]
OUTSIDE = "more rows, features or iterations than stated; rounding"

STD, EXT = ("a",), ("b",)


def stub(H, iters, std=("a",), ext=("b",), **kw):
    init = dict(external_colname="price", standard_feature_groups=list(std), external_feature_groups=list(ext) if ext is not None else None)
    for k in ("prior_exponent_colname", "var_prior_exponent"):
        if k in kw:
            init[k] = kw.pop(k)
    return cbstub.make(H, "log", None, iters=iters, free_loss=False, parent=H.mod("price").CBExponential, init=init, **kw)


DESIGN = {"a": [0.0, 1.0, 0.0, NAN], "b": [0.0, 0.0, 1.0, 1.0]}
PROBE = {"a": [1.0, 0.0, NAN, 0.0, 5.0], "b": [1.0, NAN, 0.0, 7.0, 1.0]}


def price_frame(H, d, price, **cols):
    return H.pd.DataFrame(dict({c: H.arr(v) for c, v in d.items()}, price=price, **cols))


def external_limits(groups):
    return {cbstub.tup(g): ((0.05, 20.0) if len(cbstub.tup(g)) == 1 else (0.1, 5.0)) for g in groups}


def exp(H, v):
    return H.items(H.np.exp(H.arr([v])))[0]


def account(H, iters, ext=("b",), prior=False, lo=-3, hi=3, design=None, probe=None):
    """predictions are the demand contributions plus (price - 1) times the prior exponent times exp of the price contributions"""
    design, probe = design or DESIGN, probe or PROBE
    est, log = stub(H, iters, ext=ext, lo=lo, hi=hi, rate=capture.one, prior_exponent_colname="pe" if prior else None)
    n = len(design["a"])
    tp = H.arr([0.5, 1.0, 2.0, 1.5][:n])
    y = H.arr([1.0, 2.0, 0.0, 3.0][:n])
    cols = {"pe": H.arr([-1.0, -2.0, -0.5, -1.0][:n])} if prior else {}
    est.fit(price_frame(H, design, tp, **cols), y)
    m = len(probe["a"])
    pr = H.reals("price", m, lo=0, hi=4)
    pe = H.reals("pe", m, lo=-3, hi=3) if prior else H.arr([-1.0] * m)
    got = H.items(est.predict(price_frame(H, probe, pr, **({"pe": pe} if prior else {}))))
    o = cbstub.Oracle(H, design, list(STD) + list(ext), "log", limits=external_limits(ext))
    cbstub.replay_account(H, log, o, lambda it: 1.0)
    scale = sum([1.0, 2.0, 0.0, 3.0][:n]) / n + 0.001  # mean target, kept away from zero
    for i, row in enumerate(cbstub.rows_of(probe)):
        dem, ex = scale, 0.0
        for g in STD:
            dem = dem + o.contribution(cbstub.tup(g), row)
        for g in ext:
            ex = ex + o.contribution(cbstub.tup(g), row)
        want = dem + (H.items(pr)[i] - 1.0) * (H.items(pe)[i] * exp(H, ex))
        H.check("prediction of the price model", H.eq(got[i], want))
        H.check("training visits demand and price features", len(log.calls) == iters * (1 + len(ext)))
    H.observe("got", H.arr(got))


def seen(H):
    """the estimates of an update see the current prediction of all features, including the price effect"""
    est, log = stub(H, 2, rate=capture.one, lo=-0.5, hi=0.5)
    tp = H.arr([0.5, 1.0, NAN, 1.5])
    est.fit(price_frame(H, DESIGN, tp), H.arr([1.0, 2.0, 0.0, 3.0]))
    o = cbstub.Oracle(H, DESIGN, ["a", "b"], "log", limits=external_limits(["b"]))
    before = cbstub.replay_account(H, log, o, lambda it: 1.0)
    for (it, g, raw, link), tot in zip(log.calls, before):
        o.total = tot
        for i, row in enumerate(cbstub.rows_of(DESIGN)):
            p = [0.5, 1.0, 1.0, 1.5][i]
            want = 1.501 + o.contribution(("a",), row) - (p - 1.0) * exp(H, o.contribution(("b",), row))
            H.check("prediction seen in training", H.eq(H.items(link)[i], want))


def monotone(H, prior):
    """demand falls with the price for negative prior exponents, and depends on the price only through it"""
    est, log = stub(H, 1, rate=capture.one, lo=-0.5, hi=0.5, prior_exponent_colname="pe" if prior else None)
    cols = {"pe": H.arr([-1.0, -2.0, -0.5, -1.0])} if prior else {}
    est.fit(price_frame(H, DESIGN, H.arr([0.5, 1.0, 2.0, 1.5]), **cols), H.arr([1.0, 2.0, 0.0, 3.0]))
    p, q = H.real("p", lo=0, hi=4), H.real("q", lo=0, hi=4)
    e = H.real("e", lo=-3, hi=3) if prior else -1.0
    d = {"a": [0.0] * 5, "b": [1.0] * 5}
    cols = {"pe": H.arr([e] * 5)} if prior else {}
    got = H.items(est.predict(price_frame(H, d, H.arr([p, q, 1.0, NAN, INF]), **cols)))
    H.assume(p < q)
    if prior and H.fork(H.gt(e, 0.0)):
        H.check("demand rises with the price for positive exponents", H.le(got[0], got[1]))
    else:
        H.check("demand does not rise with the price", H.ge(got[0], got[1]))
    H.check("without a valid price the reference price is used", H.and_(H.eq(got[2], got[3]), H.eq(got[2], got[4])))


def step(H, rows, bins):
    """first and second derivative of the documented loss, summed over the rows of each bin"""
    m = H.mod("price")
    n = len(rows)
    y, p = H.reals("y", n, lo=0, hi=5), H.reals("p", n, gt=0, hi=5)
    lx, k = H.reals("lx", n, lo=-2, hi=2), H.reals("k", n, lo=-3, lt=0)
    prior, lk = H.reals("prior", n, lo=-3, lt=0), H.reals("lk", n, lo=-2, hi=2)
    s = H.reals("s", n, lo=0, hi=2)
    l = H.reals("l", bins, gt=0, hi=4)
    v = H.real("v", gt=0, hi=2)
    args = (y, p, lx, k, prior, s, lk, v, H.np.asarray(rows), bins)
    new, jac, hess = m.newton_step(l, *args)
    only = m.newton_step(l, *args, only_jac=True)
    it = H.items
    L, J, Hs, N = it(l), it(jac), it(hess), it(new)
    y, p, lx, k, prior, lk, s = (it(a) for a in (y, p, lx, k, prior, lk, s))
    for b in range(bins):
        mine = [i for i in range(n) if rows[i] == b]
        j = h = 0.0
        ll = H.items(H.np.log(H.arr([L[b]])))[0]
        for i in mine:
            w = k[i] * lx[i]
            mu = p[i] * exp(H, (k[i] * L[b]) * lx[i])
            j = j - 2 * w * mu * (y[i] - mu) * s[i] + 2 * (k[i] * (k[i] * L[b] - prior[i]) + L[b] - 1 + (lk[i] + 2 * ll) / L[b]) / v / len(mine)
            h = h + 4 * w * w * mu * mu * s[i] - 2 * w * w * mu * y[i] * s[i] + 2 * (k[i] * k[i] + 1 + (2 - lk[i] - 2 * ll) / L[b] / L[b]) / v / len(mine)
        H.check("first derivative", H.and_(H.eq(J[b], j), H.eq(it(only)[b], j)))
        H.check("second derivative", H.eq(Hs[b], h))


def bracket(H, iters, free_start):
    """whatever the derivatives are, the result stays within the bounds and has a positive variance"""
    m = H.mod("price")
    calls = [0]

    def fake(l, *args, **kw):
        calls[0] += 1
        c = calls[0]
        jac = H.reals("j%d" % c, 1, lo=-3, hi=3)
        if kw.get("only_jac"):
            return jac
        if c == 2 and H.choose("nan", [False, True]):
            return H.arr([NAN]), H.arr([NAN]), H.arr([1.0])
        return H.reals("n%d" % c, 1, lo=-5, hi=9), jac, H.reals("h%d" % c, 1, lo=-2, hi=2)

    xr = H.arr([H.real("xr", gt=0, hi=2)])
    H.assume(H.items(xr)[0] >= 1.0)
    start = H.arr([H.real("start", lo=0, hi=2)]) if free_start else None
    with patched(m, fake):
        l, var, a, b = m.newton_bisect(fake, (), H.np.array([True]), H.arr([0.0]), xr, maximal_iterations=iters, start_values=start)
    l, var, a, b = (H.items(x)[0] for x in (l, var, a, b))
    H.check("within the bounds", H.and_(H.le(a, l), H.le(l, b)))
    H.check("lower bound is kept", H.eq(a, 0.0))
    H.check("positive variance", H.fork(H.finite(var)) is False or H.gt(var, 0))


def unusable(H, iters, late):
    """a bin without valid rows, or whose derivatives are not finite, stays neutral while the others are solved"""
    m = H.mod("price")
    calls = [0]

    def fake(l, *args, **kw):
        calls[0] += 1
        c = calls[0]
        jac = H.real("j%d" % c, lo=-3, hi=3)
        if kw.get("only_jac"):
            return H.arr([jac, 0.5])
        bad = NAN if c >= 2 or not late else 0.5
        return H.arr([H.real("n%d" % c, lo=-5, hi=9), bad]), H.arr([jac, bad]), H.arr([H.real("h%d" % c, lo=-2, hi=2), bad])

    with patched(m, fake):
        l, var, a, b = m.newton_bisect(fake, (), H.np.array([True, bool(late)]), H.arr([0.0, 0.0]), H.arr([2.0, 2.0]),
                                       maximal_iterations=iters, start_values=H.arr([1.0, 1.0]))
    l, var = H.items(l), H.items(var)
    H.check("within the bounds", H.and_(H.le(0, l[0]), H.le(l[0], H.items(b)[0])))
    if not late:
        H.check("an unusable bin stays neutral", H.eq(l[1], 1.0))
    else:
        H.check("an unusable bin stays within the bounds", H.and_(H.le(0, l[1]), H.le(l[1], 2.0)))


def exponent(H, rows, free, ac=(1.0, 0.0)):
    """estimates of the price effect use the rows of the bin that have a valid price, with their weights and variances"""
    base = H.mod("price").CBExponential
    it = H.items

    class Q(base):
        # any start is accepted as solution, so that the estimate shows the curvature of the loss there
        def __init__(self, **kw):
            base.__init__(self, **kw)
            self.epsilon_jacobian = 1e9

        def link_func(self, m):
            return m * 1.0

        def unlink_func(self, l):
            return l * 1.0

    n = len(rows)
    price = [0.5, 2.0, NAN, 1.5, 0.75][:n]
    # the weighted mean target is constant
    ws = [1.0, 2.0, 0.5, 1.0, 1.5][:n]
    ys = [1.0, 2.0, 3.0, 1.0, 2.0][:n]
    v = H.real("v", lo=0, hi=4)
    i, j = free
    ys[i], ys[j] = v / ws[i], (4.0 - v) / ws[j]
    y, ws = H.arr(ys), H.arr(ws)
    X = H.pd.DataFrame({"a": H.arr([0.0] * n), "b": H.arr([float(r) for r in rows]), "price": H.arr(price), "w": ws})
    rec = capture.estimates(H, Q, X, y, calls=2, external_colname="price", standard_feature_groups=["a"], external_feature_groups=["b"],
                            weight_column="w", learn_rate=lambda i, m, f=None: 0.0, smoother_choice=capture.plain_choice(H), a=ac[0], c=ac[1],
                            maximal_iterations=2, var_prior_exponent=0.125)
    y, w = it(y), it(ws)
    W = capture.sum_(w)
    scale = capture.sum_([a * b for a, b in zip(y, w)]) / W + 0.001
    gi = H.scipy("special").gammaincinv
    g, est, unc = rec[1]
    H.check("order of the features", H.and_(rec[0][0] == ("a",), g == ("b",)))
    for b in range(max(rows) + 1):
        mine = [i for i in range(n) if rows[i] == b]
        h = 0.0
        for i in mine:
            h = h + 2 * (1 + 1 + 2.0) / 0.125 / len(mine)
            if price[i] == price[i]:
                u = price[i] - 1.0
                p = scale - u
                mu = scale * H.np.exp(H.np.float64(-u))
                s = w[i] / (ac[0] * p + ac[1] * p * p)
                h = h + (4 * u * u * mu * mu - 2 * u * u * mu * y[i]) * s
        H.assume(h > 0.5)
        want = H.np.log(H.arr([it(gi(H.arr([h + 2]), 0.5))[0] / (h + 1.67834)]))
        H.check("estimate of the price effect", H.eq(est[b], it(want)[0]))


class patched:
    def __init__(self, m, fake):
        self.m, self.fake = m, fake

    def __enter__(self):
        self.old = self.m.newton_step
        self.m.newton_step = self.fake

    def __exit__(self, *a):
        self.m.newton_step = self.old


def groups(H):
    m = H.mod("price")

    def build(s, e):
        return m.CBExponential(external_colname="price", standard_feature_groups=s, external_feature_groups=e)

    ft = H.mod("features")
    sid, eid = ft.FeatureID(("a",), None), ft.FeatureID(("b",), ft.FeatureTypes.external)
    H.check("no standard features", H.raises(ValueError, build, None, ["b"])[0])
    H.check("external among the standard ones", H.raises(ValueError, build, [eid], ["b"])[0])
    H.check("standard among the external ones", H.raises(ValueError, build, ["a"], [sid])[0])
    est = build(["a", ("a", "c")], ["b", eid])
    H.check("groups and types", [(f.feature_group, f.feature_type) for f in est.feature_groups] == [
        (("a",), None), (("a", "c"), None), (("b",), ft.FeatureTypes.external), (("b",), ft.FeatureTypes.external)])
    cols = m.CBExponential(external_colname="price", standard_feature_groups=["a"], external_feature_groups=["b"], weight_column="w",
                           prior_exponent_colname="pe").required_columns()
    H.check("required columns", set(cols) == {"a", "b", "price", "w", "pe"})


def whole(H):
    """fit_transform is fit and predict"""
    X = price_frame(H, DESIGN, H.arr([0.5, 1.0, NAN, 1.5]))
    y = H.arr([1.0, 2.0, 0.0, 3.0])
    est, log = stub(H, 1, rate=capture.one, lo=-0.5, hi=0.5, output="new")
    Z = est.fit_transform(X, y)
    got = H.items(Z["new"].values)
    want = H.items(est.predict(price_frame(H, DESIGN, H.arr([0.5, 1.0, NAN, 1.5]))))
    H.check("in-sample predictions", H.all_([H.eq(a, b) for a, b in zip(got, want)]))


def harnesses(tier):
    out = []

    def add(hname, fn, b, **p):
        out.append(Harness(hname, fn, p, b))

    add("account1", account, "4 rows, 1 iteration, any estimates in [-3, 3] and prices", iters=1)
    add("account2", account, "4 rows, 2 iterations, any estimates in [-0.5, 0.5] and prices", iters=2, lo=-0.5, hi=0.5)
    add("account_prior", account, "4 rows, 1 iteration, any estimates, prices and prior exponents", iters=1, prior=True, lo=-0.5, hi=0.5)
    add("account_pair", account, "4 rows, price effect of a pair of columns", iters=1, ext=(("a", "b"),), lo=-0.5, hi=0.5)
    add("seen", seen, "4 rows, 2 iterations")
    for prior in (False, True):
        add("monotone%d" % prior, monotone, "any two prices, any estimates", prior=prior)
    add("step1", step, "2 rows in one bin, any values", rows=[0, 0], bins=1)
    add("step2", step, "2 rows in 2 bins, any values", rows=[1, 0], bins=2)
    for fs in (False, True):
        add("bracket%d" % fs, bracket, "2 iterations, any derivatives", iters=2, free_start=fs)
    add("unusable", unusable, "2 bins, 2 iterations, any derivatives", iters=2, late=False)
    add("unusable_late", unusable, "2 bins, 2 iterations, any derivatives", iters=2, late=True)
    add("exponent", exponent, "4 rows in 2 bins, any two targets of given sum", rows=[0, 1, 1, 0], free=(0, 3))
    add("exponent_missing", exponent, "4 rows in 2 bins, one of the two arbitrary targets without price", rows=[0, 1, 1, 0], free=(1, 2))
    add("exponent_nb", exponent, "4 rows in 2 bins, any two targets of given sum, negative binomial variance", rows=[0, 1, 0, 1], free=(0, 1), ac=(1.0, 0.5))
    add("groups", groups, "configurations of feature groups")
    add("whole", whole, "4 rows, 1 iteration")
    return out
