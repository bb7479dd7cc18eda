"""The real Cyclic Boosting training loop around arbitrary per-bin estimates.

``Stub`` is a subclass of the package's base estimator.  Its bin estimates
(calc_parameters), its smoothers and its loss return arbitrary values (fresh
symbolic inputs on every call), so that whatever holds for it holds for every
loss, smoother and model type within the bounds; everything else is the real
code of the package.
"""


class Log:
    """What the stub has handed out; the oracle's view of the training."""

    def __init__(self):
        self.calls = []  # (iteration, group, raw estimates, link prediction seen)
        self.fits = []  # (group, smoothed values)
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)


def lin_rate(it, mx):
    """documented default: half linear"""
    v = it / (mx * 0.5)
    return min(v, 1.0)


def make(H, link, groups, props=None, aggregate=True, iters=2, hier=None, hier_iters=1, rate=None, prior=None, weight=None,
         nan_bins=(), nan_missing=False, max_diverged=0, min_factor=-1.0, min_loss=-1.0, free_loss=True, lo=-3, hi=3, observers=None,
         output="out", real_link=False, signs=None, parent=None, init=None):
    base = H.mod("base")
    links = H.mod("link")
    cs = H.mod("common_smoothers")
    sb = H.mod("smoothing.base")
    log = Log()
    np = H.np

    def values(k, n):
        if signs is None:
            return H.reals(k, n, lo=lo, hi=hi)
        # values of known sign, away from zero
        return H.arr([H.real("%s_%d" % (k, i), **(dict(lo=0.125, hi=hi) if signs[i % len(signs)] > 0 else dict(lo=lo, hi=-0.125))) for i in range(n)])

    class AnySmoother(sb.AbstractBinSmoother):
        def __init__(self, group=None):
            self.group = group

        def fit(self, X, y):
            self.X = X
            k = log.fresh("s")
            v = values(k, len(y))
            if nan_bins:
                v = H.arr([np.float64("nan") if i in nan_bins else x for i, x in enumerate(H.items(v))])
            self.v = v
            log.fits.append((self.group, v))
            return self

        def predict(self, X):
            # bins are enumerated in row-major order in X of the fit
            k = X.shape[1]
            rows = [tuple(r) for r in _rows(H, self.X[:, :k])]
            out = [self.v[rows.index(tuple(r))] for r in _rows(H, X)]
            return H.arr(out)

    class Choice(cs.SmootherChoice):
        def choice_fct(self, feature_group, feature_property, feature_type=None):
            return AnySmoother(feature_group)

    parents = (parent,) if parent else (base.CyclicBoostingBase, {"log": links.LogLinkMixin, "identity": links.IdentityLinkMixin, "logit": links.LogitLinkMixin}[link])

    class Stub(*parents):
        def _check_y(self, y):
            pass

        def precalc_parameters(self, feature, y, pred):
            return None

        def calc_parameters(self, feature, y, pred, prefit_data):
            k = log.fresh("f")
            v = values(k, feature.n_bins)
            if nan_missing:
                it = H.items(v)
                v = H.arr(it[:-1] + [np.float64("nan")])
            log.calls.append((self.iteration_, feature.feature_group, v.copy(), H.arr(H.items(pred.predict_link()))))
            return v, np.ones(feature.n_bins)

        def loss(self, prediction, y, weights):
            if not free_loss:
                return np.float64(1.0)
            v = H.real(log.fresh("l"), lo=0, hi=100)
            if log.first_loss is None:
                log.first_loss = v
                H.assume(v >= 0.01)
            elif log.diverged >= max_diverged:
                H.assume(v <= 2 * log.first_loss)
            elif H.fork(H.gt(v, 2 * log.first_loss)):
                log.diverged += 1
            return v

    if not real_link:
        # P13 decides the link functions themselves; here they only label the space
        Stub.link_func = lambda self, m: m * 1.0
        Stub.unlink_func = lambda self, l: l * 1.0
    log.first_loss = None
    log.diverged = 0
    if parent:
        est = Stub(minimal_loss_change=min_loss, minimal_factor_change=min_factor, maximal_iterations=iters, smoother_choice=Choice(),
                   learn_rate=rate, feature_properties=props, weight_column=weight, prior_prediction_column=prior, output_column=output,
                   observers=observers, **init)
        return est, log
    est = Stub(feature_groups=groups, hierarchical_feature_groups=hier, training_iterations_hierarchical_features=hier_iters,
               feature_properties=props, weight_column=weight, prior_prediction_column=prior, minimal_loss_change=min_loss,
               minimal_factor_change=min_factor, maximal_iterations=iters, smoother_choice=Choice(), learn_rate=rate,
               aggregate=aggregate, output_column=output, observers=observers)
    return est, log


def _rows(H, X):
    n, k = X.shape
    it = H.items(X)
    return [tuple(int(v) for v in it[i * k:(i + 1) * k]) for i in range(n)]


def is_valid(H, v):
    """concrete bin number (the harnesses only use concrete bins)"""
    return v == v and v not in (float("inf"), float("-inf")) and v >= 0


NAN = float("nan")
INF = float("inf")


def frame(H, d):
    return H.pd.DataFrame({c: H.arr(v) for c, v in d.items()})


def tup(g):
    return g if isinstance(g, tuple) else (g,)


class Oracle:
    """Independent account of the training: which value each bin of each group
    has after the updates the stub handed out."""

    def __init__(self, H, design, groups, link, aggregate=True, not_learned=(), limits=None):
        self.H, self.link, self.aggregate, self.not_learned, self.limits = H, link, aggregate, not_learned, limits
        self.groups = [tup(g) for g in groups]
        self.gb = {}
        for g in self.groups:
            rows = [[design[c][i] for c in g] for i in range(len(design[g[0]]))]
            ok = [r for r in rows if all(is_valid(H, v) for v in r)]
            self.gb[g] = [max(int(r[k]) for r in ok) + 1 if ok else 0 for k in range(len(g))]
        self.total = {}

    def size(self, g):
        n = 1
        for k in self.gb[g]:
            n *= k
        return n

    def bin_of(self, g, row):
        """row-major number, None (missing) or -1 (never seen in training)"""
        for c in g:
            if not is_valid(self.H, row[c]):
                return None
        n = 0
        for c, k in zip(g, self.gb[g]):
            if int(row[c]) >= k:
                return -1
            n = n * k + int(row[c])
        return n

    def update(self, g, smoothed, raw_missing, rate):
        """apply one update of group g"""
        H = self.H
        fin = [H.items(smoothed)[i] if smoothed is not None else 0.0 for i in range(self.size(g))]
        vals = [0.0 if _nonfinite(v) else rate * v for v in fin]
        m = 0.0 if g in self.not_learned or _nonfinite(raw_missing) else rate * raw_missing
        vals.append(m)
        if self.link == "log" and self.aggregate:
            lo, hi = _log(0.5), _log(2.0)
            vals = [H.clip(v, lo, hi) for v in vals]
            if g in self.total:
                a, b = (self.limits or {}).get(g, (0.01, 1000.0) if len(g) == 1 else (0.1, 100.0))
                vals = [H.clip(v, _log(a) - t, _log(b) - t) for v, t in zip(vals, self.total[g])]
        if self.aggregate and g in self.total:
            vals = [t + v for t, v in zip(self.total[g], vals)]
        self.total[g] = vals

    def contribution(self, g, row):
        if g not in self.total:
            return 0.0
        b = self.bin_of(g, row)
        if b is None:
            return self.total[g][-1]
        if b == -1:
            return 0.0
        return self.total[g][b]

    def link_prediction(self, base, row, without=None):
        p = base
        for g in self.groups:
            if g != without:
                p = p + self.contribution(g, row)
        return p


def _log(x):
    import math

    return math.log(x)


def _nonfinite(v):
    return isinstance(v, float) and (v != v or v in (INF, -INF))


def rows_of(d):
    n = len(next(iter(d.values())))
    return [{c: v[i] for c, v in d.items()} for i in range(n)]


def replay_account(H, log, oracle, rates):
    """Feed everything the stub handed out to the oracle; returns the state of
    the totals before each call."""
    before = []
    fits = list(log.fits)
    for it, g, raw, seen in log.calls:
        before.append({k: list(v) for k, v in oracle.total.items()})
        sm = None
        if oracle.size(g) > 0:
            fg, sm = fits.pop(0)
            assert fg == g, (fg, g)
        oracle.update(g, sm, H.items(raw)[-1], rates(it))
    return before
