"""Real estimators whose bin estimates are recorded."""
from checks import cbstub
from checks.cbstub import NAN, frame, tup  # noqa: F401


class Done(Exception):
    pass


def estimates(H, cls, X, y, calls=1, **kw):
    """Train the real estimator up to the given number of feature updates and
    return what it estimated in them: (group, estimates, uncertainties)."""
    rec = []

    class Recording(cls):
        def calc_parameters(self, feature, y, pred, prefit_data):
            v, u = super().calc_parameters(feature, y, pred, prefit_data)
            rec.append((feature.feature_group, H.items(v), H.items(u)))
            if len(rec) == calls:
                raise Done()
            return v, u

        def loss(self, prediction, y, weights):
            # only decides how long to go on, which the exception above does
            return H.np.float64(1.0)

    est = Recording(**kw)
    H.raises(Done, est.fit, X, y)
    return rec


def plain_choice(H):
    """smoother choice whose smoothers return the estimates unchanged"""
    cs = H.mod("common_smoothers")
    sb = H.mod("smoothing.base")

    class Plain(sb.AbstractBinSmoother):
        def fit(self, X, y):
            self.rows = cbstub._rows(H, X[:, :X.shape[1] - 2])
            self.v = H.items(y)
            return self

        def predict(self, X):
            return H.arr([self.v[self.rows.index(r)] for r in cbstub._rows(H, X)])

    class Choice(cs.SmootherChoice):
        def choice_fct(self, feature_group, feature_property, feature_type=None):
            return Plain()

    return Choice()


def one(iteration, maximum, feature=None):
    return 1.0


def sum_(xs, start=0.0):
    s = start
    for x in xs:
        s = s + x
    return s


def bins(design, g):
    """row-major numbers of concrete rows; -1 for missing; and the number of bins"""
    g = tup(g)
    n = len(design[g[0]])
    ok = [i for i in range(n) if all(cbstub.is_valid(None, design[c][i]) for c in g)]
    sizes = [max([int(design[c][i]) for i in ok] or [-1]) + 1 for c in g]
    out = []
    for i in range(n):
        if i not in ok:
            out.append(-1)
            continue
        b = 0
        for c, k in zip(g, sizes):
            b = b * k + int(design[c][i])
        out.append(b)
    tot = 1
    for k in sizes:
        tot *= k
    return out, tot
