"""Interaction terms: all combinations, binned jointly, the best ones chosen."""
import contextlib

import sklearn.feature_selection

from symx.runner import Harness

from checks.cbstub import NAN

ASSUMPTIONS = ["sklearn's SelectKBest is replaced by a stand-in that records what it is given and chooses arbitrary terms"]
OUTSIDE = "the scores of the terms (compiled code of sklearn); more rows or features than stated"


def choose(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def combos(H, n, dim):
    m = H.mod("interaction_selection")
    f = ["c%d" % i for i in range(n)][::-1]
    f0 = list(f)
    r = m.create_interactions(f, dim)
    H.check("the features are left alone", f == f0)
    H.check("every term has two to dim features", all(2 <= len(t) <= dim for t in r))
    H.check("terms name given features, each once", all(set(t) <= set(f) and len(set(t)) == len(t) for t in r))
    H.check("no combination appears twice", len(set(frozenset(t) for t in r)) == len(r))
    H.check("no combination is missing", len(r) == sum(choose(n, k) for k in range(2, dim + 1)))
    # an arbitrary pair of positions is there (one solver query over all of them)
    i = H.int("i", 0, n - 1)
    j = H.int("j", 0, n - 1)
    H.assume(H.lt(i, j))
    H.check("any pair of features is a term", H.or_(*[H.and_(H.eq(i, f.index(t[0])), H.eq(j, f.index(t[1]))) for t in r if len(t) == 2]))


def data(H, n, kinds):
    """columns: c continuous, u unordered; the first one with arbitrary values"""
    fl = H.mod("flags")
    fixed = {"b": [3.0, 1.0, 3.0, 1.0], "c": [0.5, 0.5, 7.0, NAN]}
    cols = {"a": H.reals("x", n, lo=-4, hi=4)}
    for c in list(kinds)[1:]:
        cols[c] = H.arr(fixed[c][:n])
    props = {c: {"c": fl.IS_CONTINUOUS, "u": fl.IS_UNORDERED | fl.HAS_MISSING, "o": fl.IS_ORDERED}[k] for c, k in kinds.items()}
    return cols, props


def singles(H, cols, props, n, nb):
    """bin numbers of the single features; None where missing"""
    b = H.mod("binning")
    out = {}
    for c in cols:
        X = H.pd.DataFrame({k: v.copy() for k, v in cols.items()})
        t = b.BinNumberTransformer(n_bins=nb, feature_properties=props, inplace=False).fit(X)
        v = H.items(t.transform(X)[c].values)
        out[c] = [None if H.fork(H.or_(H.isnan(x), H.lt(x, 0))) else x for x in v]
    return out


def features(H, n, kinds, terms, nb):
    m = H.mod("interaction_selection")
    cols, props = data(H, n, kinds)
    X = H.pd.DataFrame({k: v.copy() for k, v in cols.items()})
    kw = {} if nb is None else {"number_of_bins": nb}
    r = m.build_binned_interaction_features(X, terms, props, **kw)
    for c in cols:
        H.check("the data is left alone", H.arr_eq(X[c].values, cols[c]))
    H.check("a column per term", list(r.columns) == list(terms))
    one = singles(H, cols, props, n, nb or 100)
    for t in terms:
        v = H.items(r[t].values)
        H.check("a value per row", len(v) == n)
        for i in range(n):
            for j in range(i):
                mi, mj = [any(one[c][k] is None for c in t) for k in (i, j)]
                if mi or mj:
                    H.check("rows with missing values are set apart", H.iff(mi and mj, H.eq(v[i], v[j])))
                    continue
                same = H.and_(*[H.eq(one[c][i], one[c][j]) for c in t])
                H.check("two rows have the same number exactly if all their bins agree", H.iff(H.eq(v[i], v[j]), same))
    H.observe("v", H.arr(H.items(r[terms[0]].values)))


@contextlib.contextmanager
def selecting(H, m, seen, chosen):
    class Select:
        def __init__(self, score_func=None, k=10):
            seen["score"], seen["k"] = score_func, k

        def fit(self, X, y=None):
            seen["X"], seen["y"] = X, y
            return self

        def get_feature_names_out(self, input_features=None):
            names = list(input_features)
            seen["names"] = names
            return [names[i] for i in chosen]

        def get_support(self, indices=False):
            n = len(list(seen["X"].columns))
            return list(chosen) if indices else H.np.array([i in chosen for i in range(n)])

    undo = []
    for o in (m, sklearn.feature_selection):
        if "SelectKBest" in vars(o):
            undo.append((o, o.SelectKBest))
            o.SelectKBest = Select
    try:
        yield
    finally:
        for o, v in undo:
            o.SelectKBest = v


def select(H, classification, k, dim):
    m = H.mod("interaction_selection")
    n = 3
    cols, props = data(H, n, {"a": "u", "b": "o", "c": "u"})
    X = H.pd.DataFrame({k: v.copy() for k, v in cols.items()})
    y = H.reals("y", n, lo=-3, hi=3)
    seen = {}
    nt = sum(choose(3, q) for q in range(2, dim + 1))
    a = H.choose("a", range(nt))
    b = H.choose("b", range(nt))
    if k == 2:
        H.assume(a < b)
    chosen = [a] if k == 1 else [a, b]
    kw = {} if classification is None else {"classification": classification}
    with selecting(H, m, seen, chosen):
        r = m.select_interaction_terms_anova(X, y, props, dim, k, **kw)
    H.check("as many terms as asked for", len(r) == k and seen["k"] == k)
    H.check("scored for the kind of target", getattr(seen["score"], "__name__", "") == ("f_classif" if classification else "f_regression"))
    H.check("scored against the targets", H.arr_eq(H.arr(H.items(seen["y"])), H.arr(H.items(y))))
    terms = list(seen["X"].columns)
    H.check("all terms are scored", len(terms) == nt and len(set(frozenset(t) for t in terms)) == nt)
    H.check("the chosen terms are returned", [tuple(t) for t in r] == [terms[i] for i in chosen])
    ref = m.build_binned_interaction_features(X, terms, props)
    for t in terms:
        H.check("scored by their joint bins", H.arr_eq(seen["X"][t].values, ref[t].values))


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        out.append(Harness(name, fn, p, b))

    for n, d in ((3, 2), (4, 3), (3, 3), (5, 4)):
        add("combos_%d_%d" % (n, d), combos, "%d features, terms of up to %d" % (n, d), n=n, dim=d)
    add("features_uo", features, "3 rows, any values of the first feature", n=3, kinds={"a": "u", "b": "o"}, terms=[("a", "b")], nb=None)
    add("features_c", features, "3 rows, any values of the first feature, 2 bins", n=3, kinds={"a": "c", "b": "u"}, terms=[("b", "a")], nb=2)
    add("features_3", features, "4 rows, one of them missing", n=4, kinds={"a": "u", "b": "o", "c": "u"}, terms=[("a", "c"), ("a", "b", "c")], nb=None)
    for c in (None, False, True):
        add("select_%s" % c, select, "3 rows, any values, any choice of one term", classification=c, k=1, dim=2)
    add("select_2", select, "3 rows, any values, any choice of two terms", classification=False, k=2, dim=3)
    return out
