"""Feature-property flags: consistency and what they select."""
from symx.runner import Harness

ASSUMPTIONS = ["flag values are unions of the exported flag constants"]
OUTSIDE = "bits beyond the 13 defined ones"

NAMES = ["IS_CONTINUOUS", "IS_ORDERED", "IS_UNORDERED", "IS_MONOTONIC", "HAS_MISSING", "MISSING_NOT_LEARNED", "USE_ORIGINAL",
         "CORR_TO_WIDTH", "IS_LINEAR", "IS_SEASONAL", "HAS_MAGIC_INT_MISSING", "INCREASING", "DECREASING"]
PRED = {"IS_CONTINUOUS": "is_continuous_set", "IS_ORDERED": "is_ordered_set", "IS_UNORDERED": "is_unordered_set",
        "IS_MONOTONIC": "is_monotonic_set", "HAS_MISSING": "has_missing_set",
        "MISSING_NOT_LEARNED": "missing_not_learned_set", "IS_LINEAR": "is_linear_set", "IS_SEASONAL": "is_seasonal_set",
        "HAS_MAGIC_INT_MISSING": "has_magic_missing_set", "INCREASING": "increasing_set", "DECREASING": "decreasing_set"}


def value(H, fl, name="v", given=()):
    """Any union of flag constants: (value, {constant name: is it included})."""
    v = H.bits(name, 16)
    consts = [getattr(fl, n) for n in NAMES]
    allbits = 0
    for c in consts:
        allbits |= c
    H.assume((v & ~allbits) == 0)
    for c in consts:
        # a constant made of several bits brings all of them
        own = c
        for o in consts:
            if o != c and o & c == o:
                own &= ~o
        H.assume(H.implies((v & own) != 0, (v & c) == c))
    inc = {n: (v & c) == c for n, c in zip(NAMES, consts)}
    return v, inc


def algebra(H):
    fl = H.mod("flags")
    consts = {n: getattr(fl, n) for n in NAMES}
    H.check("flags are distinct", len(set(consts.values())) == len(NAMES))
    implied = {"IS_MONOTONIC": "IS_CONTINUOUS", "MISSING_NOT_LEARNED": "HAS_MISSING", "HAS_MAGIC_INT_MISSING": "HAS_MISSING"}
    v, inc = value(H, fl)
    i = H.choose("flag", sorted(PRED))
    got = getattr(fl, PRED[i])(v)
    # adding a flag makes it visible and leaves the independent ones alone
    H.check("predicate = inclusion", H.iff(got, inc[i]))
    H.check("adding a flag sets it", getattr(fl, PRED[i])(v | consts[i]))
    for j in PRED:
        if j != i and implied.get(i) != j:
            H.check("adding a flag leaves other flags alone",
                    H.iff(getattr(fl, PRED[j])(v | consts[i]), getattr(fl, PRED[j])(v)))
        if implied.get(i) == j:
            H.check("implied flag", H.implies(got, getattr(fl, PRED[j])(v)))
    H.observe("got", got)


def consistency(H):
    fl = H.mod("flags")
    v, inc = value(H, fl)
    raised, _ = H.raises(ValueError, fl.check_flags_consistency, v)
    c, o, u = inc["IS_CONTINUOUS"], inc["IS_ORDERED"], inc["IS_UNORDERED"]
    one = H.or_(H.and_(c, H.not_(o), H.not_(u)), H.and_(o, H.not_(c), H.not_(u)), H.and_(u, H.not_(c), H.not_(o)))
    good = H.and_(one, H.not_(H.and_(inc["INCREASING"], inc["DECREASING"])))
    H.check("accepted iff exactly one kind and at most one direction", H.iff(not raised, good))
    H.observe("raised", raised)


def binner_rejects(H):
    """An inconsistent property is rejected when the data are binned."""
    fl = H.mod("flags")
    b = H.mod("binning.bin_number_transformer")
    v, inc = value(H, fl)
    c, o, u = inc["IS_CONTINUOUS"], inc["IS_ORDERED"], inc["IS_UNORDERED"]
    one = H.or_(H.and_(c, H.not_(o), H.not_(u)), H.and_(o, H.not_(c), H.not_(u)), H.and_(u, H.not_(c), H.not_(o)))
    good = H.and_(one, H.not_(H.and_(inc["INCREASING"], inc["DECREASING"])))
    t = b.BinNumberTransformer(n_bins=2, feature_properties={"f": v})
    raised, _ = H.raises(ValueError, t.fit, H.pd.DataFrame({"f": H.arr([1.0, 2.0, 3.0])}))
    H.check("fit rejects exactly the inconsistent properties", H.iff(raised, H.not_(good)))
    if not raised:
        n = len(t.bins_and_cdfs_[0][2]) - 1
        H.check("continuous features are grouped, others enumerated", H.implies(H.not_(c), n == 3))
        H.check("continuous features respect n_bins", H.implies(c, n <= 2))


def to_string(H, off=()):
    fl = H.mod("flags")
    v, inc = value(H, fl)
    for n in off:
        H.assume(H.not_(inc[n]))
    s = fl.flags_to_string(v)
    names = s.split(" | ") if s else []
    H.check("a flag is listed iff it is set", H.and_(*[H.iff(n in names, inc[n]) for n in NAMES]))
    H.check("no name twice", len(names) == len(set(names)))
    H.observe("s", s)


SMOOTHER = [
    ("IS_LINEAR", "LinearExtrapolator", None), ("IS_SEASONAL", "SeasonalSmoother", None),
    ("IS_CONTINUOUS", "OrthogonalPolynomialSmoother", None), ("IS_ORDERED", "WeightedMeanSmootherNeighbors", None),
    ("IS_UNORDERED", "WeightedMeanSmoother", None),
]


def smoother(H, use_reg, use_norm, which):
    """Which smoother a one-dimensional feature gets, for every consistent property."""
    fl = H.mod("flags")
    cs = H.mod("common_smoothers")
    v, inc = value(H, fl)
    raised, _ = H.raises(ValueError, fl.check_flags_consistency, v)
    if raised:
        return
    ch = getattr(cs, which)(use_regression_type=use_reg, use_normalization=use_norm)
    sm = ch.choice_fct(("f",), (v,))
    inner = sm
    meta = type(sm).__name__
    if use_reg or use_norm:
        inner = sm.smoother
    name = type(inner).__name__
    expected_meta = {(True, True): "NormalizationRegressionTypeSmoother", (True, False): "RegressionTypeSmoother",
                     (False, True): "NormalizationSmoother", (False, False): name}[(use_reg, use_norm)]
    H.check("wrapper", meta == expected_meta)
    # order of precedence
    left = H.and_(True)
    H.check("linear", H.implies(inc["IS_LINEAR"], name == "LinearExtrapolator"))
    nl = H.not_(inc["IS_LINEAR"])
    H.check("seasonal", H.implies(H.and_(nl, inc["IS_SEASONAL"]), name == "SeasonalSmoother"))
    b = H.and_(nl, H.not_(inc["IS_SEASONAL"]))
    H.check("monotonic", H.implies(H.and_(b, inc["IS_MONOTONIC"]), name == "IsotonicRegressor"))
    if name == "IsotonicRegressor":
        H.check("direction", H.and_(
            H.implies(inc["INCREASING"], inner.increasing is True), H.implies(inc["DECREASING"], inner.increasing is False),
            H.implies(H.and_(H.not_(inc["INCREASING"]), H.not_(inc["DECREASING"])), inner.increasing == "auto")))
    b = H.and_(b, H.not_(inc["IS_MONOTONIC"]))
    H.check("continuous", H.implies(H.and_(b, inc["IS_CONTINUOUS"]), name == "OrthogonalPolynomialSmoother"))
    H.check("ordered", H.implies(H.and_(b, inc["IS_ORDERED"]), name == "WeightedMeanSmootherNeighbors"))
    H.check("unordered", H.implies(H.and_(b, inc["IS_UNORDERED"]), name == "WeightedMeanSmoother"))
    if use_reg:
        rt = sm.reg_type.name
        H.check("linear features extrapolate", H.implies(inc["IS_LINEAR"], rt == "extrapolating"))
        cont = H.or_(inc["IS_SEASONAL"], inc["IS_CONTINUOUS"])
        H.check("continuous features interpolate", H.implies(H.and_(nl, cont), rt == "interpolating"))
        H.check("categories are discontinuous", H.implies(H.and_(nl, H.not_(cont)), rt == "discontinuous"))
    H.observe("name", name)


def smoother2d(H):
    """Two-dimensional features: the most restrictive regression type wins."""
    fl = H.mod("flags")
    cs = H.mod("common_smoothers")
    mets = H.mod("smoothing.meta_smoother")
    a, ia = value(H, fl, "a")
    b, ib = value(H, fl, "b")
    rt = cs.determine_reg_type(("f", "g"), (a, b), None).name

    def kind(i):
        disc = H.and_(H.not_(i["IS_LINEAR"]), H.not_(i["IS_SEASONAL"]), H.not_(i["IS_CONTINUOUS"]))
        return disc, i["IS_LINEAR"]

    (da, la), (db, lb) = kind(ia), kind(ib)
    H.check("discontinuous iff one part is", H.iff(rt == "discontinuous", H.or_(da, db)))
    H.check("extrapolating iff all parts are", H.iff(rt == "extrapolating", H.and_(la, lb)))
    H.observe("rt", rt)


def lookup(H):
    """Property of a feature group: its own value, else the default; tuples element-wise."""
    fl = H.mod("flags")
    a, d = H.bits("a", 16), H.bits("d", 16)
    has = H.cbool("has")
    props = {"f": a} if has else {"h": a}
    props = H.choose("none", [props, None])
    r = fl.read_feature_property(props, ("f", "g"), d)
    H.check("tuple", isinstance(r, tuple) and len(r) == 2)
    H.check("own value or default", H.eq(r[0], a if has and props is not None else d))
    H.check("default", H.eq(r[1], d))
    H.check("single", H.eq(fl.read_feature_property(props, "f", d), r[0]))
    H.observe("r", list(r))


def harnesses(tier):
    hs = [
        Harness("algebra", algebra, {}, "every flag union (13 bits)"),
        Harness("consistency", consistency, {}, "every flag union"),
        Harness("binner_rejects", binner_rejects, {}, "every flag union, 3 fixed rows"),
        Harness("to_string_a", to_string, dict(off=("USE_ORIGINAL", "CORR_TO_WIDTH", "IS_SEASONAL", "IS_LINEAR")), "flag unions without 4 of the flags"),
        Harness("to_string_b", to_string, dict(off=("IS_ORDERED", "IS_UNORDERED", "INCREASING", "DECREASING")), "flag unions without 4 of the flags"),
        Harness("reg_type_2d", smoother2d, {}, "every pair of flag unions"),
        Harness("lookup", lookup, {}, "any 16-bit values"),
    ]
    for ur in (True, False):
        for un in (True, False):
            hs.append(Harness("smoother_reg%d_norm%d" % (ur, un), smoother, dict(use_reg=ur, use_norm=un, which="SmootherChoiceWeightedMean"), "every consistent flag union"))
    hs.append(Harness("smoother_groupby", smoother, dict(use_reg=True, use_norm=True, which="SmootherChoiceGroupBy"), "every consistent flag union"))
    if tier == "thorough":
        hs.append(Harness("to_string_all", to_string, {}, "every flag union", max_paths=9000, max_seconds=3000))
    return hs
