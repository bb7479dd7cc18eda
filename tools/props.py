"""The properties and their checks; `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json."""
B = "cyclic_boosting/"
TECH = ("path-complete symbolic execution of the real package sources (all branches of the executed functions, symbolic inputs), "
        "assertions decided by z3 (cvc5 as fallback) for every value within the bounds, counterexamples replayed on the unmodified package")

P = []


def prop(id, title, statement, over, text, why, files, mech, note, level="model_checking", observe_at=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[B + f for f in files],
                  mech=[dict(name=n, where=B + w) for n, w in mech], note=note, level=level, observe_at=observe_at))


prop("P01", "Continuous binning is total, monotone and consistent with its boundaries",
     "Every finite value of a continuous feature is assigned the bin whose boundaries enclose it: values up to a boundary never "
     "land beyond its bin, values beyond it land in a later bin, values outside the fitted range land in the first or last bin, and "
     "larger values never get smaller bin numbers. Non-finite values (and the magic values -9/-999 where the feature declares "
     "them) are missing, nothing else is. The bin of a row depends on that row only, bin numbers are never corrupted by the compact "
     "integer storage, and weight and undeclared columns as well as the caller's data stay as they are.",
     ["inputs", "configurations"],
     "all training columns and probe values (any reals, NaN, infinities), frames and arrays, any fitted boundary table",
     "unit tests bin a few fixed values; off-by-one, equality and overflow errors appear only next to boundaries or for particular "
     "numbers of bins",
     ["binning/bin_number_transformer.py", "binning/_binary_search.py", "binning/ecdf_transformer.py"],
     [("binning of one column", "binning/bin_number_transformer.py"), ("binary search", "binning/_binary_search.py")],
     "bounded: fits of 3-4 rows with any real values, fitted states of up to 5 (thorough 9) arbitrary bins with 2 arbitrary rows, "
     "200- and 40000-bin tables with one symbolic row")
prop("P02", "Discrete binning enumerates seen values and treats all others as missing",
     "Each distinct training value of an ordered or unordered feature gets its own bin, numbered consecutively from 0 in value "
     "order. Equal values share a bin, and every value not seen in training, NaN or infinite, is mapped to the missing bin.",
     ["inputs", "configurations"],
     "all training columns (any reals with NaN) and all probe values",
     "which category collides or is dropped depends on value coincidences a fixed example does not contain",
     ["binning/bin_number_transformer.py", "binning/_binary_search.py", "binning/ecdf_transformer.py"],
     [("exact-match lookup", "binning/_binary_search.py"), ("binning of one column", "binning/bin_number_transformer.py")],
     "bounded: fits of up to 3 (thorough 4) rows with any values, any state of 6 (20) categories with one arbitrary probe")
prop("P03", "Learned bin boundaries and cumulative shares describe the weighted training data",
     "Bin boundaries are observed values with positive weight, start at the minimum and end at the maximum, and carry the exact "
     "weighted share of training rows up to them (0 at the start, 1 at the end). A continuous feature gets at most the requested "
     "number of bins, each holding at least the tolerated fraction of an equal share, and a discrete feature exactly one bin per "
     "distinct value. Missing, infinite and zero-weight rows have no influence.",
     ["inputs", "configurations"],
     "all weighted training columns and all empirical CDFs, several bin counts and tolerances",
     "the greedy merging of shares behaves differently for every pattern of ties and weights",
     ["binning/ecdf_transformer.py", "binning/_binary_search.py"],
     [("reduction to equal-share bins", "binning/ecdf_transformer.py"), ("weighted empirical CDF", "binning/ecdf_transformer.py")],
     "bounded: any CDF over up to 5 (thorough 7) values and 2-5 bins; whole fits of up to 4 rows with any values and weights")
prop("P04", "The empirical-CDF transform returns probabilities consistent with the data",
     "For a continuous feature the transform is monotone, lies in [0,1], equals the cumulative share at every boundary, is linear in "
     "between, 0 below and 1 above the fitted range. For a discrete feature a seen value gets the share of rows up to it and an "
     "unseen one is missing; missing values stay missing, and other columns, row labels and the caller's data are left unchanged.",
     ["inputs", "configurations"],
     "any fitted table, any rows including NaN and infinities, frames and arrays",
     "interpolation and edge handling depend on where a value falls relative to boundaries",
     ["binning/ecdf_transformer.py", "binning/_binary_search.py"],
     [("interpolating lookup", "binning/_binary_search.py"), ("transform", "binning/ecdf_transformer.py")],
     "bounded: tables of 2-3 (thorough up to 8) bins with arbitrary boundaries, 2 arbitrary rows; fits of 3 (4) rows")
prop("P05", "Bin combinations are numbered one-to-one and invalid rows get the extra bin",
     "Rows of valid bin numbers of a multi-dimensional feature are numbered in row-major order, one number per combination, within "
     "the product of the bin counts. Any row with a missing, infinite, negative or out-of-range entry gets the extra last number, "
     "whatever the other rows are. Enumerating all combinations is the inverse of the numbering.",
     ["inputs"],
     "all rows (integers, NaN, infinities) and bin counts within the bounds",
     "a collision shows only for particular combinations of bin counts and entries",
     ["utils.py"],
     [("lexicographic numbering", "utils.py"), ("bin steps", "utils.py"), ("enumeration of combinations", "utils.py")],
     "bounded: up to 3 dimensions, bin counts up to 6 symbolic / 7x5 concrete, 2-3 rows")
prop("P06", "Feature-property flags are independent, validated and select the treatment",
     "Each exported property flag can be set and queried independently of the others (monotonic implies continuous; the special "
     "missing flags imply missing), and a property is accepted exactly when it has one of continuous/ordered/unordered and at "
     "most one direction. The smoother and regression type selected for a feature follow the documented precedence, and the string "
     "form names exactly the set flags.",
     ["configurations"],
     "every union of the 13 flags (for two-dimensional features every pair)",
     "2^13 combinations; tests cover a few",
     ["flags.py", "common_smoothers.py", "binning/_utils.py"],
     [("flag predicates and consistency", "flags.py"), ("smoother choice", "common_smoothers.py")],
     "complete over the 13 flag bits (bit-vectors); string form in quick without 4 of the flags at a time")

prop("P07", "Missing and unseen feature values are predicted with learned or neutral effects",
     "In prediction, a row whose value of a feature is missing (NaN, infinite or negative bin number) gets the effect learned for "
     "missing values, or the neutral one if the feature declares missing values as not learned; a value or combination outside the "
     "range seen in training is neutral. All other rows get the effect learned for exactly their bin, and predictions are never NaN "
     "or infinite because of missing or unseen values.",
     ["inputs", "configurations"],
     "all probe rows of valid, unseen, negative and non-finite bin numbers, any learned effects",
     "the treatment of a row depends on the combination of bins, missing flags and what training contained",
     ["features.py", "base.py", "utils.py"],
     [("effects in prediction", "features.py"), ("bin numbers of a feature group", "features.py"), ("prediction loop", "base.py")],
     "bounded: 3 training rows (4 designs), 2 features and their pair, 121 probe combinations plus any integral bins up to 1e6, "
     "any estimates")
prop("P08", "Predictions are a baseline plus additive per-feature contributions",
     "In link space every prediction is the baseline plus one contribution per feature; get_feature_contributions returns exactly these "
     "and influence categories sum them. The baseline is the weighted target mean (plus 0.001, for classifiers at most 0.999), or the "
     "row's prior prediction shifted so that its weighted mean matches the target's, with the target mean where the prior is missing. "
     "Each row's prediction depends on that row only, and predicting does not change the model.",
     ["inputs", "configurations"],
     "all targets, weights, priors and learned effects; frames with missing and unseen values",
     "the interpretability promise (explainable contributions) has to hold for each row, not for a sampled few",
     ["base.py", "features.py", "link.py"],
     [("baseline and prior", "base.py"), ("prediction state", "base.py"), ("contributions", "base.py")],
     "bounded: 3 training rows, 5 probe rows, 1-2 iterations, 2 features and their pair; identity, log and logit link")
prop("P09", "The model left by training reproduces the predictions training computed",
     "After fit_transform, predicting the training rows gives the predictions that training returned for them, with or without "
     "aggregation, with hierarchical features, with missing values and also after the loss diverged and factors were taken "
     "back. No divergence pattern makes training fail other than by a ConvergenceError.",
     ["inputs", "histories"],
     "all sequences of estimates and losses within the iteration bound",
     "the in-training prediction is maintained incrementally; it drifts from the stored factors only for certain histories",
     ["base.py", "features.py"],
     [("fit loop and divergence handling", "base.py"), ("aggregated factors", "features.py")],
     "bounded: 3 training rows (4 designs), 3 feature groups, 2-3 iterations, up to 2 divergences, any estimates and losses")
prop("P10", "Training cycles through all features, each update on top of the current model",
     "Each iteration updates every feature once in the configured order, and each update sees the current prediction "
     "of the whole model (without aggregation: of all other features). In the first iterations of a hierarchical model only the hierarchical features are "
     "updated. The trained model is the sum of the updates scaled by their learning rates (without aggregation: the last updates).",
     ["inputs", "histories"],
     "all sequences of estimates and non-diverging losses within the iteration bound",
     "the bookkeeping of partial predictions is only observable through whole histories of updates",
     ["base.py", "features.py", "learning_rate.py"],
     [("fit loop", "base.py"), ("feature update", "base.py"), ("aggregated factors", "features.py")],
     "bounded: 4 training rows (2 designs), 3 feature groups, 1-3 (thorough 5) iterations, any estimates")
prop("P11", "Factors of multiplicative models change and grow only within limits",
     "While the loss does not diverge, one iteration changes the factor of a bin of a multiplicative model at most by a factor of 2 either way, and over the whole "
     "training it stays between 0.01 and 1000 for single features and between 0.1 and 100 for feature combinations.",
     ["inputs", "histories"],
     "all sequences of estimates",
     "limits are reached only after many extreme updates in a row",
     ["base.py"],
     [("step and factor limits", "base.py")],
     "bounded: one feature (or pair) over 3 rows, 12 (thorough 16) iterations, any estimates; diverging losses excluded")
prop("P12", "Training stops when it should and never ends in a diverged model",
     "Training stops exactly when the relative loss change or the mean factor change reaches its threshold (not during the "
     "hierarchical phase), at the latest after the maximal number of iterations, and reports iteration count and criteria accordingly. "
     "A fitted model's in-sample loss is at most twice the baseline loss; training restarts without a feature that keeps diverging, and ends in a ConvergenceError when the divergence persists to the fifth time.",
     ["inputs", "histories"],
     "all loss sequences, thresholds and estimates within the iteration bound",
     "which criterion fires depends on the whole history of losses",
     ["base.py", "utils.py"],
     [("stop criteria", "base.py"), ("convergence parameters", "utils.py"), ("divergence handling", "base.py")],
     "bounded: 1-3 (thorough 5) iterations, up to 5 divergences, any losses, thresholds and estimates")
prop("P13", "Link functions are increasing inverse pairs with the right range",
     "link_func and unlink_func of the log, logit and identity link are increasing and undo each other. Unlinked values are "
     "positive (log) or strictly between 0 and 1 (logit), zero is the neutral element, sums become products (log), the logit is "
     "symmetric, is_in_range accepts exactly the target range, and inputs are not modified.",
     ["inputs"],
     "all pairs of values of the target range and link values in [-20, 20]",
     "an error in one region of the range is invisible at a few sampled points",
     ["link.py"],
     [("log link", "link.py"), ("logit link", "link.py")],
     "all reals in the range; exp and log axiomatised; rounding near the ends outside")
prop("P14", "Learning rates are valid, non-decreasing and reach full strength",
     "Each learning-rate schedule is positive, at most 1, never decreases over the iterations and reaches 1 at the "
     "last one (the logistic one up to 0.1%). Linear is proportional to the iteration, half-linear reaches 1 after half of the iterations, and "
     "estimators use half-linear by default and rate 1 for hierarchical models.",
     ["configurations"],
     "all iterations and maximal iteration numbers within the bound",
     "tests look at a few iterations",
     ["learning_rate.py", "base.py"],
     [("schedules", "learning_rate.py"), ("default schedule", "base.py")],
     "bounded: iterations up to 100 (thorough 1000); logistic up to 5 (20)")
prop("P15", "Poisson and negative-binomial factors follow the gamma posterior of their bin",
     "The factor estimated for a bin is the median (for huge counts the mean) of the gamma posterior with prior (2, 1.67834) updated by the weighted targets and "
     "predictions of exactly the rows of that bin; missing rows have a bin of their own and bins without rows stay at the prior. For the negative binomial each row is additionally "
     "weighted with the inverse of a + c times its prediction.",
     ["inputs", "configurations"],
     "all targets, weights, prior predictions and dispersion parameters",
     "a row counted in the wrong bin or with the wrong weight changes fits only slightly, within test tolerances",
     ["regression.py", "base.py", "features.py"],
     [("Poisson estimates", "regression.py"), ("negative-binomial weights", "regression.py")],
     "bounded: 3 training rows (3 designs), first update of a feature or pair")
prop("P16", "Classifier estimates follow the beta posterior; outputs are valid probabilities",
     "The log-odds change estimated for a bin and its uncertainty match two quantiles of the beta posterior of the bin's own rows, "
     "which are weighted with the probability the model gives to the other class. Predicted class probabilities are numbers between 0 and 1 that add up "
     "to 1 for any share of positive training targets, and the predicted label is the more probable class.",
     ["inputs"],
     "all target combinations, weights and bin estimates",
     "extreme class shares and weights are not in the test data",
     ["classification.py", "base.py", "link.py"],
     [("beta posterior", "classification.py"), ("probabilities and labels", "classification.py")],
     "bounded: 3 training rows, all 8 target vectors unweighted, any weights for balanced classes; probabilities for any estimates, "
     "any share of positive targets, 3 probe rows")
prop("P17", "Additive regressors estimate shrunk mean residuals and keep zero mean effect",
     "The summand (and its uncertainty) estimated for a bin by the location, location-Poisson and GBS regressors is their documented regularised weighted mean of "
     "the residuals of exactly the rows of that bin, shrunk towards zero, and bins without rows get a neutral one. After each update a feature's contributions have zero weighted mean "
     "on the training rows, and the Poisson variant never predicts below zero.",
     ["inputs", "configurations"],
     "all targets, weights and bin estimates",
     "wrong weights or bins shift predictions by amounts within test tolerances",
     ["location.py", "GBSregression.py", "features.py", "base.py"],
     [("location estimates", "location.py"), ("background subtraction", "GBSregression.py"), ("calibration", "base.py")],
     "bounded: 3 training rows (3 designs), first update of a feature or pair; any targets or any weights")
prop("P18", "Quantile and generic-loss regressors minimise the loss of each bin's own rows",
     "The estimate of a bin minimises the configured loss, for quantile regression the weighted pinball loss at the requested quantile, over exactly the rows of that bin "
     "with the model's current predictions and the row weights. The baseline is the weighted quantile of the training targets, which depends on relative weights only and "
     "is the smallest target whose cumulative weight reaches the quantile (up to one unit of spread for ties).",
     ["inputs", "configurations"],
     "all targets, weights, quantiles and predictions",
     "a wrong row selection, sign or weight in the loss still converges to something close on smooth test data",
     ["quantile_matching.py", "generic_loss.py", "utils.py"],
     [("per-bin loss minimisation", "generic_loss.py"), ("weighted quantile", "utils.py")],
     "bounded: 3 training rows (3 designs), 7 rows with empty bins; weighted quantiles and costs for 2-3 rows with any values; the numerical "
     "minimiser (scipy) is replaced by an arbitrary result")
prop("P19", "Regularising smoothers average each bin with its mean, neighbourhood or prior",
     "Regularised bin values are the variance-weighted average of the value with the error-weighted mean of all bins, of its neighbourhood, or with the prior, so that they never leave the range "
     "between the two; equal values stay equal and finite input gives finite output. Values whose distance to a prior is insignificant become the prior and others keep their sign and excess "
     "significance. Neutralising a two-dimensional table removes row and column effects and nothing else, and no smoother changes its input.",
     ["inputs", "configurations"],
     "all bin values, uncertainties, priors and thresholds",
     "ties, zero variances and threshold crossings are not in the test data",
     ["utils.py", "smoothing/onedim.py", "smoothing/multidim.py", "smoothing/meta_smoother.py"],
     [("weighted mean", "utils.py"), ("prior expectation", "utils.py"), ("2D neutralisation", "utils.py")],
     "bounded: 1-4 bins with any values (thorough 6), any uncertainties for 2 bins, tables up to 2x3 (thorough 3x3)")
prop("P20", "Bin-value smoothers return each bin's own value and nothing outside the bins",
     "A bin-value smoother predicts exactly the value of the bin a row falls into and NaN for missing, negative or out-of-range bin numbers, independently of other rows. "
     "Discontinuous smoothers are additionally cut where no training weight was seen, interpolating ones outside the bins only, extrapolating ones never; normalising smoothers subtract the weighted mean "
     "before and add it after the inner smoother. Section and group-by smoothers use for every row the smoother fitted on its own section or group, and predicting before fitting is an error.",
     ["inputs", "configurations"],
     "all bin values, weights, split points and probe rows (any real, NaN, infinite)",
     "rows at bin edges, empty bins and unseen groups are not sampled by the tests",
     ["smoothing/onedim.py", "smoothing/multidim.py", "smoothing/meta_smoother.py", "utils.py"],
     [("bin lookup", "smoothing/onedim.py"), ("regression type", "smoothing/meta_smoother.py"), ("group-by", "smoothing/multidim.py")],
     "bounded: 4 bins or 2x3 tables (thorough 8, 3x4) with any values, one arbitrary probe row next to a fixed one")
prop("P21", "Curve smoothers are weighted least-squares fits, constant outside the range",
     "The polynomial smoother preserves the weighted mean and linear trend of the bin values, reproduces lines and significant parabolas exactly and is continued constantly outside the fitted range. "
     "Linear smoothers return the (weighted) least-squares line at any position, or the mean where a non-negative slope is required and the slope is negative. No smoother changes the arrays it is given.",
     ["inputs", "configurations"],
     "all bin values, positions and (for two bins) uncertainties",
     "the tests compare a few fitted curves with stored numbers; wrong recursion terms or degree limits show only for particular shapes",
     ["smoothing/orthofit.py", "smoothing/onedim.py", "smoothing/extrapolate.py", "utils.py"],
     [("orthogonal polynomials", "smoothing/orthofit.py"), ("linear regression", "utils.py")],
     "bounded: orthogonal polynomials up to 3 bins with any values, 4-5 bins with two or one arbitrary values, lines for 5 and parabolas for 10 bins; "
     "lines for 1-4 bins; numpy.polyfit is replaced by the exact normal equations")
prop("P22", "Feature importances are shares of the mean effect; refitting equals a fresh fit",
     "A feature's importance is the average, over the training rows, of the absolute effect of their bins relative to the neutral factor, normalised so that the importances of all features "
     "are non-negative and add up to one; contributions are reported for every feature under its name, for named and for numbered columns. Without a given list, every column but weight and prior is a feature. Nothing of earlier fits survives: fitting again "
     "gives the same importances, contributions and predictions as a new estimator.",
     ["inputs", "histories"],
     "all bin estimates of the fits, with different features' bins and rows",
     "tests neither refit nor compare the importances with anything but their names",
     ["base.py", "features.py"],
     [("importances", "base.py"), ("mean absolute deviation", "features.py"), ("contributions", "base.py")],
     "bounded: 3-4 training rows, up to 3 features, one refit, any estimates with given signs")
prop("P23", "Invalid data and wrong use raise errors, and data is never changed",
     "Training rejects negative or missing targets for multiplicative regressors, anything but 0 and 1 for the classifier, non-finite targets for additive regressors, and data without rows or without targets, and accepts all "
     "other targets; predicting before fitting, empty feature groups, unusable smoother settings and missing or existing output columns are errors. Fitting and predicting leave the caller's data unchanged, a transform adds exactly the "
     "prediction column, and influence categories must name every feature and sum up its contributions.",
     ["inputs", "configurations"],
     "one arbitrary target among valid ones, all target values, prior predictions and estimates",
     "tests sample few invalid inputs and never look at the data after a fit",
     ["base.py", "regression.py", "location.py", "classification.py", "nbinom.py", "generic_loss.py", "common_smoothers.py"],
     [("input checks", "base.py"), ("prior predictions", "base.py"), ("transform", "base.py")],
     "bounded: 3 training rows, one arbitrary target (any real in [-10, 10], NaN, infinite), two arbitrary prior predictions")
prop("P24", "The price model is demand factors times a power of the price, falling in price",
     "The prediction of the exponential price model is, in log space, the sum of the demand features' contributions plus (price - 1) times the prior exponent times the exponential of the price features' "
     "contributions, so that demand never rises with the price for negative prior exponents and rows without valid price get the demand at price 1, in training and prediction. The exponent estimates of a bin use exactly its rows "
     "with a valid price, by weight and model variance, with the documented loss and its derivatives, and stay within the search bounds; fit_transform equals fit and predict.",
     ["inputs", "configurations"],
     "all prices, prior exponents and bin estimates",
     "the tests train a price model once and compare one error number",
     ["price.py", "base.py", "features.py"],
     [("prediction state", "price.py"), ("exponent fit", "price.py"), ("price column", "price.py")],
     "bounded: 4 training rows, 5 probe rows, up to 2 iterations; derivatives for 2 rows with any values; 2 search iterations with arbitrary derivatives")
prop("P25", "Quantile-parameterised distributions meet their quantiles, bounds and inverses",
     "A quantile-parameterised distribution goes through the three quantile values it was built from (lower, median, upper), for skewed and symmetric triplets alike; its cdf and ppf are inverse to each other, increasing and "
     "within the declared bounds, and triplets out of order are refused. Many samples and shares at once give what each gives alone. The chain of quantile models predicts quantiles in order and within the bounds whatever its "
     "models predict, and trains each model on exactly the rows on its side of the median with targets that the prediction maps back to the original target.",
     ["inputs", "configurations"],
     "all ordered triplets, tail shares, bounds, targets and sub-model predictions",
     "the tests evaluate one skewed triplet per class and only the semi-bounded chain",
     ["quantile_matching.py"],
     [("distributions", "quantile_matching.py"), ("chain of quantile models", "quantile_matching.py")],
     "bounded: any triplet within 5 units of the internal scale, shares in [1/64, 63/64], 2 samples and 2 shares at once, 1-2 training rows; fixed shares or triplets where stated per harness")
prop("P26", "The dispersion model picks, per bin, the likeliest dispersion of its own rows",
     "The negative binomial dispersion model evaluates, for every bin of the feature being fitted, each candidate change of the dispersion by the negative binomial likelihood of exactly that bin's rows (mean from the given "
     "column, variance mu + c mu^2, optional penalty on the dispersion) and takes the best one, or the posterior mean in Bayesian mode; the candidates get finer with the iteration and include no change. "
     "The loss is the mean likelihood of all rows, and the predicted dispersion always lies strictly between 0 and 1.",
     ["inputs", "configurations"],
     "one arbitrary count per bin, all estimates and any log-gamma function",
     "the tests train the model once and compare one error number",
     ["nbinom.py", "base.py", "link.py"],
     [("candidate search", "nbinom.py"), ("likelihood", "nbinom.py")],
     "bounded: 3 rows, up to 3 bins, one arbitrary target per bin, few candidates (n_steps 2-4); the refinement over 2 iterations and the range of predictions for fixed targets and a few priors only")
prop("P27", "Ready-made pipelines pass on every setting and leave other columns alone",
     "Each pipeline function returns a binner followed by exactly the named estimator; every setting given reaches the estimator and the binner (number of bins, feature properties, weights, in-place mode) with its value and changes "
     "no other setting, in the pipeline and in clones of it. Features reach the estimator as bin numbers, while weights, prior predictions and other columns reach it as they are.",
     ["inputs", "configurations"],
     "all numeric settings and column values, all settings at once and one at a time, for each of the 13 pipelines",
     "tests use few settings, so a setting silently dropped for one estimator stays unnoticed",
     ["pipelines.py", "base.py", "binning/bin_number_transformer.py", "binning/ecdf_transformer.py"],
     [("pipelines", "pipelines.py")],
     "bounded: settings with any numbers; 3 rows for the columns, with weights between 0.5 and 2")
prop("P28", "Saved, copied and restored models, smoothers and binners behave as the original",
     "Pickling and restoring, or deep-copying, an estimator, smoother or binner gives an object with the same settings that predicts, contributes and bins exactly as the original, with missing bin values kept, also after several rounds. "
     "Original and copy are independent: neither saving nor refitting the copy changes the original, and an unfitted copy or a refitted one learns exactly what a new object learns.",
     ["inputs", "histories"],
     "all targets, weights, priors, estimates and bin values of two fits",
     "no test pickles a model, although models are trained to be stored",
     ["smoothing/onedim.py", "smoothing/multidim.py", "smoothing/meta_smoother.py", "features.py", "base.py", "binning/bin_number_transformer.py", "binning/ecdf_transformer.py"],
     [("compressed bin values", "smoothing/onedim.py"), ("compressed bin values", "smoothing/multidim.py"), ("model state", "base.py")],
     "bounded: 3-4 rows, 2-4 bins per smoother, one refit")
prop("P29", "Observers see every step of the training and do not change the model",
     "Every observer of a training, the base class included, is called before each iteration and once at the end with iteration -1, and after each trained feature, with the training data, the weights and the prediction after the iterations "
     "completed so far. The trained model is the same with and without observers. A plotting observer keeps an independent snapshot of the features, losses, factor changes and histograms at its iteration, and the "
     "deviations shown per bin are those between the weighted mean prediction and target of its rows.",
     ["histories", "inputs"],
     "all targets and bin estimates, with observers of each kind, hierarchical training included",
     "tests only look at the plots of one training",
     ["observers.py", "base.py", "generic_loss.py", "features.py"],
     [("calls", "base.py"), ("snapshots", "observers.py"), ("bin deviations", "base.py")],
     "bounded: 3 rows, 2 features, 2 iterations, up to 3 observers; positive predictions for the logarithmic link")
prop("P30", "Binned statistics and histograms describe exactly the rows of each bin",
     "Values are sorted into equally wide bins that cover exactly their range, the largest value included; per bin, mean, median, quantile bands and count (weighted or not) are those of exactly its rows, and histograms give one centre "
     "per bin with rows. Bin boundaries reported for a feature are those its binner learned. The smeared cdf value of a count lies uniformly between the cdf of the count before (0 for the count 0) and its own.",
     ["inputs"],
     "all values, targets, weights, distributions and random numbers",
     "tests cover neither weights nor values on the boundaries",
     ["utils.py", "observers.py", "binning/_utils.py"],
     [("binning of values", "utils.py"), ("statistics per bin", "utils.py"), ("histograms", "observers.py"), ("smearing", "utils.py")],
     "bounded: 2-4 rows, 2-4 bins, two arbitrary weights; histograms for fixed predictions; bands of the normal distribution's shares up to 1e-3 of the weight")
prop("P31", "Interaction terms are all combinations, numbered by their joint bins",
     "Interaction candidates are all combinations of two up to the given number of features, each exactly once. The joint number of a term is the same for two rows exactly if all their bins agree, rows with missing values "
     "set apart, and the data is left unchanged. The selection scores all candidates' joint numbers against the targets with the score for the kind of target and returns exactly the number of terms asked for, as chosen.",
     ["inputs", "configurations"],
     "all values of a feature, all choices of the best terms",
     "the test compares the names selected for one data set",
     ["interaction_selection.py", "binning/bin_number_transformer.py", "utils.py"],
     [("combinations", "interaction_selection.py"), ("joint bins", "interaction_selection.py"), ("selection", "interaction_selection.py")],
     "bounded: up to 5 features for the combinations, 3-4 rows and 3 features for the bins")
prop("P32", "The loss of the training is the documented error of the model's own predictions",
     "The loss is the weighted mean squared error (quantile models: the weighted mean pinball loss; generic models: the user's loss; GBS: squared errors per weight of rows with a target), depends on relative weights only, "
     "is never negative and zero for a perfect prediction. The initial loss reported after training is that of the baseline, the in-sample loss that of the fitted model's predictions on the training data.",
     ["inputs", "configurations"],
     "all predictions, targets, weights and bin estimates, for every estimator",
     "tests compare only final accuracies, where a loss of wrong rows or weights goes unnoticed",
     ["base.py", "generic_loss.py", "GBSregression.py"],
     [("squared error", "base.py"), ("pinball loss", "generic_loss.py"), ("visit loss", "GBSregression.py")],
     "bounded: 2-3 rows, 1-2 iterations; the dispersion model's likelihood is part of P26")
prop("P33", "Row order does not matter; weights count rows; rows without weight do not matter",
     "Training on the same rows in another order gives the same predictions, loss and importances, and adding a row of zero weight whose bins are known changes no prediction. For the Poisson, negative binomial and "
     "classification models a row of weight two is the same as two rows of weight one.",
     ["inputs", "histories"],
     "all values of arbitrary targets, with real estimates of every closed-form estimator, plain and default smoothers",
     "tests train on one order of the rows and never compare weights with repetitions",
     ["base.py", "regression.py", "location.py", "classification.py", "GBSregression.py", "features.py", "smoothing/onedim.py", "utils.py"],
     [("estimates", "regression.py"), ("estimates", "location.py"), ("weight sums", "features.py"), ("smoothing", "smoothing/onedim.py")],
     "bounded: 4-5 rows, 1-3 arbitrary targets, fixed permutations, 1 iteration; the quantile and generic models are not included")
prop("P34", "Curve fits use the bins' values and errors; every feature has its own smoother",
     "Seasonal, isotonic, spline and lasso smoothers pass each bin's position, value and uncertainty (or weight) to the fit and predict exactly the fitted curve; a seasonal fit that fails gives the fallback value. "
     "The smoother choice draws categories towards the neutral element, leaves the constant of seasonal curves to the normalisation, lets the last column decide within groups and prefers explicitly given smoothers. "
     "Features of the same kind are smoothed independently of each other.",
     ["inputs", "configurations"],
     "all bin values, uncertainties, weights and fitted curves",
     "tests check a few curves up to fit accuracy",
     ["smoothing/onedim.py", "smoothing/multidim.py", "common_smoothers.py", "features.py"],
     [("curve fits", "smoothing/onedim.py"), ("choice", "common_smoothers.py"), ("own smoothers", "features.py")],
     "bounded: 1-6 bins, 2 features; the numerical fits of scipy and sklearn are stand-ins with arbitrary results")
prop("P35", "Distributions fitted to many quantiles are those of the fitted parameters",
     "Fitting a normal, gamma or negative binomial distribution to quantiles asks for the parameters whose quantile function (for the negative binomial: whose cdf) matches all given pairs, and the returned quantile function, cdf or "
     "distribution is the one with the parameters found: mean and scale, shape and rate, or mean and variance. The spline goes through the given pairs and is constant outside of [0, 1]. An unknown mode is refused.",
     ["inputs", "configurations"],
     "all pairs of quantiles and values, all fitted parameters",
     "tests fit one distribution each and look at single quantiles",
     ["quantile_matching.py"],
     [("fits", "quantile_matching.py")],
     "bounded: 2-4 pairs; the numerical fit is a stand-in with arbitrary results, the distributions are rational stand-ins in scipy's parametrisation")
