#!/usr/bin/env python3
"""Single source for properties.jsonl: run to regenerate the file."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["cyclic_boosting/" + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))


BN = "cyclic_boosting/binning/bin_number_transformer.py"
EC = "cyclic_boosting/binning/ecdf_transformer.py"
BA = "cyclic_boosting/base.py"
FE = "cyclic_boosting/features.py"

prop("C01", "Equal-frequency binning honours bin count, bin weight and coverage",
     "Fitting the binning transformer on a continuous column gives at most the requested number of bins; their upper boundaries are strictly increasing values that occur in the training column with positive weight, the last one is the largest such value, and every bin holds at least a share (1 - tolerance) / number_of_bins of the total training weight. "
     "The resulting boundaries depend only on the weighted distribution of the finite values: row order, splitting a row into rows of the same total weight, rescaling all weights, and rows that are missing, infinite or of zero weight make no difference. "
     "A column declared ordered or unordered gets exactly one bin per distinct value.",
     ["inputs", "configurations"],
     "all weighted columns (ties, skew, gaps, zero weights, missing and infinite entries), all numbers of bins (one for all columns or per column) and tolerances",
     "the tests compare a few hand-made columns with pinned boundaries; none varies weights, ties and tolerance together, and none checks the weight per bin or independence from row order and splits",
     ["binning/ecdf_transformer.py", "binning/bin_number_transformer.py", "utils.py"],
     [("weighted empirical cdf and its greedy reduction to at most n bins", EC)],
     ["boundaries reported per column after fit", "cdf values reported with the boundaries"])

prop("C02", "Bin lookup is exact, monotone and total",
     "For a continuous column the transformer maps a finite value to the first bin whose upper boundary is not below it, values under the training range to the first bin and values above it to the last; for an ordered or unordered column a training value maps to its rank and any other value to missing. "
     "Missing and infinite values map to the missing code -1 in every column, and the magic codes -9 and -999 do exactly when the column declares magic integers as missing; a column without any valid training value maps everything to missing. "
     "Bin numbers are integers between -1 and number of bins minus one.",
     ["inputs", "configurations"],
     "all fitted boundary sets and all looked-up values: on, just inside/outside, between and beyond boundaries, missing, infinite, magic codes, per feature property",
     "tests look up a handful of values per property; boundary-exact, beyond-range, unseen-category and magic-code lookups are not crossed with properties and weights",
     ["binning/bin_number_transformer.py", "binning/ecdf_transformer.py", "flags.py"],
     [("binary search for the bin and validity mask", BN)],
     ["output of transform / fit_transform"])

prop("C03", "Binning acts on each row and configured column independently",
     "The bin number of a cell depends only on the fitted column and that cell: transforming rows in any order, in any split into batches, or in an integer, float, frame or array container gives the same numbers, and a refit forgets the previous fit. "
     "Columns without a feature property and the weight column pass through unchanged and the caller's data is never modified unless in-place operation was requested, in which case the same numbers are written into it. "
     "A table lacking a fitted column, an unfitted transformer and empty training data are rejected with an error.",
     ["inputs", "histories", "configurations"],
     "all sequences of fit/transform calls on small tables, all batchings and row orders, all subsets of configured columns, both containers, in place or not",
     "tests transform one complete matrix once; batching, refitting, partial column configuration and mutation of the argument are not explored",
     ["binning/bin_number_transformer.py", "binning/ecdf_transformer.py"],
     [("column selection and copy before writing", BN)],
     ["output of transform", "caller's table after the call", "exceptions"])

prop("C04", "Feature groups address exactly one parameter per bin combination",
     "Within a feature group (one or several columns) two training rows share a learned parameter if and only if they have the same tuple of bin numbers, and all rows with a missing bin number in any column of the group share the group's missing parameter. "
     "At prediction time a row uses the parameter of exactly its own tuple, whatever other rows are in the batch; a tuple with a bin number beyond the trained range contributes nothing, and one never seen inside the range contributes what smoothing assigned to it. "
     "The function that numbers bin tuples for given numbers of bins counts them with the last column running fastest and gives every tuple that is incomplete or out of range the number after the last.",
     ["inputs", "configurations"],
     "all groups of 1-3 columns, all small bin-number tables with gaps and missing entries, all prediction batches including all-missing ones",
     "tests fix one or two bin tables; the mapping between training-time and prediction-time addressing over gaps, missing entries and batch composition is not enumerated",
     ["utils.py", "features.py", "base.py"],
     [("lexicographic bin numbers with a trailing missing bin", "cyclic_boosting/utils.py"), ("binding of training rows to bins", FE)],
     ["per-row feature contributions of a fitted estimator", "rows grouped per parameter during training"])

prop("C05", "Training's own prediction equals prediction on the training data",
     "For every estimator the predictions produced while training (returned by fit_transform) equal what predict and transform return afterwards for the same rows, whatever stop reason, learning rate, aggregation mode, hierarchical schedule, missing values, prior predictions or recovered divergence the training went through.",
     ["inputs", "configurations", "histories"],
     "all training histories: number of iterations, updates, divergence and recovery, aggregation modes, hierarchical phases, missing bins, prior predictions; all estimators",
     "tests check predictions against pinned numbers on one data set; none compares in-sample with out-of-sample, and divergence/hierarchical histories are not reached",
     ["base.py", "features.py", "price.py", "location.py"],
     [("running in-sample prediction updated after each feature", BA), ("final factor tables used by predict", BA)],
     ["fit_transform output column", "predict / transform on the same rows"])

prop("C06", "A prediction is exactly the base level plus the feature contributions",
     "On the link scale every prediction is the sum of a base level, which depends only on the training data and the row's prior prediction, and one contribution per feature group, which depends only on the row's values in that group's columns. "
     "The reported per-feature contributions of a row are exactly these terms, one entry per feature group, and multiplying (adding, for additive models) them onto the base reproduces the prediction; columns outside the required columns have no influence.",
     ["inputs", "configurations"],
     "all fitted models, all rows and row pairs differing in one group's columns, all links",
     "tests never recombine contributions into a prediction nor vary one group's columns at a time",
     ["base.py", "features.py", "link.py"],
     [("sum of per-feature predictions in link space", BA)],
     ["predict", "get_feature_contributions", "required_columns"])

prop("C07", "Training stops exactly when the documented criteria say so",
     "Training runs whole passes over all features and stops after a pass exactly when the maximal number of iterations is reached, the mean absolute change of the feature updates is at most the configured minimum, or the relative change of the loss is at most the configured minimum. "
     "The loss compared is that of the prediction after each complete pass, starting from the base prediction, the reported number of iterations equals the completed passes, and the reported stop criteria name exactly the criteria that held.",
     ["histories", "configurations"],
     "all sequences of losses and updates, all combinations of limits and thresholds incl. zero, equality and simultaneous criteria",
     "tests only see the stop reason of whole fits with defaults; the three-way combination, equalities and loss sequences with zeros are not enumerated",
     ["base.py", "utils.py"],
     [("stop criteria evaluation at the head of the training loop", BA)],
     ["iteration_", "stop_criteria_", "observer notifications", "number of parameter estimations"])

prop("C08", "Diverging training is rolled back, damped and finally reported",
     "Whenever a pass leaves the loss above twice the loss of the base prediction, training does not stop there: a warning is issued, every update of that pass is withdrawn from both the running prediction and the learned parameters, and the next pass damps (second attempt) or resets to neutral (later attempts) just the multiplicative features whose update alone would diverge; a feature that was reset stays neutral in its regular bins for the rest of the training. "
     "The fifth diverging pass ends training with a convergence error, so a training that returns normally never delivers a model whose in-sample loss exceeds twice the base loss.",
     ["histories", "fault_sequences"],
     "all sequences of good and diverging passes up to the error, for both links, aggregation modes and hierarchical schedules",
     "one test provokes a convergence error; rollback of parameters and prediction, recovery after 1-4 bad passes and interaction with aggregation/hierarchy are untested",
     ["base.py", "utils.py"],
     [("divergence check, withdrawal of updates and damping", BA)],
     ["warnings", "ConvergenceError", "predictions and contributions after recovery", "predictions offered to parameter estimation"])

prop("C09", "Multiplicative factors and their updates stay within fixed bounds",
     "In models with multiplicative factors learned in aggregating mode, one update changes a bin's factor by at most a factor two in either direction, and once a feature has been updated before, its accumulated factor stays within [0.01, 1000] (one column) or [0.1, 100] (several columns), for price-type features within [0.05, 20] or [0.1, 5]. "
     "Updates inside the bounds are applied unchanged, in particular factors are never otherwise scaled or cut; the bounds hold for finite and missing bins alike, as long as no divergence was detected.",
     ["histories", "inputs", "configurations"],
     "all sequences of proposed updates (tiny to extreme) per bin, both feature types, one and several columns",
     "no test drives a factor to its bound; the pinned fits stay far inside",
     ["base.py"],
     [("clipping of updates and accumulated factors", BA)],
     ["per-bin contributions after training", "predictions offered to parameter estimation"])

prop("C10", "Hierarchical groups are trained alone first, then jointly",
     "When hierarchical feature groups are given, only those groups are estimated in the first three passes while all others stay neutral, from the fourth pass on all groups are estimated in order, and training never ends before every group has been estimated, whatever the limits. "
     "Without hierarchical groups every group is estimated once per pass in the order given.",
     ["configurations", "histories"],
     "all subsets of hierarchical groups, iteration limits from 1 up, convergence patterns, aggregation modes",
     "one test pins predictions of a single hierarchical configuration; early-stop conditions inside the first passes are not explored",
     ["base.py"],
     [("hierarchical skip and stop veto", BA)],
     ["order of parameter estimations", "iteration_", "observer notifications"])

prop("C11", "Each parameter estimation sees the correct running prediction",
     "When a feature is estimated, the prediction it is offered equals the base level plus everything learned so far: all accumulated contributions in aggregating mode, all contributions except the feature's own in non-aggregating mode. "
     "The learned parameter of a bin is the sum of its applied updates in aggregating mode and the latest update otherwise, where an applied update is the learning rate times the smoothed estimate, requested for the current pass number, total passes and feature.",
     ["histories", "configurations"],
     "all update histories over several features, bins and passes, aggregation modes, learning rates",
     "tests compare only final numbers of few configurations; the intermediate ledger is never looked at",
     ["base.py", "features.py", "learning_rate.py"],
     [("incremental update of the running prediction", BA), ("accumulation of learned factors", BA)],
     ["prediction passed to parameter estimation", "learning-rate calls", "contributions after training"])

prop("C12", "Missing, unseen and out-of-range bins get the documented treatment",
     "A row whose group value is missing receives the parameter learned from the missing training rows of that group, or none at all when the feature is declared missing-not-learned; in both cases the missing rows do not influence the parameters of the other bins of that group during an estimation. "
     "A row whose bin number lies beyond the bins seen in training receives a neutral contribution, so its prediction stays finite and equals that of the model without this group.",
     ["inputs", "configurations"],
     "all feature properties with and without missing handling, all patterns of missing rows in training (none, some, all) and prediction, all estimators",
     "tests contain missing values in one data set only; missing in prediction but not in training, all-missing columns and not-learned columns are not crossed",
     ["features.py", "base.py", "flags.py"],
     [("trailing missing bin and neutral default", FE), ("prediction of non-finite bins", BA)],
     ["predict", "get_feature_contributions"])

prop("C13", "Observers see every step in order and never change the result",
     "Every observer is called once before each pass with the pass number, the current prediction, the current in-sample loss and the last update change, once after each estimated feature with pass and feature number, and once at the end with iteration -1 and the final prediction. "
     "Training with any number of observers yields the same iterations, stop criteria and predictions as without, all observers receive identical notifications, and the base observer class can be used as such.",
     ["histories", "configurations"],
     "all training histories incl. divergence and hierarchical phases, 0-3 observers, all estimators",
     "tests use one plotting observer on one fit and do not compare against an unobserved run or check the notification sequence",
     ["base.py", "observers.py", "generic_loss.py"],
     [("observer notification calls", BA)],
     ["arguments of observer callbacks", "predictions with and without observers"])

prop("C14", "Fit, refit, clone, pickle and predict form a clean life cycle",
     "The outcome of a fit depends only on the constructor parameters and the data of that fit: earlier fits, predictions or failed fits of the same object leave no trace, and clones, unpickled and deep copies behave identically to a fresh object with the same parameters or to the fitted original, respectively. "
     "Predicting, transforming or querying contributions is repeatable and does not change the estimator, and raises an error before the first fit. The caller's data is never changed, by training included, except that transform adds its output column to the frame it is given.",
     ["histories", "programs"],
     "all interleavings of construct, fit on different data sets, failing fit, predict, clone, copy/pickle, parameter change over several objects; all estimators, binner and pipelines",
     "tests always use a fresh object for one fit and one predict",
     ["base.py", "features.py", "nbinom.py", "price.py", "pipelines.py"],
     [("initialisation at the start of fit", BA), ("clearing of references after fit", BA)],
     ["predictions, importances, iteration counts after any call sequence", "caller's data", "exceptions"])

prop("C15", "Sample weights act as row multiplicities",
     "A row with integer weight k has the same effect as k copies of the row with weight one, rows of zero weight have no effect on the parameters of bins that also contain weighted rows, the order of training rows does not matter, and omitting the weight column is the same as all weights one; the loss reported for the training is the weighted mean. "
     "This holds for whole trainings of the count models (Poisson, negative binomial), the classifiers, the multiplicative generic-loss model and the price model, for the bin parameters (training without smoothing) of the location, background-subtraction and additive generic-loss models, for the base level of quantile models and for the bin boundaries of the binner.",
     ["inputs", "configurations"],
     "all small training tables, integer weight vectors incl. zero, permutations and replications, the named estimators and the binner",
     "tests check that a weighted run works on one data set, not its equivalence with replication",
     ["base.py", "regression.py", "location.py", "classification.py", "GBSregression.py", "generic_loss.py"],
     [("weighted sufficient statistics per bin", "cyclic_boosting/regression.py")],
     ["predictions, base level and loss of fitted estimators"])

prop("C16", "Prior predictions individualise the base level without shifting it",
     "With a prior prediction column, the base level of a row is its prior prediction on the link scale shifted by one constant that makes the weighted mean of the prior predictions coincide with the weighted target mean; without one it is the target mean for every row. "
     "Rows whose prior prediction is missing or not representable on the link scale, and all rows if the mean prior itself is not representable, fall back to the plain base level (plus the row's own term if representable), in training and prediction alike.",
     ["inputs", "configurations"],
     "all prior columns with valid, missing, infinite, zero and negative entries, weights, all links and estimators supporting it",
     "one test uses a fully valid prior column",
     ["base.py", "nbinom.py", "generic_loss.py", "GBSregression.py"],
     [("global scale and prior offset", BA)],
     ["predictions of estimators whose learned contributions are neutral", "prediction offered to the first estimation"])

prop("C17", "Feature importances are normalised and belong to the current fit",
     "After a fit there is exactly one importance per feature group of that fit, each is non-negative, they sum to one unless all groups are neutral, and each is proportional to the average absolute link-scale contribution of that group over the training rows. ",
     ["inputs", "histories", "configurations"],
     "all fitted models, refits with other groups, column names of any type, single and interaction groups, neutral groups",
     "one test pins four numbers of one fit",
     ["base.py"],
     [("importance accumulation at the end of training", BA)],
     ["get_feature_importances"])

prop("C18", "Invalid targets, inputs and parameters are rejected, valid ones accepted",
     "Each estimator accepts exactly the targets of its documented domain (counts and multiplicative models: non-negative; location and additive models: finite; classifiers: zero or one) and raises an error before learning anything otherwise. "
     "Empty data, mismatching lengths, unknown columns, empty group lists, wrong smoother choices, explicit smoothers that are none or not named by a tuple of columns, price models with missing standard groups or groups of the wrong kind, missing or colliding output columns and non-frame input to transform are rejected likewise, and a call rejected for its target or for the size of its data leaves a previously fitted model as it was. Infinite targets of multiplicative models are left open.",
     ["inputs", "configurations"],
     "all estimators crossed with target vectors containing negative, zero, fractional, missing and infinite entries at any position, and all listed misuse cases",
     "tests cover one or two invalid targets for few estimators",
     ["base.py", "regression.py", "location.py", "classification.py", "GBSregression.py", "generic_loss.py", "nbinom.py"],
     [("target checks at the start of fit", BA)],
     ["exceptions raised by fit / transform / constructors"])

prop("C19", "Each bin estimate is the documented function of its sufficient statistics",
     "In one estimation step the parameter and uncertainty of a bin depend only on the weights, targets and current predictions of the rows in that bin and equal the model's closed form: gamma posterior for multiplicative count models (with the negative-binomial variance weighting), regularised weighted mean for location models, beta posterior for classification, regularised sum for background subtraction. "
     "Bins without rows get the prior, and for count models, classification and background subtraction the estimates never fall when a target of the bin rises.",
     ["inputs", "configurations"],
     "all small bins (weights, targets, predictions), empty bins, all closed-form estimators and their parameters",
     "tests pin a few vectors for two of the estimators",
     ["regression.py", "location.py", "classification.py", "GBSregression.py"],
     [("sufficient statistics by bincount and posterior moments", "cyclic_boosting/regression.py")],
     ["factors of a one-pass training without smoothing", "parameter estimation results"])

prop("C20", "Feature flags select the documented smoother",
     "For every legal combination of feature flags and every smoother-choice scheme, the smoothing applied to a feature group is the documented one: linear before seasonal before monotonic before continuous before ordered before unordered, explicit smoothers before everything except in the scheme without smoothing, multi-column groups by the multi-column rule of the scheme. "
     "Binners and the consistency check reject inconsistent flag combinations, every combination can be written out by the names of its flags, and adding or removing missing-handling flags never changes the choice.",
     ["configurations"],
     "all subsets of the thirteen feature flags, one to three columns per group, all choice schemes and their switches",
     "tests check about ten hand-picked flag values",
     ["common_smoothers.py", "flags.py"],
     [("flag simplification and smoother maps", "cyclic_boosting/common_smoothers.py")],
     ["smoother returned by the choice object", "smoothed values"])

prop("C21", "The regression type decides where smoothed values are defined",
     "A discontinuous smoother predicts undefined for every bin without training data and for every bin outside the trained range, an interpolating one only outside the trained range, an extrapolating one nowhere; rows with a missing coordinate are never assigned a value of a real bin. "
     "Everywhere else the values are exactly those of the wrapped smoother, and each row's value is independent of the other rows predicted with it.",
     ["inputs", "configurations"],
     "all training bin sets with gaps in one and two dimensions, all prediction batches incl. missing, out-of-range and all-missing, all three types, with and without normalisation",
     "tests fix one training set per type",
     ["smoothing/regression_type.py", "smoothing/meta_smoother.py", "utils.py"],
     [("seen-bin bookkeeping and masking", "cyclic_boosting/smoothing/meta_smoother.py")],
     ["smoother predictions"])

prop("C22", "Regularising smoothers shrink each bin towards the documented mean",
     "A regularised bin value is the inverse-variance weighted combination of the bin's own estimate and the weighted mean of all bins (of the neighbouring bins in the neighbour variant; of the prior, if given), so it always lies between the two, uncertain bins move more than certain ones, identical bins stay put, and bins never seen get the prior or neutral value. "
     "The result does not depend on the order in which bins are presented.",
     ["inputs"],
     "all small vectors of estimates and uncertainties incl. equal, single and extreme ones, with and without prior",
     "tests pin a few vectors",
     ["utils.py", "smoothing/onedim.py", "smoothing/multidim.py"],
     [("regularisation to the error-weighted mean", "cyclic_boosting/utils.py")],
     ["smoother predictions after fit"])

prop("C23", "Monotonic features always get the best monotone fit",
     "For a feature declared monotonic (increasing, decreasing or with automatic direction) the smoothed bin values are monotone in the bin number in that direction for every data set and equal the inverse-variance weighted least-squares monotone fit; outside the trained bins they stay constant.",
     ["inputs", "configurations"],
     "all small bin estimate vectors with all weights, all three monotonicity declarations, gaps in bins, fitted models using such a feature",
     "tests check one noisy sequence",
     ["smoothing/onedim.py", "common_smoothers.py"],
     [("isotonic regression wrapper", "cyclic_boosting/smoothing/onedim.py")],
     ["smoother predictions", "contributions of a fitted estimator over increasing bins"])

prop("C24", "Group-wise and sectioned smoothing treat each part independently",
     "Smoothing within groups gives each group exactly the values its own data would give when smoothed alone, whatever the other groups contain and however rows are ordered; groups without training data are undefined. "
     "A sectioned smoother applies the lower smoother up to and including the split and the upper one beyond it, for training and prediction alike.",
     ["inputs"],
     "all small two-column bin tables with gaps, weights incl. zero, prediction batches with unknown groups; all split positions",
     "tests use one table each",
     ["smoothing/multidim.py", "smoothing/meta_smoother.py", "smoothing/onedim.py"],
     [("split by group, fit and scatter back", "cyclic_boosting/smoothing/multidim.py")],
     ["smoother predictions"])

prop("C25", "Pipeline factories hand every option to the right component",
     "A ready-made pipeline consists of the binning transformer followed by the named estimator, and every option given to the factory reaches exactly the component parameter of that name with the given value, options not given keep the documented factory defaults. "
     "Fitting the pipeline is equivalent to binning by hand and fitting the estimator with those parameters, and options an estimator does not have are not silently applied to something else.",
     ["configurations"],
     "all factories, every option individually and in seeded combinations, with sentinel values",
     "integration tests exercise each factory with one option set and pin the resulting numbers",
     ["pipelines.py"],
     [("keyword routing per estimator", "cyclic_boosting/pipelines.py")],
     ["get_params of the pipeline steps", "predictions of pipeline versus by hand"])

prop("C26", "Learning-rate schedules stay in (0, 1], never decrease and reach one",
     "Every learning-rate schedule returns for each pass a rate in (0, 1] that never decreases over passes and follows its documented formula; the constant schedule is always one, the linear one reaches one at the last pass, the half-linear one from half of the passes on, the logistic one stays between its asymptotes. "
     "The default schedule is half-linear and hierarchical training always uses the constant one.",
     ["inputs", "configurations"],
     "all pairs of pass number and maximal passes up to a bound, all schedules",
     "tests check single values",
     ["learning_rate.py", "base.py"],
     [("schedule functions", "cyclic_boosting/learning_rate.py")],
     ["returned rates", "rates applied during training"])

prop("C27", "Interaction terms are enumerated completely and selected by score",
     "The enumeration of interaction terms of a set of features up to a given size yields every combination of two columns up to that size exactly once, each row's combined bin number identifies its combination of bins uniquely, and selecting the best k terms returns exactly the k highest-scoring ones.",
     ["inputs", "configurations"],
     "all feature subsets up to six columns, sizes 2-4, small bin tables, all k",
     "one test pins one selection",
     ["interaction_selection.py"],
     [("combination enumeration and scoring", "cyclic_boosting/interaction_selection.py")],
     ["returned term lists"])

prop("C28", "Classifier probabilities and labels are coherent",
     "Class probabilities of a fitted classifier lie strictly between zero and one, the two columns add up to one, the label is one exactly when the probability of class one exceeds one half, also for the labels fit_transform writes; without prior probabilities the odds are the odds of the base level times those of the contributions; and raising the share of positive targets in a bin never lowers the probability of rows in that bin when it is the only feature.",
     ["inputs", "configurations"],
     "all small training tables of binary targets, weights, missing bins, priors; all prediction rows",
     "tests pin a mean absolute deviation on one data set",
     ["classification.py", "generic_loss.py", "link.py"],
     [("logit link and probability stacking", "cyclic_boosting/classification.py")],
     ["predict_proba", "predict"])

prop("C29", "Quantile-parameterised distributions hit their quantiles and stay ordered",
     "A distribution fitted through three strictly increasing quantile values reproduces those values at the given quantile levels, its quantile function never decreases with the level, its cumulative function inverts it (where values can be told apart from the bounds in floating point), and all values respect the declared bounds of the semi-bounded and bounded variants, for symmetric and skewed triplets alike, for single triplets and arrays of them. Triplets of which one has its low value above or its high value below the median are refused with ValueError. "
     "Stretching, shifting or mirroring triplet and bounds does the same to the distribution. "
     "The chain of quantile regressors hands its models monotonically transformed targets of the rows below and above the predicted median and transforms their predictions back exactly, so its three values are those of the models on the original scale, in order and within the bounds.",
     ["inputs"],
     "all ordered triplets on a grid, several outer levels, all three bound types",
     "tests pin a few triplets, and none is symmetric",
     ["quantile_matching.py"],
     [("Johnson quantile-parameterised distribution formulas", "cyclic_boosting/quantile_matching.py")],
     ["ppf and cdf values"])

prop("C30", "Quantile and generic-loss models lower their loss and respect the quantile level",
     "The base level of a quantile model is the interpolated weighted quantile of the targets, its loss is the weighted pinball loss at the configured level, and a single-feature fit without smoothing never leaves a bin with a larger pinball loss than the base level gives it. "
     "Non-decreasing levels give non-decreasing base levels, and with a smooth loss (squared error) the generic-loss models put every bin at the minimum, its weighted mean.",
     ["inputs", "configurations"],
     "all small weighted target vectors and levels on a grid, multiplicative and additive variants",
     "tests pin numbers for two levels on one data set",
     ["generic_loss.py", "utils.py"],
     [("pinball loss and weighted quantile", "cyclic_boosting/generic_loss.py")],
     ["loss values", "base level prediction", "quantile helper output"])

prop("C31", "Price models combine demand factors and elasticities as documented",
     "For the price model the link-scale prediction is base plus the demand contributions plus (price ratio - 1) times an elasticity, which is the prior exponent times the product of the learned price factors; so at price ratio one the price features have no effect, an unknown price behaves like ratio one, and the elasticity keeps the sign of the prior exponent. "
     "In which price bin a row of unknown price is has no influence on the training.",
     ["inputs", "configurations"],
     "all small tables of price ratios incl. one and missing, with and without prior exponent column, several demand and price groups",
     "tests pin one mean absolute deviation",
     ["price.py", "base.py"],
     [("combined link prediction", "cyclic_boosting/price.py")],
     ["predict for varied price ratios", "contributions"])

prop("C32", "The variance model picks the best candidate and stays between zero and one",
     "The negative-binomial dispersion estimator changes each bin's parameter by the candidate step with the smallest summed negative log-likelihood (or the likelihood-weighted mean step in Bayesian mode), bins without rows stay neutral, its predictions lie between zero and one, and stronger regularisation never prefers a candidate with larger dispersion. "
     "Its candidate grid is symmetric around zero, always contains zero and narrows with the pass number.",
     ["inputs", "configurations"],
     "all small tables of counts and means, all pass numbers and grid sizes, both modes",
     "tests pin one mean prediction",
     ["nbinom.py"],
     [("grid search over candidate steps", "cyclic_boosting/nbinom.py")],
     ["predictions after one pass", "candidate grid", "loss values"])

prop("C33", "Smoothers see the whole grid of a group and their answer is the update",
     "In every estimation of a feature group its smoother is shown each combination of bin numbers on the group's grid exactly once, also combinations without training rows, in ascending order with the bin numbers as position, the total training weight of its rows, and the estimate with its uncertainty; the missing bin is never shown. "
     "The smoother's answer, with undefined values replaced by the neutral value, times the learning rate of the pass is added to the group's parameters; the missing bin gets its own estimate times that rate, or stays neutral when the feature is declared not to learn missing. "
     "Location models then shift the update so that its weighted mean over the learned bins vanishes. "
     "After training, rows of a combination are predicted with the parameters accumulated for it. "
     "A smoother handed in serves as a pattern: every group works with its own copy, and the one handed in is not fitted.",
     ["inputs", "configurations", "histories"],
     "all small bin tables of one- to three-dimensional groups with weights, gaps and missing entries, all learning rates, numbers of passes and scripted smoother answers; all estimator families with recording smoothers",
     "tests compare final predictions of a few trainings; what a smoother is given, grid cells without rows, undefined answers, weights per cell and the centring with weights are never looked at",
     ["base.py", "features.py", "location.py", "smoothing/base.py"],
     [("hand-over of bin estimates to the smoother and use of its answer", "cyclic_boosting/base.py"), ("bin centres, weights and the missing slot of a group", "cyclic_boosting/features.py"), ("weighted centring of location parameters", "cyclic_boosting/location.py")],
     ["arguments of the smoother's fit and predict", "feature contributions after training"])

prop("C34", "Curve smoothers give the least-squares curve of their family",
     "For equally uncertain bins a polynomial, linear or seasonal smoother returns the least-squares curve of its family (polynomials up to the degree; sines and cosines up to the order with the number of bins as period, their constant dropped by default); curves of the family are reproduced whatever the uncertainties, also by the spline smoothers. "
     "The linear smoother that forbids falling lines returns the mean instead of one, and the linear extrapolator is the weighted least-squares line at every position. "
     "The orthogonal-polynomial smoother uses the mean of up to two bins, a line for three, and otherwise the lowest degree from two on whose residual chi-square is below the degrees of freedom or at which four significance tests of terms have failed (a low degree if that would use up all bins); beyond the trained bins it stays constant. "
     "The seasonal lasso recovers a wave from the bins that have samples, whatever the others contain. Seasonal smoothers with too few bins return their fallback value, splines of too high a degree are rejected, and neutralising a two-column table removes exactly its row and column means for certainties that factorise.",
     ["inputs", "configurations"],
     "all small combinations of orthogonal basis curves on 1 to 24 bins with several certainties, weighted point sets for lines, two-column tables with row and column weights",
     "tests pin a few fits; which degree is chosen and whether the result is the best curve of the family is never decided",
     ["smoothing/onedim.py", "smoothing/orthofit.py", "smoothing/extrapolate.py", "smoothing/multidim.py", "utils.py"],
     [("orthogonal polynomial fit and choice of its degree", "cyclic_boosting/smoothing/orthofit.py"), ("polynomial, seasonal and spline smoothers", "cyclic_boosting/smoothing/onedim.py"), ("removal of one-dimensional influence", "cyclic_boosting/utils.py")],
     ["predictions of the fitted smoothers at, between and beyond the bins"])

prop("C35", "Plotting observers hold the asked pass of the last training",
     "An observer for the end of a training holds the losses before the first and after every pass, the factor changes of all passes, and copies of the final parameters; one for pass k holds losses and changes up to pass k and the parameters after k passes, unaffected by what follows, and is unfilled if training ended or broke off earlier. It describes the latest training only. "
     "Per bin of every feature (empty and missing bins included) the final state holds the mean prediction minus the mean target, and both relative to the mean of the non-missing bins, in link space; means count one extra observation of value one with weight one, quantile models compare with the target quantile of the bin instead. "
     "The diagonal histogram splits the range of predictions into 100 equal parts and gives centre, weight and weighted mean (or quantile) of the targets of each occupied part. Plots show these values and leave the observer as it is.",
     ["histories", "inputs"],
     "all pairs of trainings of up to five passes, broken-off ones included, series of four; small sparse tables; rows on and between borders of the histogram",
     "tests call plot functions on one training and look at no value",
     ["observers.py", "base.py", "generic_loss.py", "utils.py", "plots/__init__.py", "plots/_2dplots.py"],
     [("what an observer keeps", "cyclic_boosting/observers.py"), ("statistics per bin", "cyclic_boosting/base.py"), ("statistics per bin of quantile models", "cyclic_boosting/generic_loss.py"), ("grouped means and quantiles", "cyclic_boosting/utils.py")],
     ["attributes of PlottingObserver after trainings", "lines of the drawn plots"])

prop("C36", "Feature properties combine, answer and print as sets of facts",
     "A feature property is a set of facts, a named flag stands for one or several of them (monotonic includes continuous, not learning missing values and integer missing values include having missing values) and combining flags unites their facts. "
     "A question about a flag is answered yes exactly when all its facts are present; a property is consistent exactly when it is one of continuous, ordered and unordered and not both increasing and decreasing; printing names exactly the flags contained, so that joining the names gives the property back, and refuses properties that names cannot express, also inside tuples. "
     "Reading properties from a dictionary gives each column of a group its own entry in the order of the group, and the default where the dictionary, the column or the entry is missing; an entry of zero is an entry.",
     ["inputs", "configurations"],
     "all 2^14 sets of facts incl. one no name stands for, all 2^13 combinations of names, all dictionaries of three columns with all groups of up to three columns",
     "doctests show a dozen values",
     ["flags.py"],
     [("named flags", "cyclic_boosting/flags.py"), ("consistency", "cyclic_boosting/flags.py")],
     ["answers of the flag functions", "printed names", "properties read"])

prop("C37", "Functions fitted to quantiles reproduce them",
     "The normal quantile function fitted to quantile values is the least-squares line over the standard normal quantiles; fitting quantiles of a negative binomial or exponential distribution gives that distribution; a spline passes through all its points and is the cubic through them whenever one cubic is, on the whole range from zero to one. "
     "Quantile function, distribution and distribution function asked for in different modes belong to the same fit, and an unknown mode is refused. "
     "Smearing a discrete value draws uniformly from the step its distribution function makes there, from zero for the value zero, independently for every row.",
     ["inputs"],
     "all small sets of points, eleven negative binomial and five exponential distributions, all small tables of masses",
     "tests fit one distribution each and pin three values",
     ["quantile_matching.py", "utils.py"],
     [("fits", "cyclic_boosting/quantile_matching.py"), ("smearing", "cyclic_boosting/utils.py")],
     ["fitted functions at given points", "smeared values"])

prop("C38", "Link functions and their inverses undo each other and know their range",
     "For the log, logit and identity links, adding contributions on the link scale multiplies the mean, multiplies its odds, or adds to it; linking a mean and unlinking it again gives the mean back, element by element in the shape given, in a new array and without changing the argument. "
     "Values are reported to be in range exactly when every one of them is positive (log), between zero and one inclusive (logit), or always (identity); undefined values are in range of the identity only.",
     ["inputs"],
     "all walks of up to five contributions and simulated ones of fourteen, all collections of up to three of nine kinds of values",
     "tests look at one linear range",
     ["link.py"],
     [("link functions", "cyclic_boosting/link.py")],
     ["link_func, unlink_func, is_in_range"])

prop("C39", "Values are mapped to their cumulative probability in the training data",
     "A fitted ECdfTransformer maps a value of a continuous column to the share of training weight up to it: zero below the smallest training value, one from the largest on, exactly the cumulative share at every bin boundary and linear in between. "
     "A value of an ordered or unordered column is mapped to the share of weight of values up to it if it occurred in training. "
     "Missing and infinite values, values declared to mean missing, unseen discrete values and all values of a column without usable training data become NaN. "
     "Rows and columns keep their labels, columns without a feature property and the weights pass unchanged, and the table handed in is not modified.",
     ["inputs"],
     "all small weighted columns with every probe at and between the values, with missing, infinite and magic codes; seeded columns of up to 22 rows",
     "one doctest transforms seven values of one unweighted column",
     ["binning/ecdf_transformer.py", "binning/_binary_search.py"],
     [("transform", "cyclic_boosting/binning/ecdf_transformer.py"), ("interpolation", "cyclic_boosting/binning/_binary_search.py")],
     ["ECdfTransformer.fit and transform on frames and arrays"])

prop("C40", "Influence categories share out a prediction among feature groups",
     "A prediction on link scale is the base value plus the contributions entered minus those removed; with influence categories, the column of each category is the sum of the contributions of its groups, entered and removed alike, so the categories together make up the prediction without the base. "
     "A single-column group may be listed by its name or as tuple; a group that is not listed is refused with KeyError and leaves the prediction as it was. External features change the exponent only and need no category. "
     "Categories never change the prediction itself, contributions handed in are not modified, and predict_extended of a trained estimator shares out its prediction accordingly.",
     ["inputs", "call sequences"],
     "all books of up to two entries over three groups and two categories (four in the thorough tier), seeded books of up to twelve entries, all assignments of up to three groups to three categories for trained estimators",
     "no test asks for categories",
     ["base.py", "price.py"],
     [("get_influence_category, UpdateMixin", "cyclic_boosting/base.py"), ("predict_extended", "cyclic_boosting/base.py"), ("CBLinkPredictions", "cyclic_boosting/price.py")],
     ["update_predictions, remove_predictions", "predict_extended"])

prop("C41", "Features are found by group and type, and estimators name the columns they need",
     "A list of features keeps the order given; asking it by name (single column), tuple of names or feature id returns exactly the feature with those columns in that order and that type, standard unless stated, and raises KeyError when there is none; iterating over features still being fitted leaves out the stopped ones. "
     "The columns an estimator reports as required are those of its feature groups, its weight and prior prediction columns and, for price models, the price and prior exponent columns; training and predicting on these columns alone gives the same predictions. "
     "Without feature groups every column of the table that holds neither weights nor prior predictions is a feature of its own, in the order of the table, for frames and arrays alike. "
     "After training the smoothers are listed by feature id in the order of the features.",
     ["inputs"],
     "all lists of up to two features over two columns with all questions, seeded lists of up to four features over three columns, 250 trainings on the required columns, all tables of up to five columns with the roles of weights and prior predictions",
     "tests look up single existing features",
     ["features.py", "base.py", "price.py"],
     [("FeatureList", "cyclic_boosting/features.py"), ("required_columns", "cyclic_boosting/base.py"), ("required_columns", "cyclic_boosting/price.py")],
     ["FeatureList lookups", "required_columns", "get_subestimators_as_items"])

prop("C42", "Quantile-parameterised distributions have Johnson's form exactly",
     "The distribution through a triplet takes, at the level lying j times as far from the median as the given upper level on the scale of the base distribution, the value of Johnson's hyperbolic form anchored at the end of the shorter side (a straight line for a symmetric triplet): on the plain scale without bounds, of the logarithm of the distance for one bound, of the log odds (probit for the original normal version) between two bounds; the original one-bounded version has the additional inner arcsinh. "
     "The base distribution of shape s maps a quarter of the log odds t to arcsinh(st)/s for positive, sinh(st)/s for negative and t for zero shape, and its distribution function and density belong to it, also after scaling. "
     "Scales with lower, upper and two bounds and their inverses undo each other. Fitting the shape to quantiles of a distribution of known shape finds that shape, and an unknown kind of bound is refused.",
     ["inputs"],
     "243 triplets with seven levels each in twelve families; shapes 0, 4, 8 and their negatives at seven odds; 54 fits of the shape",
     "tests pin a few values of single distributions; a consistent change of the form through the same triplet is only seen by them by accident",
     ["quantile_matching.py"],
     [("J_QPD", "cyclic_boosting/quantile_matching.py"), ("SinhLogistic, BaseDist", "cyclic_boosting/quantile_matching.py"), ("fit_sinhlogistic_shape", "cyclic_boosting/quantile_matching.py")],
     ["ppf, cdf, pdf", "transformations", "fitted shape"])

prop("C43", "Factor plots show the values of the feature, bin by bin",
     "The factor plot of a one-dimensional feature draws, on the scale of the target, the smoothed parameter of every finite bin at the number of the bin, and that of the bin of missing values, last and marked, exactly if the feature may have missing values. "
     "If the feature carries truth and prediction they are drawn for the finite bins only, otherwise the raw parameters are. Everything drawn lies within the limits of the plot, and bins of ordered and unordered features are labelled with their values. "
     "The plot of a two-dimensional feature shows the deviations and smoothed parameters of all finite bins as images, first column across, second up, states parameter and weight of the bin of missing values if that parameter is not neutral, and draws for either column the mean of the factors over the other weighted with the bins, bins without weight counting once. "
     "A sheet of factor plots of a trained estimator has one panel for each feature group asked for, in that order, or for all of them, and tells for groups of one column how many training rows fell into each bin. "
     "Drawing does not change the feature.",
     ["inputs"],
     "all plots of one bin in the model, seeded features of one to five bins and of up to six bins in two dimensions over three link functions, continuous or not, with and without missing values, truth and labels; seeded sheets of up to three groups over two columns and fourteen rows",
     "no test looks at what is drawn",
     ["plots/_1dplots.py", "plots/_2dplots.py", "plots/__init__.py"],
     [("plot_factor_1d", "cyclic_boosting/plots/_1dplots.py"), ("plot_factor_2d", "cyclic_boosting/plots/_2dplots.py"), ("plot_factors", "cyclic_boosting/plots/__init__.py")],
     ["curves, images, texts and tick labels on the axes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
