"""property -> (module, function, level), plus the wording of MANIFEST.json"""
MC = "model_checking"
CHECKS = {
    "C01": ("binning", "c01", MC),
    "C02": ("binning", "c02", MC),
    "C03": ("binning", "c03", MC),
    "C04": ("address", "c04", MC),
    "C05": ("trainer", "c05", MC),
    "C06": ("trainer", "c06", MC),
    "C07": ("trainer", "c07", MC),
    "C08": ("trainer", "c08", MC),
    "C09": ("trainer", "c09", MC),
    "C10": ("trainer", "c10", MC),
    "C11": ("trainer", "c11", MC),
    "C12": ("trainer", "c12", MC),
    "C13": ("trainer", "c13", MC),
    "C14": ("life", "c14", MC),
    "C15": ("weights", "c15", MC),
    "C16": ("trainer", "c16", MC),
    "C17": ("trainer", "c17", MC),
    "C18": ("life", "c18", MC),
    "C19": ("estimate", "c19", MC),
    "C20": ("smooth", "c20", MC),
    "C21": ("smooth", "c21", MC),
    "C22": ("smooth", "c22", MC),
    "C23": ("smooth", "c23", MC),
    "C24": ("smooth", "c24", MC),
    "C25": ("pipes", "c25", MC),
    "C26": ("trainer", "c26", MC),
    "C27": ("address", "c27", MC),
    "C28": ("classes", "c28", MC),
    "C29": ("qpd", "c29", MC),
    "C30": ("quantile", "c30", MC),
    "C31": ("price_", "c31", MC),
    "C32": ("dispersion", "c32", MC),
    "C33": ("smoothuse", "c33", MC),
    "C34": ("curves", "c34", MC),
    "C35": ("observe", "c35", MC),
    "C36": ("basics", "c36", MC),
    "C37": ("basics", "c37", MC),
    "C38": ("basics", "c38", MC),
    "C39": ("binning", "c39", MC),
    "C40": ("feats", "c40", MC),
    "C41": ("feats", "c41", MC),
    "C42": ("qpd", "c42", MC),
    "C43": ("drawing", "c43", MC),
}
NOTES = {
    "C01": ("TLA+ model of weighted equal-frequency binning, TLC behaviours replayed into the binner",
            "The guarantees are invariants of the specification for all small columns; every behaviour is replayed and compared exactly, larger columns are simulated with the seed. Trusts the affine mapping of integer grids to floats."),
    "C02": ("TLA+ model of bin lookup, TLC behaviours replayed into the binner",
            "Exhaustive over small fitted columns and all probe positions, simulated beyond; exact comparison."),
    "C03": ("TLA+ state machine of binner API calls, histories replayed into the code",
            "Seeded simulation of call histories (all histories of two calls in the thorough tier) over four small tables and nineteen configurations."),
    "C04": ("TLA+ model of bin addressing in feature groups, TLC behaviours replayed into trainings and predictions",
            "All small bin tables of one and two columns and seeded tables of up to three columns with gaps and missing entries, all probe tuples, probed row by row and in batches. Which rows share a parameter is read off contributions through an estimator whose bin parameter encodes the set of its rows."),
    "C05": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "The running prediction equals base plus parameters at every pass boundary of the model, and fit_transform, transform and predict of the code equal it. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C06": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "Every prediction and reported contribution on probe rows equals the model's. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C07": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "The model decides when training ends and which criteria hold, thresholds met exactly included. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C08": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "Rollback, damping, reset and the error after five diverging passes are actions of the model. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C09": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "Clipping of updates and accumulated parameters is part of the model; price-type features go through the price model. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C10": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "The schedule of estimations, the predictions offered and the parameters are compared. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C11": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "What every estimation is offered is compared with the ledger of the model. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C12": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "Probe rows contain missing and unseen values in every column. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C13": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator, recorded trainings validated by TLC",
            "Order and content of all notifications are compared, observed and unobserved trainings agree. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted. Recorded trainings of real estimators are validated against the same operators with the smoothed updates left open."),
    "C14": ("TLA+ state machine of estimator life cycles, call histories replayed into the code",
            "Seeded histories of fit, failing fit, predict, transform, clone, copy, pickle and parameter change over several objects, for thirteen estimators and pipelines; each object is compared with a fresh one the model names as equivalent."),
    "C16": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator",
            "Base levels of all prior codes are computed by the model. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted."),
    "C17": ("TLA+ model of the training loop, TLC behaviours replayed through a scripted estimator",
            "Importances are computed by the model from learned parameters; the code is also refitted. Small configurations exhaustively, larger ones by seeded simulation. Bin estimates are inputs of the model, supplied through the estimator's extension points; behaviours decided within rounding are dropped and counted."),
    "C18": ("TLA+ model of accepted and rejected calls, every case replayed into the estimators",
            "All estimators crossed with target vectors over marked values at every position and with every listed misuse, on fresh and on fitted objects. Infinite targets of multiplicative models are left open."),
    "C20": ("TLA+ model of the smoother choice, all flag sets replayed into the choice classes and trainings",
            "All flag sets of up to four flags for one column (all sets in the thorough tier), simulated groups of up to three columns, all schemes, explicit smoothers, normalisation and regression types. The chosen smoother is judged by the values it gives, against the documented raw smoother with normalisation and masking done independently. Polynomial and seasonal raw smoothers are taken as given."),
    "C21": ("TLA+ model of bin grids and probes, replayed into the regression-type smoothers",
            "All small grids in one and two dimensions with every weight pattern and every probe, simulated batches up to three dimensions; each batch is also asked row by row."),
    "C22": ("TLA+ model with exact rationals, every table replayed into the regularising smoothers",
            "All tables of up to three bins, simulated ones up to six (eight); mean, prior, neighbour and threshold variants, one and several dimensions. Inverse variances are small integers."),
    "C23": ("TLA+ model of pooling adjacent violators with exact rationals, replayed into the isotonic smoother",
            "Every pooling order ends in the max-min formula; all tables of up to three (four) bins, simulated ones up to nine (twelve), the smoother chosen by the flags and whole trainings included."),
    "C24": ("TLA+ model of part-wise smoothing with exact rationals, replayed into group-by and section smoothers",
            "Rows arrive in every interleaving; all small tables, simulated larger ones; six inner smoothers."),
    "C25": ("TLA+ model of option routing, every option and seeded option sets replayed into the factories",
            "All factories, every option alone and seeded combinations; parameters of both steps are compared with the model, and predictions with binning and fitting by hand."),
    "C26": ("TLA+ model of the schedules and of the training loop, values and trainings replayed",
            "Every pass of every maximum up to 60 (200) for all four schedules; logistic values are specified through their log-odds. Training behaviours are simulated with the seed."),
    "C27": ("TLA+ model of interaction enumeration, combined bin numbers and selection, replayed into the code",
            "Enumeration up to five columns, bin tables of three and four columns by seeded simulation, every number of selected terms. Scores are exact rationals of the model (share of variation explained); ties at the border are left open."),
    "C15": ("TLA+ model of equivalent weighted tables, each pair of tables trained and compared",
            "Seeded chains of steps that keep the meaning of a table (merge and split copies, permute, add rows of zero weight); thirteen estimators and the binner. Where the library's uncertainties depend on more than the weighted sums only the unsmoothed parameters are compared, for quantile models only the base level."),
    "C19": ("TLA+ model of the sufficient statistics of bins, one-pass trainings compared with the closed forms",
            "All small bins and seeded larger tables; gamma quantiles and square roots are evaluated by the harness from the statistics the model gives. Estimates and uncertainties."),
    "C28": ("TLA+ model of binary tables and flips of targets, replayed into the classifiers",
            "Chains of target flips in one bin, joint models with several features, weights, missing bins, priors and nearly one-sided targets."),
    "C30": ("TLA+ model of weighted quantiles and pinball sums with exact rationals, replayed into helper, losses and trainings",
            "All tables of two rows, seeded tables up to seven rows, nineteen levels, negative targets for the additive model. The bin values of the pinball loss are only bounded (not above the loss at the base level), since the numerical minimiser may stop at kinks; squared error is compared with the exact minimum."),
    "C29": ("TLA+ models of quantile triplets under affine maps and of the chain of quantile models, replayed into the distributions and the chain",
            "All triplets on a small grid and seeded larger ones, three kinds of bounds, all versions and shapes, single triplets and arrays; skewness is decided exactly in the specification. The chain is driven with models that answer order statistics. One open finding (upper value of the semi-bounded chain) is listed in known-findings.txt."),
    "C31": ("TLA+ model of demand and price parameters with exact arithmetic, replayed into scripted and real trainings of the price model",
            "Up to two demand and two price features, ratios below, at and above one and unknown, prior exponents of both signs, several passes; predictions and elasticities compared at all probes including unseen and missing bins. The price estimates themselves are optimiser results and are not predicted."),
    "C32": ("TLA+ model of the candidate grid and of the winners that follow from the shape of the likelihood, replayed into the dispersion search",
            "Grid, neutral bins and forced winners are exact in the specification; other winners are recomputed from the likelihood on the specified grid. One or two features, up to nine passes, both modes, penalties from none to dominating."),
    "C33": ("TLA+ model of the hand-over between estimation, smoother and parameters, replayed with recording smoothers and scripted estimates",
            "All weightings of small tables of one column and seeded tables of up to three columns, exact rational updates over up to three passes; a second mode trains every estimator family with recording smoothers and checks what they were shown. Trusts that user-defined smoothers are called like the built-in ones."),
    "C34": ("TLA+ model of curves in orthogonal bases, exact lines and neutralised tables, replayed into the curve smoothers",
            "Values are combinations of integer polynomials orthogonal on the bins, so degree and fit are decided in integers; decisions met exactly are left out. Unequal uncertainties only for exact curves and weighted lines. The seasonal lasso is judged on waves with little noise (`Wave`); fits of smoothing splines with tolerance are not predicted."),
    "C35": ("TLA+ models of observers watching a series of trainings, of statistics per bin and of the diagonal histogram, replayed into trainings",
            "Which notifications an observer keeps is decided by the model, the values come from an independent recording observer. An observer of exactly the last pass is left open, diverging (prolonged) trainings are left out and counted. Predictions per bin are summed over the rows the model assigns to it."),
    "C36": ("TLA+ model of feature properties as sets of facts, every set and combination replayed into the flag functions",
            "Exhaustive: every set of facts, every combination of names, every small dictionary. Numbers of flags are taken from the code; which facts they share is judged."),
    "C37": ("TLA+ models with exact fractions of fits to quantiles and of the steps of discrete distribution functions, replayed into the fitting functions",
            "Exact for the normal fit and for splines that are one cubic; negative binomial and exponential fits are judged on data of a member of the family. Other gamma shapes are left to the tests. Uniformity is judged by bounds of eight standard deviations."),
    "C38": ("TLA+ model of contributions on link scale moving a mean, walks replayed into the link functions",
            "Means are exact fractions at multiples of ln 2 (of one for the identity)."),
    "C39": ("TLA+ model of the empirical distribution function over the binning model, TLC behaviours replayed into the transformer",
            "Exhaustive over small weighted columns and all probes at and between values, simulated beyond; probabilities are exact fractions. Columns whose binning hits a tolerance threshold are skipped."),
    "C40": ("TLA+ model of a prediction as account book with categories, books replayed into prediction objects and trained estimators",
            "Contributions are symbolic in the model; the replay supplies numbers. For trained estimators the contribution of a group is taken from asking for one category per group, and from what changes when a column is removed."),
    "C41": ("TLA+ models of feature lists, questions and default groups, all small lists and tables replayed into the code",
            "Lists without repeated features. Required columns are judged by training on them alone."),
    "C42": ("TLA+ model of Johnson's distributions with hyperbolic functions of powers of two as exact fractions, replayed into all families",
            "Levels and triplets are chosen so that values are exact fractions on the internal scale; the shape fit is judged within 0.25 and without heavy tails."),
    "C43": ("TLA+ model of what a factor plot shows bin by bin, TLC behaviours replayed into the plot functions",
            "Values are multiples of ln 2 (halves for the identity), so that drawn values are exact fractions. What is drawn is read from the axes: curves by their labels, images, boxes and tick labels; colours and styles are not judged."),
}
NOT_APPLICABLE = {}
