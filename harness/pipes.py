"""C25: pipeline factories."""
import inspect

import numpy as np
import sklearn.pipeline

import cyclic_boosting as cb
from cyclic_boosting import binning, common_smoothers, flags, learning_rate, observers, pipelines
from families import BY_NAME, FAMILIES, LR, cross_entropy, squared, table, target
from smooth import mism, rng_of
from vlib import guarded

BY_CLASS = {f.cls.__name__: f for f in FAMILIES}
DEFAULTS = {"feature_groups": None, "hierarchical_feature_groups": None, "feature_properties": None, "weight_column": None,
            "prior_prediction_column": None, "minimal_loss_change": 1e-3, "minimal_factor_change": 1e-3, "maximal_iterations": 10,
            "aggregate": True, "a": 1.0, "c": 0.0, "var_prior_exponent": 0.1, "prior_exponent_colname": None, "gamma": 0.0, "bayes": False, "n_steps": 15,
            "regalpha": 0.0, "output_column": None}
BIN_DEFAULTS = {"n_bins": 100, "feature_properties": None, "inplace": False}


class Watcher:
    def observe_iterations(self, *a, **k):
        pass

    def observe_feature_iterations(self, *a, **k):
        pass


def value(o, r, est):
    """a value the option does not have by default and, where possible, no other option has"""
    return {
        "feature_groups": lambda: r.choice([["a", "b"], ["b", ("a", "b")], [("b", "a")]]),
        "hierarchical_feature_groups": lambda: r.choice([["a"], ["b"]]),
        "feature_properties": lambda: {"a": r.choice([flags.IS_CONTINUOUS, flags.IS_ORDERED]), "b": flags.IS_UNORDERED},
        "weight_column": lambda: "w",
        "prior_prediction_column": lambda: "prior",
        "minimal_loss_change": lambda: r.choice([1e-7, 0.011]),
        "minimal_factor_change": lambda: r.choice([1e-8, 0.013]),
        "maximal_iterations": lambda: r.choice([2, 3, 4, 14]),
        "observers": lambda: [Watcher()],
        "smoother_choice": lambda: r.choice([common_smoothers.SmootherChoiceGroupBy, common_smoothers.NoSmootherChoice])(),
        "output_column": lambda: "out",
        "learn_rate": lambda: r.choice(LR),
        "number_of_bins": lambda: r.choice([3, 5, 150, {"a": 4, "b": 2}]),
        "aggregate": lambda: False,
        "a": lambda: r.choice([1.25, 0.8]),
        "c": lambda: r.choice([0.375, 2.5]),
        "external_colname": lambda: "price",
        "standard_feature_groups": lambda: r.choice([["a"], ["a", "b"]]),
        "external_feature_groups": lambda: r.choice([["b"], ["a"]]),
        "var_prior_exponent": lambda: r.choice([0.3, 0.04]),
        "prior_exponent_colname": lambda: "exponent",
        "mean_prediction_column": lambda: "mu",
        "gamma": lambda: r.choice([0.07, 1.5]),
        "bayes": lambda: True,
        "n_steps": lambda: r.choice([5, 9, 21]),
        "regalpha": lambda: r.choice([0.6, 1.5]),
        "quantile": lambda: r.choice([0.35, 0.85]),
        "costs": lambda: squared if "Classifier" not in est else cross_entropy,
        "inplace": lambda: True,
    }[o]()


def replay_pipeline(case, seed):
    r = rng_of(case, seed)
    name = case["est"]
    fam = BY_CLASS[name]
    kw = {o: value(o, r, name) for o in case["given"]}
    # what an estimator cannot do without
    need = dict(fam.own)
    if name == "CBExponential":
        need.update(standard_feature_groups=["a"], external_feature_groups=["b"])
    if name in ("CBNBinomRegressor", "CBGBSRegressor"):
        need = {}
    need.pop("n_steps", None)
    train = r.random() < (0.08 if fam.slow else 0.4)
    if train:
        need["feature_properties"] = value("feature_properties", r, name)
        if name != "CBExponential":
            need["feature_groups"] = value("feature_groups", r, name)
        need["maximal_iterations"] = 3
    for k, v in need.items():
        kw.setdefault(k, v)
    f = getattr(cb, "pipeline_" + name)
    if r.random() < 0.2:
        f = lambda **k: pipelines.pipeline_CB(fam.cls, **k)  # noqa
    given = list(kw)
    r.shuffle(given)
    p, err = guarded(lambda: f(**{k: kw[k] for k in given}))
    if err:
        return [mism("%s: factory with %s" % (name, sorted(case["given"])), err)]
    bad = []
    if not isinstance(p, sklearn.pipeline.Pipeline) or len(p.steps) != 2 or type(p.steps[0][1]) is not binning.BinNumberTransformer or type(p.steps[1][1]) is not fam.cls:
        return [mism("%s: steps" % name, str(p)[:200], "binner, %s" % name)]
    b, e = p.steps[0][1], p.steps[1][1]
    # the components built by hand
    own = {k: kw[k] for k in list(case["cb"]) + [k for k in need if k not in case["cb"]]}
    full = {k: v for k, v in DEFAULTS.items() if k in inspect.signature(fam.cls.__init__).parameters}
    if name == "CBExponential":
        full.pop("feature_groups", None)
    full.update(own)
    full.setdefault("learn_rate", None)
    hand_e, err = guarded(lambda: fam.cls(**full))
    bk = dict(BIN_DEFAULTS)
    bk.update({k: kw["number_of_bins" if k == "n_bins" else k] for k in list(case["bin"]) + (["feature_properties"] if train else [])})
    hand_b = binning.BinNumberTransformer(**bk)
    if err:
        return [mism("%s: construction by hand" % name, err)]
    for comp, hand, label in ((e, hand_e, name), (b, hand_b, "binner")):
        got, want = comp.get_params(deep=False), hand.get_params(deep=False)
        for k in want:
            g, w = got.get(k, "absent"), want[k]
            same = g is w or type(g) is type(w) and (isinstance(w, common_smoothers.SmootherChoice) and "smoother_choice" not in kw or _eq(g, w))
            if not same:
                bad.append(mism("%s: parameter %s of %s" % (name, k, label), str(g)[:80], str(w)[:80], given=sorted(case["given"])))
    if bad or not train:
        return bad
    # training the pipeline is binning by hand and training the estimator
    X = table(r, 24, binned=False)
    X["exponent"] = -1.5
    X = X[[c for c in X.columns if c in ("a", "b") or c in kw.values() or c in ("price", "mu")]] if r.random() < 0.5 else X
    y = target(r, 24, fam.y)
    Q = table(r, 10, binned=False)
    Q["exponent"] = -1.5
    Q = Q[X.columns]
    if e.observers:
        e.observers = hand_e.observers = []

    def by_hand():
        Z = hand_b.fit_transform(X.copy(), y)
        hand_e.fit(Z, y)
        return np.asarray(hand_e.predict(hand_b.transform(Q.copy())), float)

    want, err1 = guarded(by_hand)
    got, err2 = guarded(lambda: np.asarray(p.fit(X.copy(), y.copy()).predict(Q.copy()), float))
    if bool(err1) != bool(err2) or not err1 and not np.allclose(want, got, rtol=1e-9, equal_nan=True):
        bad.append(mism("%s: pipeline differs from binning and training by hand" % name, err2 or str(got)[:200], err1 or str(want)[:200], given=sorted(case["given"])))
    return bad


def _eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def c25(ctx):
    names = {f.cls.__name__ for f in FAMILIES}
    inv = ["Routed", "NothingLost", "Emit"]
    cases = ctx.tlc("Pipelines", "every single option", consts=dict(Estimators=names, Random=False, MinOptions=0, MaxOptions=1), invariants=inv).cases
    cases += ctx.tlc("Pipelines", "combinations", consts=dict(Estimators=names, Random=True, MinOptions=8, MaxOptions=16), simulate=ctx.pick(1500, 20000), depth=40, invariants=inv).cases
    if not ctx.quick:
        cases += ctx.tlc("Pipelines", "every pair of options", consts=dict(Estimators=names, Random=False, MinOptions=2, MaxOptions=2), invariants=inv).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_pipeline(c, seed), cases, "pipelines built")
