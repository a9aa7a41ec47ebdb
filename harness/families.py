"""Estimators of the library with small data sets they can be trained on."""
import copy

import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import binning, common_smoothers, flags, learning_rate, smoothing

LR = [learning_rate.constant_learn_rate_one, learning_rate.linear_learn_rate, learning_rate.half_linear_learn_rate, learning_rate.logistic_learn_rate]


def squared(prediction, y, weights):
    return np.nansum(weights * (y - prediction) ** 2) / np.nansum(weights)


def cross_entropy(prediction, y, weights):
    p = np.clip(prediction, 1e-6, 1 - 1e-6)
    return -np.sum(weights * (y * np.log(p) + (1 - y) * np.log(1 - p))) / np.sum(weights)


class Family:
    """name, constructor, own parameters, kind of target, columns it needs"""

    def __init__(self, name, cls, own=None, y="count", hier=True, weight=True, prior=True, groups="feature_groups", slow=False, factory=None):
        self.name, self.cls, self.own, self.y, self.hier, self.weight, self.prior, self.groups, self.slow, self.factory = (
            name, cls, own or {}, y, hier, weight, prior, groups, slow, factory)

    def make(self, **kw):
        kw = dict(self.own, **kw)
        return (self.factory or self.cls)(**kw)

    def bad_target(self, y, r):
        y = np.array(y, float)
        y[r.randrange(len(y))] = np.nan if self.y == "real" else r.choice([np.nan, -1.0, 0.5 if self.y == "binary" else -0.25])
        return y


FAMILIES = [
    Family("poisson", cb.CBPoissonRegressor),
    Family("nbinom", cb.CBNBinomRegressor, {"a": 1.2, "c": 0.3}),
    Family("location", cb.CBLocationRegressor, y="real"),
    Family("locpoisson", cb.CBLocPoissonRegressor, y="real"),
    Family("classifier", cb.CBClassifier, y="binary"),
    Family("gbs", cb.CBGBSRegressor, {"regalpha": 0.2}, y="real", prior=False),
    Family("mquantile", cb.CBMultiplicativeQuantileRegressor, {"quantile": 0.7}, slow=True),
    Family("aquantile", cb.CBAdditiveQuantileRegressor, {"quantile": 0.4}, y="real", slow=True),
    Family("mgeneric", cb.CBMultiplicativeGenericCRegressor, {"costs": squared}, slow=True),
    Family("ageneric", cb.CBAdditiveGenericCRegressor, {"costs": squared}, y="real", slow=True),
    Family("gclassifier", cb.CBGenericClassifier, {"costs": cross_entropy}, y="binary", slow=True),
    Family("nbinomc", cb.CBNBinomC, {"mean_prediction_column": "mu", "n_steps": 7}, hier=False),
    Family("exponential", cb.CBExponential, {"external_colname": "price"}, hier=False, groups="standard_feature_groups"),
]
BY_NAME = {f.name: f for f in FAMILIES}


def table(r, n, cols=("a", "b"), binned=True, missing=0.15):
    """a frame with bin numbers (or raw values), weights, prior, mean and price columns"""
    df = pd.DataFrame()
    for j, c in enumerate(cols):
        k = 2 + j
        if binned:
            v = [float(r.randrange(k)) for _ in range(n)]
        else:
            v = [r.randrange(20) / 4.0 if j == 0 else float(r.randrange(k)) for _ in range(n)]
        df[c] = [np.nan if r.random() < missing else x for x in v]
    df["w"] = [float(r.choice([1, 1, 2, 3])) for _ in range(n)]
    df["prior"] = [r.uniform(0.5, 3) for _ in range(n)]
    df["mu"] = [r.uniform(0.5, 4) for _ in range(n)]
    df["price"] = [r.choice([1.0, 0.8, 0.5, 1.2]) if r.random() > 0.1 else np.nan for _ in range(n)]
    return df


def target(r, n, kind, df=None):
    if kind == "binary":
        y = [float(r.random() < 0.4) for _ in range(n)]
        y[0], y[1] = 0.0, 1.0
    elif kind == "real":
        y = [round(r.gauss(2, 2), 2) for _ in range(n)]
    else:
        y = [float(r.choice([0, 1, 1, 2, 3, 5])) for _ in range(n)]
        y[0] = 2.0
    return np.array(y)
