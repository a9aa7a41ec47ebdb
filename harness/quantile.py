"""C30: quantile models."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import common_smoothers, flags, learning_rate, utils
from smooth import frac, mism, rng_of
from vlib import guarded


def data(case, shift=0.0):
    rows = case["rows"]
    X = pd.DataFrame({"x": [np.nan if q["bin"] < 0 else float(q["bin"]) for q in rows], "w": [float(q["w"]) for q in rows]})
    return X, np.array([float(q["y"]) + shift for q in rows])


def pinball(y, w, v, q):
    return float(sum(wi * ((1 - q) * (v - yi) if yi < v else q * (yi - v)) for yi, wi in zip(y, w)))


def rounding(case):
    """the share of the weight is a whole number that floating point misses"""
    q = case["level"] / case["scale"]
    exact = case["level"] * case["total"]
    f = case["total"] * q
    return exact % case["scale"] == 0 and f != exact // case["scale"]


def replay_base(case, seed):
    if rounding(case):
        return {"skip": "decided within rounding"}
    r = rng_of(case, seed)
    q = case["level"] / case["scale"]
    X, y = data(case)
    base = frac(case["base"])
    bad = []
    order = list(range(len(y)))
    r.shuffle(order)
    X, y = X.iloc[order].reset_index(drop=True), y[order]
    w = np.asarray(X["w"])
    v, err = guarded(lambda: float(utils.continuous_quantile_from_discrete_pdf(y, q, w)))
    if err or not abs(v - base) < 1e-9:
        bad.append(mism("quantile %g" % q, err or v, base))
    vi, err = guarded(lambda: float(utils.continuous_quantile_from_discrete_pdf(y.astype(int), q, w)))
    if err or not abs(vi - base) < 1e-9:
        bad.append(mism("quantile %g of integers" % q, err or vi, base))
    both = [(cb.CBAdditiveQuantileRegressor, False)]
    if min(y) >= 0 and base > 0:
        both.append((cb.CBMultiplicativeQuantileRegressor, True))
    for cls, mult in both:
        est = cls(feature_groups=["x"], feature_properties={"x": flags.IS_UNORDERED | flags.HAS_MISSING}, weight_column="w", quantile=q, maximal_iterations=1,
                  learn_rate=learning_rate.constant_learn_rate_one, smoother_choice=common_smoothers.NoSmootherChoice(use_regression_type=False, use_normalization=False), aggregate=r.random() < 0.5 and not mult)
        # losses at constant predictions
        for t, L in case["losses"]:
            got, err = guarded(lambda: float(est.loss(np.full(len(y), float(t)), y, w)))
            exp = L / case["scale"] / case["total"]
            if err or not abs(got - exp) < 1e-9 * max(1, abs(exp)):
                bad.append(mism("loss at %d, level %g" % (t, q), err or got, exp))
        _, err = guarded(lambda: est.fit(X, y))
        if err and err.startswith("ConvergenceError"):
            continue
        if err:
            bad.append(mism("training", err, level=q, mult=mult))
            continue
        P = pd.DataFrame({"x": [9.0], "w": [1.0]})
        b, err = guarded(lambda: float(est.predict(P)[0]))
        if err or not abs(b - base) < 1e-7 * max(1, abs(base)):
            bad.append(mism("base level of %s at %g" % (cls.__name__, q), err or b, base))
        if est.iteration_ != 1:
            continue
        for bin_ in case["bins"]:
            rows = [z for z in case["rows"] if z["bin"] == bin_["bin"]]
            p, err = guarded(lambda: float(est.predict(pd.DataFrame({"x": [np.nan if bin_["bin"] < 0 else float(bin_["bin"])], "w": [1.0]}))[0]))
            if err:
                bad.append(mism("prediction in bin %d" % bin_["bin"], err))
                continue
            cost = pinball([z["y"] for z in rows], [z["w"] for z in rows], p, q) / bin_["w"]
            best = bin_["best"] / case["scale"] / bin_["w"]
            start = pinball([z["y"] for z in rows], [z["w"] for z in rows], base, q) / bin_["w"]
            # the minimiser may stop early on the kinks of the loss, but never leaves the bin worse off
            if cost > start + 1e-6 * max(1, start) or cost < best - 1e-9:
                bad.append(mism("loss of bin %d at its prediction %r, level %g" % (bin_["bin"], p, q), cost, "between %r and %r" % (best, start), mult=mult))
    return bad


def replay_smooth(case, seed):
    """a smooth loss has its minimum at the weighted mean of the bin"""
    r = rng_of(case, seed)
    X, y = data(case)
    w = np.asarray(X["w"])
    bad = []
    calls = []

    def squared(prediction, y, weights):
        calls.append(1)
        return np.sum(weights * (y - prediction) ** 2) / np.sum(weights) if len(y) and np.sum(weights) > 0 else 0.0

    both = [(cb.CBAdditiveGenericCRegressor, False)]
    if min(y) >= 0 and (w * y).sum() > 0:
        both.append((cb.CBMultiplicativeGenericCRegressor, True))
    for cls, mult in both:
        est = cls(feature_groups=["x"], feature_properties={"x": flags.IS_UNORDERED | flags.HAS_MISSING}, weight_column="w", costs=squared, maximal_iterations=1,
                  learn_rate=learning_rate.constant_learn_rate_one, smoother_choice=common_smoothers.NoSmootherChoice(use_regression_type=False, use_normalization=False), aggregate=False)
        _, err = guarded(lambda: est.fit(X, y))
        if err and err.startswith("ConvergenceError"):
            continue
        if err:
            bad.append(mism("training", err, mult=mult))
            continue
        base = (w * y).sum() / w.sum() + 0.001
        b, err = guarded(lambda: float(est.predict(pd.DataFrame({"x": [9.0], "w": [1.0]}))[0]))
        if err or not abs(b - base) < 1e-7 * max(1, abs(base)):
            bad.append(mism("base level of %s" % cls.__name__, err or b, base))
        if est.iteration_ != 1:
            continue
        for bin_ in case["bins"]:
            rows = [z for z in case["rows"] if z["bin"] == bin_["bin"]]
            m = sum(z["w"] * z["y"] for z in rows) / bin_["w"]
            p, err = guarded(lambda: float(est.predict(pd.DataFrame({"x": [np.nan if bin_["bin"] < 0 else float(bin_["bin"])], "w": [1.0]}))[0]))
            if err or not abs(p - m) < 2e-4 * max(1.0, abs(m), base):
                bad.append(mism("value of bin %d in %s" % (bin_["bin"], cls.__name__), err or p, m))
    if not calls:
        bad.append(mism("calls of the given loss", 0, "some"))
    return bad


def c30(ctx):
    inv = ["Optimal", "NoBetter", "Ordered", "Within", "Emit"]
    seed = ctx.seed
    levels = {1, 2, 4, 5, 7, 10, 13, 16, 18, 19}
    kw = dict(Bins={-1, 0, 1}, Targets={0, 1, 2, 3, 7}, Weights={0, 1, 2, 5}, Levels=levels, Scale=20, MinRows=3, MaxRows=8, Random=True)
    cases = ctx.tlc("Quantile", "tables", consts=kw, simulate=ctx.pick(700, 8000), depth=20, invariants=inv).cases
    cases += ctx.tlc("Quantile", "tables with negative targets", consts=dict(kw, Targets={-4, -1, 0, 1, 6}, Weights={1, 1, 3}, MinRows=5, MaxRows=14), simulate=ctx.pick(300, 4000), depth=30, invariants=inv).cases
    cases += ctx.tlc("Quantile", "every table of two rows", consts=dict(kw, Bins={0, -1}, Targets={0, 1, 3}, Weights={1, 2}, Levels={2, 10, 15}, MinRows=1, MaxRows=2, Random=False), invariants=inv).cases
    ctx.replay(lambda c: replay_base(c, seed), cases, "quantile models")
    ctx.replay(lambda c: replay_smooth(c, seed), cases[:: ctx.pick(3, 2)], "models of a smooth loss")
