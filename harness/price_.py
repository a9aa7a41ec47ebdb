"""C31: the price model."""
import math

import numpy as np
import pandas as pd

from cyclic_boosting import common_smoothers, flags, learning_rate
from cyclic_boosting.price import CBExponential
from smooth import mism, rng_of
from vlib import guarded

LN2 = math.log(2)


class Scripted(CBExponential):
    """the price model with estimates read from a behaviour"""

    log = None

    def calc_parameters(self, feature, y, pred, prefit_data):
        n = len(self.seen)
        self.seen.append((tuple(feature.feature_group), feature.feature_type is not None, np.array(pred.predict_link(), float)))
        arr = np.zeros(feature.n_bins)
        if n < len(self.log):
            step = self.log[n]
            unit = LN2 if step["feature"] > self.demands else 0.125
            for g in step["given"]:
                at = -1 if g["bin"] < 0 else g["bin"]
                if at < len(arr) - 1:
                    arr[at] = g["to"] * unit
        return arr, np.ones(len(arr))

    def loss(self, prediction, y, weights):
        return 100.0


Scripted.__init__ = CBExponential.__init__


class Recording(CBExponential):
    def calc_parameters(self, feature, y, pred, prefit_data):
        f, u = super().calc_parameters(feature, y, pred, prefit_data)
        self.seen.append((tuple(feature.feature_group), feature.feature_type is not None, np.array(f, float), np.array(u, float)))
        return f, u


Recording.__init__ = CBExponential.__init__


def names(case):
    n = len(case["rows"][0]["bin"])
    return ["d%d" % i if i < case["demands"] else "e%d" % i for i in range(n)]


def frame(case, rows, prior, cols):
    X = pd.DataFrame({c: [np.nan if r["bin"][i] < 0 else float(r["bin"][i]) for r in rows] for i, c in enumerate(cols)})
    X["ratio"] = [np.nan if r["ratio"] < 0 else r["ratio"] / 4.0 for r in rows]
    if prior:
        X["k"] = [float(r["prior"]) for r in rows]
    return X


def options(case, cols, prior, **kw):
    d = case["demands"]
    out = dict(external_colname="ratio", standard_feature_groups=cols[:d], external_feature_groups=cols[d:],
               feature_properties={c: flags.IS_UNORDERED | flags.HAS_MISSING for c in cols},
               smoother_choice=common_smoothers.NoSmootherChoice(use_regression_type=False, use_normalization=False),
               learn_rate=learning_rate.constant_learn_rate_one, minimal_loss_change=-1e9, minimal_factor_change=-1.0,
               maximal_iterations=case["passes"], **kw)
    if prior:
        out["prior_exponent_colname"] = "k"
    return out


def value(q):
    return q[0] / q[1]


def replay_scripted(case, seed):
    r = rng_of(case, seed)
    rows, probes = case["rows"], case["probes"]
    cols = names(case)
    # without a column of prior exponents the exponent is -1
    prior = not (all(x["prior"] == -1 for x in rows) and all(p["row"]["prior"] == -1 for p in probes))
    X = frame(case, rows, prior, cols)
    y = np.array([r.choice([0.0, 1.0, 3.0, 7.5]) for _ in rows])
    y[0] = 2.0
    base = math.log(y.mean() + 0.001)
    est = Scripted(**options(case, cols, prior, output_column="out"))
    est.log, est.seen, est.demands = case["log"], [], case["demands"]
    original = X.copy()
    if r.random() < 0.5:
        ins, err = guarded(lambda: np.asarray(est.fit_transform(X, y)["out"], float))
    else:
        ins, err = guarded(lambda: est.fit(X, y) and None)
    if err:
        return [mism("training", err)]
    bad = []
    if not X[original.columns].equals(original):
        bad.append(mism("the caller's frame was changed", str(X)[:300]))
    want = [(cols[s["feature"] - 1], s["feature"] > case["demands"]) for s in case["log"]]
    got = [(g[0], e) for g, e, _ in est.seen]
    if got != want:
        return bad + [mism("sequence of estimations", str(got), str(want))]
    tol = 1e-9

    def differ(what, a, e):
        a, e = np.asarray(a, float), np.asarray(e, float)
        if a.shape != e.shape or not (np.abs(a - e) <= tol * np.maximum(1.0, np.abs(e))).all():
            i = int(np.argmax(~(np.abs(a - e) <= tol * np.maximum(1.0, np.abs(e))))) if a.shape == e.shape else -1
            bad.append(mism(what, a.tolist() if i < 0 else float(a[i]), e.tolist() if i < 0 else float(e[i]), row=i))

    for (g, _, offered), s in zip(est.seen, case["log"]):
        differ("prediction offered to %s in pass %d" % (g[0], s["pass"]), offered, [base + value(q) for q in s["offered"]])
        if bad:
            return bad
    with np.errstate(all="ignore"):
        if ins is not None:
            differ("fit_transform", np.log(ins), [base + value(q) for q in case["final"]])
        p, err = guarded(lambda: np.asarray(est.predict(frame(case, rows, prior, cols)), float))
        if err:
            return bad + [mism("predict", err)]
        differ("prediction of the training rows", np.log(p), [base + value(q) for q in case["final"]])
        P = frame(case, [q["row"] for q in probes], prior, cols)
        p, err = guarded(lambda: np.asarray(est.predict(P.copy()), float))
        if err:
            return bad + [mism("predict", err)]
        differ("prediction of a probe", np.log(p), [base + value(q["link"]) for q in probes])
        # ratio one and no price at all
        for x in (1.0, np.nan, np.inf):
            p, err = guarded(lambda: np.asarray(est.predict(P.assign(ratio=x)), float))
            differ("prediction of a probe at ratio %r" % x, np.nan if err else np.log(p), [base + value(q["demand"]) for q in probes])
    con, err = guarded(lambda: est.get_feature_contributions(P.copy()))
    if err:
        return bad + [mism("get_feature_contributions", err)]
    for i, c in enumerate(cols):
        key = c + ("_external" if i >= case["demands"] else "")
        unit = LN2 if i >= case["demands"] else 0.125
        if key not in con:
            bad.append(mism("no contribution entry", str(sorted(con)), key))
        else:
            differ("contribution of " + key, con[key], [math.exp(q["own"][i] * unit) for q in probes])
    return bad


def replay_unknown(case, seed):
    """the price bins of rows without a price have no influence on training"""
    r = rng_of(case, seed)
    rows, cols = case["rows"], names(case)
    if all(x["ratio"] >= 0 for x in rows):
        return {"skip": "all_prices_known"}
    n = case["demands"] + 1  # one price feature: the others of a row enter its prior term
    cut = lambda b: list(b)[:n]
    A = [dict(x, bin=cut(x["bin"]), prior=-2) for x in rows]
    B = [dict(x, bin=cut(m)) for x, m in zip(A, case["moved"])]
    y = np.array([r.choice([0.0, 1.0, 3.0, 7.5]) for _ in rows])
    y[0] = 2.0
    kw = {}
    w = [float(r.choice([1, 2, 3])) for _ in rows]
    if r.random() < 0.5:
        kw["weight_column"] = "w"
    out = []
    for R in (A, B):
        X = frame(case, R, True, cols[:n])
        X["w"] = w
        est = Recording(**options(case, cols[:n], True, **kw))
        est.seen = []
        _, err = guarded(lambda: est.fit(X, y))
        if err and not err.startswith("ConvergenceError"):
            return [mism("training", err)]
        out.append((est, err))
    (a, ea), (b, eb) = out
    bad = []
    if ea != eb:
        return [mism("training after changing price bins of rows without a price", str(eb), str(ea))]
    known = {-1 if x["bin"][n - 1] < 0 else x["bin"][n - 1] for x in A if x["ratio"] >= 0}
    for (g, ext, fa, ua), (_, _, fb, ub) in zip(a.seen, b.seen):
        if not ext:
            if fa.shape != fb.shape or np.max(np.abs(fa - fb)) > 1e-7:
                bad.append(mism("parameters of demand feature %s" % g[0], fb.tolist(), fa.tolist()))
        else:
            for k in known:
                if abs(fa[k] - fb[k]) > 1e-7 or abs(ua[k] - ub[k]) > 1e-7:
                    bad.append(mism("parameter of bin %d of price feature %s" % (k, g[0]), [fb[k], ub[k]], [fa[k], ua[k]]))
    return bad[:5]


def c31(ctx):
    inv = ["NoPriceEffect", "Proportional", "KeepsSign", "Bounded", "Emit"]
    kw = dict(Demands=2, Prices=2, Bins={-1, 0, 1, 2}, Ratios={-1, 1, 3, 4, 5, 8}, Priors={-3, -2, -1, 2}, DemandSteps={-5, -2, 0, 1, 5}, PriceSteps={-1, 0, 1}, Top=2,
              MinRows=4, MaxRows=9, MaxPasses=4, Probes=8, Random=True)
    cases = ctx.tlc("Price", "two demand and two price features", consts=kw, simulate=ctx.pick(400, 4000), depth=60, invariants=inv).cases
    cases += ctx.tlc("Price", "without prior exponents", consts=dict(kw, Demands=1, Prices=2, Priors={-1}), simulate=ctx.pick(200, 2000), depth=60, invariants=inv).cases
    cases += ctx.tlc("Price", "unknown prices", consts=dict(kw, Demands=1, Prices=1, Ratios={-1, 2, 6}, Bins={0, 1, -1}, MinRows=8, MaxRows=20, MaxPasses=5), simulate=ctx.pick(400, 4000), depth=80, invariants=inv).cases
    cases += ctx.tlc("Price", "small, exhaustive", consts=dict(kw, Demands=1, Prices=1, Bins={0, -1}, Ratios={-1, 2, 8}, Priors={-2, 1}, DemandSteps={3}, PriceSteps={-1, 1}, MinRows=1, MaxRows=2, MaxPasses=1, Probes=1, Random=False), invariants=inv).cases
    seed = ctx.seed
    n = ctx.pick(3000, 30000)
    ctx.replay(lambda c: replay_scripted(c, seed), cases[:n], "scripted trainings")
    ctx.replay(lambda c: replay_unknown(c, seed), cases[: n : 2], "trainings with unknown prices")
