"""C28: probabilities and labels of classifiers."""
import numpy as np
import pandas as pd

from cyclic_boosting import common_smoothers, flags
import cyclic_boosting as cb
from families import LR, BY_NAME
from smooth import mism, rng_of
from vlib import guarded


def coherent(est, Q, bad, conf):
    p, err = guarded(lambda: np.asarray(est.predict_proba(Q), float))
    lab, err2 = guarded(lambda: np.asarray(est.predict(Q), float))
    if err or err2:
        bad.append(mism("asking for probabilities", err or err2, conf=conf))
        return None
    if p.shape != (len(Q), 2) or lab.shape != (len(Q),):
        bad.append(mism("shape of answers", [list(p.shape), list(lab.shape)], [len(Q), 2], conf=conf))
        return None
    if not ((p > 0) & (p < 1)).all():
        bad.append(mism("probabilities between zero and one", p[:, 1], conf=conf))
    elif not np.allclose(p.sum(axis=1), 1, atol=1e-12):
        bad.append(mism("probabilities add up to one", p.sum(axis=1), conf=conf))
    elif not np.array_equal(lab, (p[:, 1] > 0.5).astype(float)):
        bad.append(mism("labels", lab, (p[:, 1] > 0.5).astype(float), conf=conf))
    return p[:, 1]


def odds(p):
    p = np.asarray(p, float)
    return np.log(p) - np.log1p(-p)


def composed(est, Q, p, bad, conf):
    """without prior probabilities, the odds are those of the base level times those of the contributions"""
    con, err = guarded(lambda: est.get_feature_contributions(Q))
    if err:
        bad.append(mism("get_feature_contributions", err, conf=conf))
        return
    want = odds(est.global_scale_) + sum(odds(c) for c in con.values())
    if not np.allclose(odds(p), want, rtol=1e-6, atol=1e-6):
        bad.append(mism("log odds from base and contributions", odds(p), want, conf=conf))


def insample(make, X, y, est, bad, conf):
    """labels written by fit_transform are those of predict"""
    t = make(output_column="label")
    out, err = guarded(lambda: np.asarray(t.fit_transform(X.copy(), y.copy())["label"], float))
    p = np.asarray(est.predict_proba(X), float)[:, 1]
    sure = np.abs(p - 0.5) > 1e-9
    if err or not np.array_equal(out[sure], (p > 0.5).astype(float)[sure]):
        bad.append(mism("labels from fit_transform", err or out, (p > 0.5).astype(float), conf=conf))


def replay_chain(case, seed):
    r = rng_of(case, seed)
    prior = r.random() < 0.3
    kw = dict(feature_groups=["x"], feature_properties={"x": r.choice([flags.IS_UNORDERED, flags.IS_ORDERED]) | flags.HAS_MISSING}, weight_column=r.choice(["w", "w", None]),
              learn_rate=r.choice(LR), maximal_iterations=r.choice([1, 2, 4, 10]), aggregate=r.random() < 0.7,
              smoother_choice=r.choice([None, common_smoothers.NoSmootherChoice(), common_smoothers.SmootherChoiceWeightedMean()]))
    if prior:
        kw["prior_prediction_column"] = "prior"
    conf = "prior %s, passes %d, smoother %s, weights %s, aggregate %s" % (prior, kw["maximal_iterations"], type(kw["smoother_choice"]).__name__, kw["weight_column"], kw["aggregate"])
    bad = []
    n = len(case["chain"][0]["rows"])
    pri = [r.choice([0.1, 0.3, 0.5, 0.8]) for _ in range(n)]
    old = None
    bins = [-1.0, 0.0, 1.0, 2.0]
    # the last row knows nothing but a prior probability of exactly one half
    Q = pd.DataFrame({"x": [np.nan if b < 0 else b for b in bins] + [99.0], "w": 1.0, "prior": [0.4] * len(bins) + [0.5]})
    for step in case["chain"]:
        rows = step["rows"]
        X = pd.DataFrame({"x": [np.nan if q["bin"] < 0 else float(q["bin"]) for q in rows], "w": [float(q["w"]) for q in rows], "prior": pri})
        y = np.array([float(q["y"]) for q in rows])
        est = cb.CBClassifier(**kw)
        _, err = guarded(lambda: est.fit(X, y))
        if err and err.startswith("ConvergenceError"):
            old = None
            continue
        if err:
            bad.append(mism("training", err, conf=conf))
            break
        p = coherent(est, Q, bad, conf)
        coherent(est, X, bad, conf)
        if not bad and not prior:
            composed(est, Q, p, bad, conf)
        if not bad and r.random() < 0.3:
            insample(lambda **k: cb.CBClassifier(**dict(kw, **k)), X, y, est, bad, conf)
        if bad:
            break
        if old is not None:
            b = rows[step["flipped"] - 1]["bin"]
            k = bins.index(float(b))
            if p[k] < old[k] - 1e-9:
                bad.append(mism("probability in bin %d after one of its targets was raised" % b, float(p[k]), "at least %r" % float(old[k]), targets=y.tolist(), conf=conf))
        old = p
    return bad


def replay_joint(case, seed):
    """several groups: coherence only"""
    r = rng_of(case, seed + 1)
    bad = []
    step = r.choice(case["chain"])
    rows = step["rows"]
    X = pd.DataFrame({"x": [np.nan if q["bin"] < 0 else float(q["bin"]) for q in rows], "w": [float(q["w"]) for q in rows]})
    X["z"] = [float(r.randrange(3)) for _ in rows]
    X["prior"] = [r.choice([0.1, 0.5, 0.99, 1.0, 0.0, np.nan]) for _ in rows]
    y = np.array([float(q["y"]) for q in rows])
    kw = dict(feature_groups=r.choice([["x", "z"], [("x", "z")], ["z", ("z", "x")]]), feature_properties={"x": flags.IS_UNORDERED | r.choice([flags.HAS_MISSING, flags.MISSING_NOT_LEARNED]), "z": flags.IS_CONTINUOUS},
              weight_column=r.choice(["w", None]), learn_rate=r.choice(LR), maximal_iterations=r.choice([1, 3, 10]), prior_prediction_column=r.choice([None, "prior"]))
    generic = r.random() < 0.15
    fam = BY_NAME["gclassifier" if generic else "classifier"]
    est = fam.make(**kw)
    conf = "%s %s" % (fam.name, kw)
    _, err = guarded(lambda: est.fit(X, y))
    if err:
        if err.startswith("ConvergenceError"):
            return {"skip": "diverging"}
        return [mism("training", err, conf=conf)]
    Q = pd.DataFrame({"x": [np.nan, 0.0, 1.0, 7.0], "z": [0.0, 1.0, np.nan, 2.0], "w": 1.0, "prior": [0.3, np.nan, 0.99, 0.5]})
    Q.loc[len(Q)] = [99.0, 99.0, 1.0, 0.5]
    for T in (Q, X):
        if generic:
            p, err = guarded(lambda: np.asarray(est.predict(T), float))
            if err or not ((p > 0) & (p < 1)).all():
                bad.append(mism("probabilities between zero and one", err or p, conf=conf))
        else:
            p = coherent(est, T, bad, conf)
            if not bad and kw["prior_prediction_column"] is None:
                composed(est, T, p, bad, conf)
    if not bad and not generic:
        insample(lambda **k: fam.make(**dict(kw, **k)), X, y, est, bad, conf)
    return bad


def c28(ctx):
    inv = ["Counted", "Rising", "Emit"]
    seed = ctx.seed
    small = ctx.tlc("Classes", "every chain of two rows", consts=dict(Bins={-1, 0, 1}, Weights={1, 3}, MinRows=1, MaxRows=2, MaxFlips=5, Random=False), invariants=inv).cases
    # weights for which the overall probability comes out as exactly one half
    small += ctx.tlc("Classes", "balanced", consts=dict(Bins={0, 1}, Weights={499, 501}, MinRows=2, MaxRows=2, MaxFlips=2, Random=False), invariants=inv).cases
    chains = ctx.tlc("Classes", "chains", consts=dict(Bins={-1, 0, 1, 2}, Weights={1, 2, 5}, MinRows=3, MaxRows=9, MaxFlips=4, Random=True), simulate=ctx.pick(400, 6000), depth=40, invariants=inv).cases
    long = ctx.tlc("Classes", "chains to all ones", consts=dict(Bins={-1, 0, 1, 2}, Weights={1, 20, 400}, MinRows=6, MaxRows=14, MaxFlips=14, Random=True), simulate=ctx.pick(60, 1000), depth=60, invariants=inv).cases
    ctx.replay(lambda c: replay_chain(c, seed), small, "small chains")
    ctx.replay(lambda c: replay_chain(c, seed), chains + long, "chains of trainings")
    ctx.replay(lambda c: replay_joint(c, seed), chains + long, "models of several groups")
