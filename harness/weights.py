"""C15: weights as multiplicities."""
import numpy as np
import pandas as pd

from cyclic_boosting import binning, common_smoothers, flags, learning_rate
from families import BY_NAME, FAMILIES, LR
from smooth import mism, rng_of
from vlib import guarded

# models whose uncertainties are not functions of the weight per kind of row are compared without smoothing;
# the regularisation of the Poisson location model itself uses them. The minimum of the pinball loss is not
# unique, so that of quantile models only the base level is compared.
UNSMOOTHED = ["location", "gbs", "ageneric"]
BASE_ONLY = ["mquantile", "aquantile"]


def frame(rows, cols, wname):
    df = pd.DataFrame({c: [np.nan if q["x"][j] < 0 else float(q["x"][j]) for q in rows] for j, c in enumerate(cols)})
    if wname:
        df[wname] = [float(q["w"]) for q in rows]
    return df




def replay_weights(case, seed, names):
    r = rng_of(case, seed)
    fam = BY_NAME[r.choice(names)]
    cols = ["a", "b", "c"][: len(case["orig"][0]["x"])]
    groups = r.choice([["a", "b"], ["b", "a"], [("a", "b")], ["a", ("b", "a")], ["a"]])
    smooth = fam.name not in UNSMOOTHED and r.random() < 0.6
    kw = dict(feature_properties={c: r.choice([flags.IS_ORDERED, flags.IS_UNORDERED, flags.IS_CONTINUOUS]) | r.choice([flags.HAS_MISSING, flags.MISSING_NOT_LEARNED]) for c in cols},
              learn_rate=r.choice(LR), maximal_iterations=r.choice([1, 2, 4]), minimal_loss_change=1e-12, minimal_factor_change=1e-12,
              smoother_choice=r.choice([common_smoothers.SmootherChoiceWeightedMean, common_smoothers.SmootherChoiceGroupBy])() if smooth else common_smoothers.NoSmootherChoice(use_normalization=r.random() < 0.5))
    if fam.name == "exponential":
        kw.update(standard_feature_groups=groups, external_feature_groups=[r.choice(cols)])
    else:
        kw["feature_groups"] = groups
    if fam.hier:
        kw["aggregate"] = r.random() < 0.7
    prior = fam.prior and r.random() < 0.3
    if prior:
        kw["prior_prediction_column"] = "prior"

    def train(rows, wname):
        X = frame(rows, cols, wname)
        y = np.array([float(q["y"]) for q in rows])
        if prior or fam.name == "exponential":
            base = np.array([((sum((3 + j) * v for j, v in enumerate(q["x"])) + 7 * q["y"]) % 11) / 12.0 for q in rows])  # belongs to the kind of row
            X["prior"] = 0.2 + 0.6 * base
            X["price"] = 0.6 + 0.7 * base
        est = fam.make(weight_column=wname, **kw)
        est.fit(X, y)
        return est

    a, ea = guarded(lambda: train(case["orig"], "w"))
    b, eb = guarded(lambda: train(case["rows"], "w"))
    conf = "%s groups %s smooth %s prior %s rewritten by %s" % (fam.name, groups, smooth, prior, sorted(case["did"]))
    if ea or eb:
        if (ea or "").split(":")[0] == (eb or "").split(":")[0]:
            return {"skip": "training ends with the same error"}
        return [mism("training", eb, ea, conf=conf)]
    bad = []
    Q = frame(case["orig"], cols, "w")
    Q = pd.concat([Q, pd.DataFrame([{c: v for c in cols} for v in (np.nan, 0.0, 1.0, 9.0)]).assign(w=1.0)], ignore_index=True)
    Q["prior"], Q["price"] = np.linspace(0.25, 0.7, len(Q)), np.linspace(0.7, 1.2, len(Q))

    def compare(m, what):
        asked = (("base level", lambda e: np.array([float(e.global_scale_)])), ("passes", lambda e: np.array([float(e.iteration_)])),
                 ("loss of the training", lambda e: np.array([float(e.insample_loss_)])),
                 ("predictions", lambda e: np.asarray(e.predict_proba(Q)[:, 1] if hasattr(e, "predict_proba") else e.predict(Q), float)))
        for name, f in asked:
            if (fam.slow and name == "passes") or (fam.name in BASE_ONLY and name != "base level"):
                continue
            p, e1 = guarded(lambda: f(a))
            q, e2 = guarded(lambda: f(m))
            if e1 or e2:
                if e1 != e2:
                    bad.append(mism(name + what, e2, e1, conf=conf))
            elif not np.allclose(p, q, rtol=2e-3 if fam.slow else 1e-6, atol=1e-3 if fam.slow else 1e-7, equal_nan=True):
                bad.append(mism(name + what, q, p, conf=conf))

    compare(b, "")
    if all(q["w"] == 1 for q in case["rows"]):
        c, ec = guarded(lambda: train(case["rows"], None))
        if ec:
            bad.append(mism("training without weight column", ec, conf=conf))
        else:
            compare(c, " without weight column")
    return bad


def replay_binner(case, seed):
    r = rng_of(case, seed)
    cols = ["a", "b", "c"][: len(case["orig"][0]["x"])]
    n = r.choice([1, 2, 3, 4])
    tol = r.choice([0.01, 0.1, 0.4])

    def fit(rows, wname):
        b = binning.BinNumberTransformer(n_bins=n, feature_properties={c: flags.IS_CONTINUOUS | flags.HAS_MISSING for c in cols}, weight_column=wname, tolerance=tol)
        b.fit(frame(rows, cols, wname))
        return b

    Q = frame(case["orig"], cols, "w")
    Q = pd.concat([Q, Q.assign(**{c: Q[c] + 0.5 for c in cols})], ignore_index=True)
    a, ea = guarded(lambda: np.asarray(fit(case["orig"], "w").transform(Q.copy())[cols], float))
    b, eb = guarded(lambda: np.asarray(fit(case["rows"], "w").transform(Q.copy())[cols], float))
    if ea or eb:
        return [] if ea == eb else [mism("binning", eb, ea)]
    if not np.array_equal(a, b):
        return [mism("bin numbers after rewriting by %s, %d bins" % (sorted(case["did"]), n), b.tolist(), a.tolist())]
    return []


def c15(ctx):
    inv = ["SameMass", "SameBins", "Unitary", "Emit"]
    seed = ctx.seed

    def gen(label, sim, **k):
        kw = dict(NCols=2, Values={-1, 0, 1, 2}, Weights={1, 2, 3}, MinRows=4, MaxRows=8, MaxSteps=4, Unit=False, Random=True)
        kw.update(k)
        return ctx.tlc("Weights", label, consts=kw, simulate=sim, depth=40, invariants=inv).cases

    for unit in (False, True):
        u = ", unit weights" if unit else ""
        n = ctx.pick(350, 6000)
        counts = gen("counts" + u, n, Targets={0, 1, 2, 5}, Unit=unit)
        ctx.replay(lambda c: replay_weights(c, seed, ["poisson", "nbinom", "exponential"]), counts, "counts" + u)
        ctx.replay(lambda c: replay_weights(c, seed, ["mquantile", "mgeneric"]), counts[: ctx.pick(60, 2000)], "counts, generic losses" + u)
        ctx.replay(lambda c: replay_binner(c, seed), counts[:: 2], "binned columns" + u)
        sums = gen("sums" + u, ctx.pick(250, 4000), Targets={-2, 0, 1, 4}, Unit=unit)
        ctx.replay(lambda c: replay_weights(c, seed, ["location", "gbs"]), sums, "sums" + u)
        ctx.replay(lambda c: replay_weights(c, seed, ["aquantile", "ageneric"]), sums[: ctx.pick(60, 2000)], "sums, generic losses" + u)
        cl = gen("classes" + u, ctx.pick(200, 3000), Targets={0, 1}, Unit=unit)
        ctx.replay(lambda c: replay_weights(c, seed, ["classifier"]), cl, "classes" + u)
        ctx.replay(lambda c: replay_weights(c, seed, ["gclassifier"]), cl[: ctx.pick(40, 1000)], "classes, generic loss" + u)
    ctx.tlc("Weights", "every rewriting of small tables", consts=dict(NCols=1, Values={0, 1}, Targets={0, 1}, Weights={1, 3}, MinRows=2, MaxRows=2, MaxSteps=3, Unit=False, Random=False),
            invariants=["SameMass", "SameBins"])
