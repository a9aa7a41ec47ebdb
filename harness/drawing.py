"""C43: factor plots."""
import math
import re

import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import flags, observers
from cyclic_boosting.binning import BinNumberTransformer
from cyclic_boosting.common_smoothers import SmootherChoiceGroupBy
from cyclic_boosting.features import create_features
from cyclic_boosting.utils import get_bin_bounds
from smooth import mism, rng_of
from vlib import guarded

LINK = {"log": cb.CBPoissonRegressor, "logit": cb.CBClassifier, "identity": cb.CBLocationRegressor}
UNIT = {"log": math.log(2), "logit": math.log(2), "identity": 0.5}


def frac(q):
    return q[0] / q[1]


def feature_of(case, r, names, unit):
    prop = r.choice([flags.IS_CONTINUOUS, flags.IS_CONTINUOUS | flags.IS_LINEAR] if case["cont"] else [flags.IS_UNORDERED, flags.IS_ORDERED])
    if case["missing"]:
        prop |= r.choice([flags.HAS_MISSING, flags.MISSING_NOT_LEARNED])
    f = create_features([tuple(names)], {n: prop for n in names}, SmootherChoiceGroupBy())[tuple(names)]
    col = lambda s: np.array([b[s] * unit for b in case["bins"]], float)
    f.factors_link, f.unfitted_factors_link = col("smoothed"), col("raw")
    f.unfitted_uncertainties_link = np.array([r.choice([0.05, 0.1, 0.3]) for _ in case["bins"]])
    f.bin_weightsums = np.array([float(b["w"]) for b in case["bins"]])
    if case["stats"]:
        f.y, f.prediction, f.mean_dev = col("truth"), col("prediction"), col("dev")
    return f, prop


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def snapshot(f):
    return {k: np.array(v, float) for k, v in vars(f).items() if isinstance(v, np.ndarray)}


def unchanged(f, before, bad):
    for k, v in before.items():
        if not np.array_equal(np.asarray(getattr(f, k), float), v, equal_nan=True):
            bad.append(mism("feature after drawing: " + k, np.asarray(getattr(f, k)).tolist(), v.tolist()))


def replay_onedim(case, seed):
    import matplotlib.pyplot as plt

    from cyclic_boosting import plots

    r = rng_of(case, seed)
    est = LINK[case["link"]](feature_groups=["col"])
    f, prop = feature_of(case, r, ["col"], UNIT[case["link"]])
    n = case["dims"][0]
    kw, bounds = {}, None
    if r.random() < 0.5:
        # the values of the bins, from a binner fitted on them
        vals = sorted(r.sample(range(-4, 12), n))
        b = BinNumberTransformer(n_bins=max(n, 2), feature_properties={"col": prop})
        _, err = guarded(lambda: b.fit(pd.DataFrame({"col": [float(v) for v in vals]})))
        if err:
            return [mism("binning of the values", err)]
        bounds = get_bin_bounds([b], "col")
        if bounds is not None and len(bounds) == n + 1:
            kw["bin_bounds"] = bounds
        else:
            bounds = None
    errors = r.random() < 0.7
    kw["with_errorbars"] = errors
    bad, before = [], snapshot(f)
    try:
        plt.close("all")
        plt.figure()
        _, err = guarded(lambda: plots.plot_factor_1d(f, link_function=est, **kw), 60)
        if err:
            return [mism("plot_factor_1d", err)]
        ax = plt.gca()
        got = {}
        for ln in ax.get_lines():
            got.setdefault(ln.get_label(), []).append((np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)))
        for c in ax.containers:
            got.setdefault(c.get_label(), []).append((np.asarray(c.lines[0].get_xdata(), float), np.asarray(c.lines[0].get_ydata(), float)))
        for s, label in (("smoothed", "smoothed factors"), ("raw", "factors"), ("truth", "truth"), ("prediction", "prediction")):
            want = case["lines"][s]
            have = got.get(label, [])
            if not want:
                if have:
                    bad.append(mism("nothing drawn as " + label, str(have)[:200], "nothing"))
                continue
            x, y = [p[0] for p in want], [frac(p[1]) for p in want]
            if not any(near(a, x) and near(b, y) for a, b in have):
                bad.append(mism("drawn as " + label, str([(a.tolist(), b.tolist()) for a, b in have])[:300], [x, y], link=case["link"]))
        have = got.get("smoothed nan factor", [])
        if case["marker"]:
            x, y = case["marker"][0], frac(case["marker"][1])
            if not any(near(a, [x]) and near(b, [y]) for a, b in have):
                bad.append(mism("marker of missing values", str(have)[:200], [x, y]))
        elif have:
            bad.append(mism("marker of missing values", str(have)[:200], "none"))
        lo, hi = ax.get_ylim()
        ys = [frac(p[1]) for s in ("smoothed", "truth", "prediction") for p in case["lines"][s]]
        if min(ys) < lo - 1e-9 or max(ys) > hi + 1e-9:
            bad.append(mism("limits of the plot", [lo, hi], [min(ys), max(ys)]))
        if bounds is not None and not case["cont"]:
            texts = [t.get_text() for t in ax.get_xticklabels()]
            told = [(x, float(t)) for x, t in zip(ax.get_xticks(), texts) if t not in ("",)]
            if told != [(float(i), float(v)) for i, v in enumerate(vals)]:
                bad.append(mism("labels of the bins", str(told)[:200], vals))
        if ax.get_xlabel() != "col":
            bad.append(mism("name of the feature", ax.get_xlabel(), "col"))
    finally:
        plt.close("all")
    unchanged(f, before, bad)
    return bad


def replay_twodim(case, seed):
    import matplotlib.pyplot as plt

    from cyclic_boosting import plots

    r = rng_of(case, seed)
    f, _ = feature_of(case, r, ["one", "two"], math.log(2))
    bad, before = [], snapshot(f)
    try:
        plt.close("all")
        fig = plt.figure()
        _, err = guarded(lambda: plots.plot_factor_2d(np.array(case["dims"]), f), 60)
        if err:
            return [mism("plot_factor_2d", err)]
        table = lambda s: np.array([b[s] for b in case["bins"][:-1]], float).reshape(case["dims"]) * math.log(2)
        shown = [a for a in fig.axes if a.get_images()]
        upper = "dev" if case["stats"] else "raw"
        for ax, s, nan in zip(shown, (upper, "smoothed"), ("raw", "smoothed")):
            img = np.asarray(ax.get_images()[0].get_array(), float)
            if (ax.get_xlabel(), ax.get_ylabel()) != ("one", "two"):
                bad.append(mism("names of the axes", [ax.get_xlabel(), ax.get_ylabel()], ["one", "two"]))
            if not near(img, table(s).T):
                bad.append(mism("image of " + s, img.tolist(), table(s).T.tolist()))
            last = case["bins"][-1]
            texts = " ".join(t.get_text() for t in ax.texts)
            told = re.search(r"NaN: (-?[0-9.]+)", texts)
            v = last[nan] * math.log(2)
            if (told is None) != (last[nan] == 0) or told and abs(float(told.group(1)) - v) > 6e-4:
                bad.append(mism("box of missing values of " + s, texts, v))
            n = re.search(r"#: ([0-9]+)", texts)
            if told and (n is None or int(n.group(1)) != last["w"]):
                bad.append(mism("weight of missing values of " + s, texts, last["w"]))
        if len(shown) != 2:
            bad.append(mism("number of images", len(shown), 2))
        margins = [a for a in fig.axes if a.get_title().startswith("Marginal")]
        if len(margins) != 2:
            bad.append(mism("number of margins", [a.get_title() for a in fig.axes], 2))
        for ax in margins:
            k = 0 if ax.get_title().endswith("one") else 1
            have = {ln.get_label(): np.asarray(ln.get_ydata(), float) for ln in ax.get_lines()}
            want = {"smoothed factors": "smoothed"}
            if case["stats"]:
                want.update({"truth": "truth", "prediction": "prediction"})
            for label, s in want.items():
                m = [math.log(frac(q)) for q in case["margins"][s][k]]
                if label not in have or not near(have[label], m):
                    bad.append(mism("margin %d of %s" % (k, s), have.get(label, np.array([])).tolist(), m))
    finally:
        plt.close("all")
    unchanged(f, before, bad)
    return bad


def replay_sheet(case, seed):
    import matplotlib.pyplot as plt

    from cyclic_boosting import plots
    from cyclic_boosting.features import create_feature_id

    r = rng_of(case, seed)
    name = lambda g: r.choice(["ab"[g[0] - 1], ("ab"[g[0] - 1],)]) if len(g) == 1 else tuple("ab"[c - 1] for c in g)
    X = pd.DataFrame([[np.nan if v < 0 else v for v in row] for row in case["rows"]], columns=["a", "b"], dtype=float)
    kind = r.choice(["log", "identity"])
    y = np.array([float(r.randint(0, 5)) for _ in case["rows"]])
    y[0] = 3.0
    o = observers.PlottingObserver()
    est = LINK[kind](feature_groups=[name(g) for g in case["groups"]], maximal_iterations=2, observers=[o],
                     feature_properties={c: r.choice([flags.IS_CONTINUOUS, flags.IS_ORDERED, flags.IS_UNORDERED]) | flags.HAS_MISSING for c in "ab"})
    _, err = guarded(lambda: est.fit(X, y))
    if err:
        return {"skip": "training: " + err[:60]}
    kw = {}
    if case["asked"]:
        kw["feature_groups_or_ids"] = [create_feature_id(name(g)) if r.random() < 0.3 else name(g) for g in case["asked"]]
    if r.random() < 0.5:
        kw["features_per_row"] = r.choice([1, 2, 3])
    bad = []
    try:
        plt.close("all")
        fig = plt.figure(figsize=(12, 12))
        _, err = guarded(lambda: plots.plot_factors(o, **kw), 60)
        if err:
            return [mism("plot_factors", err)]
        found = []
        for ax in fig.axes:
            pair = (ax.get_xlabel(), ax.get_ylabel())
            if pair[1] in ("a", "b"):
                if not found or found[-1] != pair:
                    found.append(pair)
            elif pair[0] in ("a", "b"):
                found.append(pair[:1])
        want = [tuple("ab"[c - 1] for c in p["group"]) for p in case["panels"]]
        if found != want:
            bad.append(mism("feature groups on the sheet", found, want, asked=case["asked"]))
        curves = [np.asarray(ln.get_ydata(), float) for ax in fig.axes if not ax.get_xlabel() and not ax.get_title() for ln in ax.get_lines()]
        for p in case["panels"]:
            n = len(p["rows"])
            if n and not any(len(c) <= n and not c[n:].any() and near(np.r_[c, np.zeros(n - len(c))], p["rows"]) for c in curves):
                bad.append(mism("rows per bin", str([c.tolist() for c in curves])[:200], p["rows"]))
    finally:
        plt.close("all")
    return bad


def c43(ctx):
    inv = ["EveryBinOnce", "TruthOrRaw", "MissingMarked", "InRange", "Emit"]
    ctx.tlc("Plots", "all plots of one bin", invariants=inv, workers=4, consts=dict(Dims={(1,)}, Units={-1, 1}, Weights={1}))
    sim = lambda label, n, dims: ctx.tlc("Plots", label, invariants=inv, simulate=n, depth=40, consts=dict(Dims=dims, Units={-2, 0, 1, 3}, Weights={0, 1, 4})).cases
    ones = sim("features of one column", ctx.pick(400, 3000), {(1,), (2,), (3,), (5,)})
    twos = sim("features of two columns", ctx.pick(120, 1000), {(1, 2), (2, 2), (2, 3), (3, 2)})
    ctx.exhaustive = False
    ctx.replay(lambda c: replay_onedim(c, ctx.seed), ones[:ctx.pick(400, 4000)], "plots_of_one_column")
    ctx.replay(lambda c: replay_twodim(c, ctx.seed), twos[:ctx.pick(120, 1200)], "plots_of_two_columns")
    cases = ctx.tlc("Sheets", "sheets", invariants=["EveryRowCounted", "OncePerGroup", "AllUnlessNamed", "Emit"], simulate=ctx.pick(120, 1000), depth=30,
                    consts=dict(Groups={(1,), (2,), (1, 2), (2, 1)}, Codes={-1, 0, 1, 2}, MinRows=6, MaxRows=14)).cases
    ctx.replay(lambda c: replay_sheet(c, ctx.seed), cases[:ctx.pick(120, 1000)], "sheets_of_plots")
