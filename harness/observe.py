"""C35: what plotting observers keep of trainings (Observers, BinStats, Diagonal)."""
import copy
import io
import os
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np
import pandas as pd

import families
from cyclic_boosting import flags, observers
from smooth import frac, rng_of
from smooth import mism as differ
from vlib import Raw, guarded

TOL = 1e-9


def mism(expected, observed, where):
    return differ(where, observed, expected)


class Stop(Exception):
    pass


class Recorder(observers.BaseObserver):
    """all notifications of a training, by value"""

    def __init__(self, stop=None):
        self.notes, self.stop = [], stop

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.notes.append(dict(
            loss=estimator_state["insample_loss"], delta=delta, prediction=np.array(prediction, float), y=np.array(y, float), weights=np.array(weights, float),
            features=[(tuple(f.feature_group), f.feature_type, np.array(f.factors_link, float)) for f in estimator_state["features"]], model=estimator_state["link_function"]))


class Breaker(observers.BaseObserver):
    def __init__(self, at):
        self.at, self.n = at, 0

    def observe_iterations(self, *args, **kw):
        self.n += 1
        if self.n == self.at + 1:
            raise Stop("asked to stop")


def close(a, b, tol=TOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def state_of(o):
    """everything an observer holds, as plain values"""
    out = dict(loss=list(o.loss), change=list(o.factor_change))
    if o.features is not None:
        out["features"] = [{k: copy.deepcopy(v) for k, v in sorted(vars(f).items()) if isinstance(v, (np.ndarray, float, int))} for f in o.features]
        out["hist"] = copy.deepcopy(o.histograms)
    return out


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def drawn(bad, o, note):
    """plots show what the observer holds and leave it alone"""
    import matplotlib.pyplot as plt

    from cyclic_boosting import plots

    before = state_of(o)
    try:
        def lines(f):
            plt.close("all")
            plt.figure()
            f(o)
            return [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in plt.gca().get_lines()]

        for name, f, x, y in (("loss plot", plots.plot_loss, np.arange(len(o.loss)), o.loss),
                              ("factor change plot", plots.plot_factor_change, 1 + np.arange(len(o.factor_change)), o.factor_change),
                              ("diagonal plot", plots.plot_in_sample_diagonal_plot, o.histograms[1], o.histograms[0])):
            got, err = guarded(lambda: lines(f))
            if err:
                bad.append(mism("the observed values are drawn", err, name))
            elif not any(close(gx, x) and close(gy, y) for gx, gy in got):
                bad.append(mism("a line of the observed values", "%s" % [list(g[1][:5]) for g in got], name))
        pdf = io.BytesIO()
        _, err = guarded(lambda: plots.plot_analysis(o, pdf))
        if err:
            bad.append(mism("the analysis is drawn", err, "plot_analysis"))
        elif not pdf.getvalue().startswith(b"%PDF"):
            bad.append(mism("a PDF document", repr(pdf.getvalue()[:20]), "plot_analysis"))
    finally:
        plt.close("all")
    if not same(before, state_of(o)):
        bad.append(mism("an unchanged observer", "changed by drawing", note))


def watch(case, seed, draw=False):
    r = rng_of(case, seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        name = r.choice(["poisson", "poisson", "location", "classifier", "mquantile", "aquantile", "nbinom", "gbs"])
        fam = families.BY_NAME[name]
        wants = [x["want"] for x in case["trainings"][0]["rec"]]
        plotting = {w: observers.PlottingObserver(iteration=w) if r.random() < 0.8 or w != -1 else observers.PlottingObserver() for w in wants}
        bad, est = [], None
        for ti, tr in enumerate(case["trainings"]):
            X = families.table(r, r.choice([12, 25]))
            y = families.target(r, len(X), fam.y)
            props = {"a": flags.IS_ORDERED | flags.HAS_MISSING, "b": flags.IS_UNORDERED | flags.HAS_MISSING}
            rec = Recorder()
            obs = [rec] + list(plotting.values()) + ([Breaker(tr["passes"])] if tr["broken"] else [])
            kw = dict(feature_groups=r.choice([["a", "b"], ["a", ("a", "b")], ["b", "a", ("b", "a")]]), feature_properties=props,
                      maximal_iterations=max(1, tr["passes"]) + (3 if tr["broken"] else 0), minimal_loss_change=-1e99, minimal_factor_change=-1.0,
                      learn_rate=r.choice(families.LR), observers=obs)
            if r.random() < 0.5:
                kw["weight_column"] = "w"
            if fam.hier and r.random() < 0.2:
                kw.update(hierarchical_feature_groups=[kw["feature_groups"][0]])
            if est is None or r.random() < 0.5:
                est = fam.make(**kw)
            else:
                est.set_params(**kw)
            _, err = guarded(lambda: est.fit(X, y))
            if err and not err.startswith(("Stop:" if tr["broken"] else "ConvergenceError", "ConvergenceError")):
                return [mism("a training", err, "training %d of %s" % (ti + 1, name))]
            if len(rec.notes) != tr["passes"] + 1:
                # diverging passes prolong a training
                return {"skip": "prolonged"}
            for x in tr["rec"]:
                o, at = plotting[x["want"]], "observer of pass %d, training %d of %s" % (x["want"], ti + 1, name)
                if x["open"]:
                    continue
                if not close(o.loss, [rec.notes[j]["loss"] for j in x["loss"]]):
                    bad.append(mism("losses %s" % [rec.notes[j]["loss"] for j in x["loss"]], list(o.loss), at))
                if not close(o.factor_change, [rec.notes[j]["delta"] for j in x["change"]]):
                    bad.append(mism("factor changes %s" % [rec.notes[j]["delta"] for j in x["change"]], list(o.factor_change), at))
                _, err = guarded(o.check_fitted)
                if (err is None) != x["filled"] or (err and not err.startswith("ValueError")):
                    bad.append(mism("filled: %s" % x["filled"], err or "filled", at))
                    continue
                if not x["filled"]:
                    continue
                n = rec.notes[x["snap"]]
                got = [(tuple(f.feature_group), f.feature_type, np.array(f.factors_link, float)) for f in o.features]
                if [g[:2] for g in got] != [g[:2] for g in n["features"]] or not all(close(a[2], b[2]) for a, b in zip(got, n["features"])):
                    bad.append(mism("parameters %s" % [(g[0], list(g[2])) for g in n["features"]], str([(g[0], list(g[2])) for g in got]), at))
                if o.link_function is not n["model"]:
                    bad.append(mism("the observed model", repr(o.link_function)[:80], at))
                for f in o.features:
                    if int(np.prod(o.n_feature_bins[f.feature_group])) + 1 != len(f.factors_link):
                        bad.append(mism("%d regular bins of %s" % (len(f.factors_link) - 1, f.feature_group), str(o.n_feature_bins[f.feature_group]), at))
                means, centres, _, counts = o.histograms
                p = n["prediction"]
                total = float(np.sum(np.asarray(means, float) * np.asarray(counts, float)))
                if "quantile" not in name and not close(total / np.sum(counts), np.sum(n["y"] * n["weights"]) / np.sum(n["weights"]), 1e-7):
                    bad.append(mism("the mean target of the training in the histogram", total / np.sum(counts), at))
                if len(centres) != len(means) or np.min(centres) < np.min(p) - 1e-9 or np.max(centres) > np.max(p) + 1e-9:
                    bad.append(mism("one centre per range between %r and %r" % (np.min(p), np.max(p)), list(centres), at))
            if draw and not bad:
                for x in tr["rec"]:
                    if x["filled"] and (x["want"] != -1) == bool(draw % 2) and not x["open"] and len(plotting[x["want"]].features):
                        drawn(bad, plotting[x["want"]], "observer of pass %d, training %d of %s" % (x["want"], ti + 1, name))
            if bad:
                return bad
    return bad


def diagonal(case, seed):
    r = rng_of(case, seed)
    step, lo, f = r.choice([1.0, 0.5, 2.0]), r.choice([0.0, -3.0, 16.0]), r.choice([1.0, 2.0, 0.25])
    p = np.array([lo + x["p"] * case["n"] * step / case["span"] for x in case["rows"]])
    y = np.array([float(x["y"]) for x in case["rows"]])
    w = np.array([f * x["w"] for x in case["rows"]])
    q = case["level"] / case["scale"]
    ranges = sorted(case["ranges"], key=lambda x: x["r"])
    held = [x for x in ranges if x["w"] > 0]
    bad = []
    for quantile in (None, q):
        o = observers.PlottingObserver()
        state = dict(features=[], link_function=None, insample_loss=0.0)
        y1, p1, w1 = y.copy(), p.copy(), w.copy()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, err = guarded(lambda: o.observe_iterations(-1, pd.DataFrame(), y1, p1, w1, state, 0.0, *([] if quantile is None else [quantile])))
        at = "histogram" if quantile is None else "histogram of quantile %r" % q
        if err:
            bad.append(mism("a histogram", err, at))
            continue
        if not (np.array_equal(y, y1) and np.array_equal(p, p1) and np.array_equal(w, w1)):
            bad.append(mism("data left alone", "changed", at))
        means, centres, errors, counts = o.histograms
        means, centres, counts = np.asarray(means, float), np.asarray(centres, float), np.asarray(counts, float)
        if len(means) != len(centres):
            bad.append(mism("as many centres as ranges", "%d centres, %d ranges" % (len(centres), len(means)), at))
            continue
        if len(means) == len(ranges):
            keep = [i for i, x in enumerate(ranges) if x["w"] > 0]
            means, centres = means[keep], centres[keep]
        want = [x["yw"] / x["w"] if quantile is None else float(x["quantile"]) for x in held]
        mid = [(lo + (x["centre2"] / 2) * step) if case["ends"] else lo + case["n"] * step for x in held]
        if not close(means, want):
            bad.append(mism("values %s" % want, list(means), at))
        if not close(centres, mid):
            bad.append(mism("centres %s" % mid, list(centres), at))
        share = [x["w"] for x in ranges]
        if len(counts) == len(held):
            share = [x["w"] for x in held]
        if not close(counts / np.sum(counts), np.array(share, float) / sum(share)):
            bad.append(mism("weights in proportion %s" % share, list(counts), at))
        if errors is not None:
            e = [np.asarray(x, float)[[i for i, g in enumerate(ranges) if g["w"] > 0]] for x in errors]
            if not all(np.all(a <= b + TOL) for a, b in ((e[2], e[0]), (e[0], 0 * e[0]), (0 * e[0], e[1]), (e[1], e[3]))):
                bad.append(mism("bands around the median, the wider outside", str([list(x) for x in e]), at))
    return bad


def stats(case, seed):
    r = rng_of(case, seed)
    rows = case["rows"]
    X = pd.DataFrame({c: [np.nan if x[c] < 0 else float(x[c]) for x in rows] for c in ("c1", "c2")})
    w = np.array([float(x["w"]) for x in rows])
    y = np.array([float(x["y"]) for x in rows])
    X["w"] = w
    q = case["level"] / case["scale"]
    base = float(frac(case["base"]))
    names = ["location", "aquantile"]
    if np.sum(w * y) > 0:
        names += ["poisson", "poisson"]
    if base > 0:
        names += ["mquantile", "mquantile"]
    if set(y) == {0.0, 1.0} and set(y[w > 0]) == {0.0, 1.0}:
        names = ["classifier"]
    name = r.choice(names)
    fam = families.BY_NAME[name]
    quant = "quantile" in name
    rec, o = Recorder(), observers.PlottingObserver()
    kw = dict(quantile=q) if quant else {}
    groups = {"c1": "c1", "c2": "c2", "c1 c2": ("c1", "c2")}
    order = list(groups)
    r.shuffle(order)
    est = fam.make(feature_groups=[groups[g] for g in order], feature_properties={c: r.choice([flags.IS_UNORDERED, flags.IS_ORDERED, flags.IS_CONTINUOUS]) | flags.HAS_MISSING for c in ("c1", "c2")},
                   weight_column="w", maximal_iterations=r.choice([1, 3]), observers=[o, rec] if r.random() < 0.5 else [rec, o], **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, err = guarded(lambda: est.fit(X, y))
    if err and not err.startswith("ConvergenceError"):
        return [mism("a training", err, name)]
    if err and o.features is None:
        return {"skip": "not_converged"}
    p = rec.notes[-1]["prediction"]
    additive = name in ("location", "aquantile")
    bad = []
    want = {tuple(g["group"].split(" ")): g for g in case["groups"]}
    if [tuple(f.feature_group) for f in o.features] != [tuple(g.split(" ")) for g in order]:
        return [mism("features %s" % order, str([f.feature_group for f in o.features]), name)]
    for f in o.features:
        g = want[tuple(f.feature_group)]
        at = "%s of %s" % (f.feature_group, name)
        bins = g["bins"]
        rws = [sorted(b["rows"]) for b in bins]
        bw = np.array([b["w"] for b in bins], float)
        pw = np.array([np.sum(w[i] * p[i]) for i in rws])
        if quant:
            ty = np.array([float(frac(b["quantile"])) if b["w"] > 0 else 1.0 for b in bins])
            tp = np.array([pw[i] / bw[i] if bw[i] > 0 else 1.0 for i in range(len(bw))])
            my, mp = base, np.sum(w * p) / np.sum(w)
        else:
            ty = np.array([(b["yw"] + 1.0) / (b["w"] + 1.0) for b in bins])
            tp = (pw + 1.0) / (bw + 1.0)
            my, mp = g["yw"] / g["w"], np.sum(pw[:-1]) / g["w"]
        with np.errstate(all="ignore"):
            if additive:
                exp = dict(mean_dev=tp - ty, y=ty - my, prediction=tp - mp)
            else:
                exp = dict(mean_dev=np.log(tp + 1e-12) - np.log(ty + 1e-12), y=np.log(ty / my + 1e-12), prediction=np.log(tp / mp + 1e-12))
        for k, v in exp.items():
            got = np.atleast_1d(np.asarray(getattr(f, k, None), float))
            if got.shape != v.shape:
                bad.append(mism("%s for %d bins" % (k, len(v)), "%d values" % len(got), at))
                continue
            # bins whose rows have no weight are left open for quantiles
            look = np.isfinite(v) if not quant else np.isfinite(v) & np.array([b["w"] > 0 or not b["rows"] for b in bins])
            if not np.allclose(got[look], v[look], rtol=1e-7, atol=1e-7):
                bad.append(mism("%s %s" % (k, list(v)), list(got), at))
        if not close(f.bin_weightsums, bw):
            bad.append(mism("weights of the bins %s" % list(bw), list(np.asarray(f.bin_weightsums, float)), at))
    return bad


def c35(ctx):
    common = dict(invariants=["OneTraining", "Prefix", "Enough", "Changes", "Snapshot", "Filled", "Emit"])
    a = ctx.tlc("Observers", "two trainings, exhaustive", consts=dict(Wants=Raw("{-1, 1, 2, 4}"), MaxPasses=ctx.pick(5, 7), MaxTrainings=2, Random=False), **common).cases
    b = ctx.tlc("Observers", "series of trainings", consts=dict(Wants=Raw("{-1, 1, 3, 6}"), MaxPasses=8, MaxTrainings=4, Random=False), simulate=ctx.pick(900, 4000), depth=80, **common).cases
    ctx.replay(lambda c: watch(c, ctx.seed), a + b, "observed trainings")
    few = sorted(a, key=lambda c: str(c))[:: max(1, len(a) // ctx.pick(16, 60))]
    ctx.replay(lambda c: watch(c, ctx.seed, draw=1 + len(c["trainings"][0]["rec"]) % 2), few, "drawn observers")
    ctx.replay(lambda c: watch(c, ctx.seed + 1, draw=2), few, "drawn ends")
    inv = ["Partition", "Lexicographic", "LastOccupied", "Shares", "Emit"]
    s = ctx.tlc("BinStats", "two rows, exhaustive", consts=dict(Top1=1, Top2=1, Targets=Raw("{0, 3}"), Weights=Raw("{1, 2}"), Levels=Raw("{4}"), Scale=8, MinRows=2, MaxRows=2), invariants=inv).cases
    s += ctx.tlc("BinStats", "sparse tables", consts=dict(Top1=2, Top2=3, Targets=Raw("{0, 1, 2, 5}"), Weights=Raw("{0, 1, 1, 3}"), Levels=Raw("{1, 4, 6}"), Scale=8, MinRows=3, MaxRows=9), simulate=ctx.pick(900, 6000), depth=14, invariants=inv).cases
    s += ctx.tlc("BinStats", "classes", consts=dict(Top1=2, Top2=1, Targets=Raw("{0, 1}"), Weights=Raw("{1, 2}"), Levels=Raw("{4}"), Scale=8, MinRows=4, MaxRows=9), simulate=ctx.pick(200, 1500), depth=14, invariants=inv).cases
    ctx.replay(lambda c: stats(c, ctx.seed), s, "bin statistics")
    inv = ["Partition", "Inside", "Monotone", "MeanBetween", "Emit"]
    d = ctx.tlc("Diagonal", "rows by prediction", consts=dict(N=100, Span=200, Preds=Raw("{0, 1, 2, 3, 99, 100, 101, 198, 199, 200}"), Targets=Raw("{0, 1, 4}"), Weights=Raw("{0, 1, 2}"), Levels=Raw("{1, 4, 6}"), Scale=8, MinRows=2, MaxRows=10),
                simulate=ctx.pick(3000, 12000), depth=14, invariants=inv).cases
    d += ctx.tlc("Diagonal", "equal weights", consts=dict(N=100, Span=200, Preds=Raw("{0, 1, 2, 3, 100, 199, 200}"), Targets=Raw("{0, 1, 4}"), Weights=Raw("{2}"), Levels=Raw("{4, 6}"), Scale=8, MinRows=2, MaxRows=8),
                 simulate=ctx.pick(800, 3000), depth=14, invariants=inv).cases
    d = [c for c in d if any(x["w"] > 0 for x in c["ranges"])]
    ctx.replay(lambda c: diagonal(c, ctx.seed), d, "histograms")
