"""C14, C18: life cycle of estimators, binner and pipelines; rejection of inadmissible input."""
import copy
import pickle
import random

import numpy as np
import pandas as pd
import sklearn.base

import cyclic_boosting as cb
from cyclic_boosting import binning, common_smoothers, flags, learning_rate, smoothing
from cyclic_boosting.features import FeatureID, FeatureTypes
from families import FAMILIES, Family, BY_NAME, LR, table, target
from smooth import mism, rng_of
from vlib import guarded

PROPS = {"a": flags.IS_ORDERED, "b": flags.IS_UNORDERED | flags.HAS_MISSING, "c": flags.IS_CONTINUOUS}


def smoothers(r):
    k = r.randrange(4)
    if k == 0:
        return common_smoothers.SmootherChoiceWeightedMean()
    if k == 1:
        return common_smoothers.SmootherChoiceGroupBy()
    if k == 2:
        return common_smoothers.SmootherChoiceWeightedMean(explicit_smoothers={("a",): smoothing.onedim.OrthogonalPolynomialSmoother()})
    return common_smoothers.NoSmootherChoice()


class Swing(cb.CBPoissonRegressor):
    """overshoots in the first passes, so that the loss grows and the training has to recover (or gives up)"""

    def calc_parameters(self, feature, y, pred, prefit_data):
        factors, uncertainties = super().calc_parameters(feature, y, pred, prefit_data)
        if self.iteration_ < int(np.sum(y)) % 4:
            factors = factors + 1.5
        return factors, uncertainties


SWING = Family("overshooting poisson", Swing)


class Subject:
    """a family with parameter variants and data sets, all drawn from r"""

    def __init__(self, r):
        self.kind = r.choice(["est"] * 6 + ["pipe", "pipe", "bin"])
        fams = [f for f in FAMILIES if not f.slow or r.random() < 0.35]
        self.fam = r.choice(fams)
        if self.kind == "est" and r.random() < 0.25:
            self.fam = SWING
        self.params, self.refs = {}, {}
        seed = r.random()
        q = random.Random(seed)
        open_groups = self.kind == "est" and self.fam.name not in ("exponential", "nbinomc") and q.random() < 0.4
        prior = self.fam.prior and q.random() < 0.4
        weight = q.random() < 0.5
        for p in (1, 2, 3):
            kw = {"maximal_iterations": q.choice([2, 3, 5]), "learn_rate": q.choice(LR), "smoother_choice": smoothers(q)}
            groups = q.choice([["a", "b"], ["b", ("a", "b")], ["a"], [("b", "a"), "a"]])
            kw["feature_properties"] = {k: v for k, v in PROPS.items() if k in "ab"}
            if self.fam.name == "exponential":
                kw["standard_feature_groups"], kw["external_feature_groups"] = groups, q.choice([["a"], ["b"]])
            elif open_groups and q.random() < 0.8:
                kw["feature_groups"], kw["feature_properties"] = None, dict(PROPS)
            else:
                kw["feature_groups"] = groups
            kw["weight_column"] = "w" if weight else None
            if self.fam.prior:
                kw["prior_prediction_column"] = "prior" if prior else None
            if self.fam.hier:
                kw["aggregate"] = q.random() < 0.8
                if q.random() < 0.3 and kw["feature_groups"] is not None:
                    kw["hierarchical_feature_groups"] = [kw["feature_groups"][0]]
                    kw["learn_rate"] = learning_rate.constant_learn_rate_one
                else:
                    kw["hierarchical_feature_groups"] = None
            if self.kind == "bin":
                kw = {"n_bins": q.choice([2, 3, 5]), "feature_properties": {"a": flags.IS_CONTINUOUS, "b": q.choice([flags.IS_UNORDERED, flags.IS_ORDERED])},
                      "weight_column": kw["weight_column"], "inplace": False}
            self.params[p] = kw
        self.data = {}
        for d in (1, 2):
            n = q.choice([8, 12, 20])
            X = table(q, n, cols=("a", "b") if d == 1 or not open_groups else ("b", "c", "a"), binned=self.kind == "est")
            if open_groups:
                X = X[[c for c in X.columns if c in "abc" or (c == "w" and weight) or (c == "prior" and prior)]]
            self.data[d] = (X, target(q, n, self.fam.y))
        self.query = table(q, 9, cols=("a", "b", "c"), binned=self.kind == "est")

    def make(self, p):
        # parameters are handed over as own copies, as a caller would write them down again
        kw = copy.deepcopy(self.params[p])
        if self.kind == "bin":
            return binning.BinNumberTransformer(**kw)
        if self.kind == "pipe":
            f = getattr(cb, "pipeline_" + self.fam.cls.__name__)
            kw.pop("inplace", None)
            return f(**dict(self.fam.own, number_of_bins=4, **kw))
        return self.fam.make(**kw)

    def set(self, obj, p):
        kw = copy.deepcopy(self.params[p])
        if self.kind == "pipe":
            # feature groups of the price model only take effect in the constructor
            fp = kw["feature_properties"]
            obj.set_params(binning__feature_properties=fp, **{"CB__" + k: v for k, v in kw.items()})
        else:
            obj.set_params(**kw)

    def answers(self, obj, query):
        X = query.copy()
        before = X.copy()
        res = {}
        if self.kind == "bin":
            res["transform"] = np.asarray(obj.transform(X[["a", "b"] + (["w"] if self.params[1]["weight_column"] else [])])[["a", "b"]], float)
        else:
            res["predict"] = np.asarray(obj.predict(X), float)
            if hasattr(obj, "predict_proba"):
                res["predict_proba"] = np.asarray(obj.predict_proba(X), float)
            est, Z = obj, X
            if self.kind == "pipe":
                est, Z = obj.named_steps["CB"], obj.named_steps["binning"].transform(X)
            res["importances"] = {k: float(v) for k, v in est.get_feature_importances().items()}
            zb = Z.copy()
            res["contributions"] = {k: np.asarray(v, float) for k, v in est.get_feature_contributions(Z).items()}
            if not Z.equals(zb):
                raise AssertionError("querying contributions changed the data passed in")
            res["iterations"] = est.iteration_
            res["stop"] = tuple(map(bool, est.stop_criteria_))
            res["global scale"] = float(est.global_scale_)
        if not X.equals(before):
            raise AssertionError("asking changed the data passed in")
        return res

    def ref(self, model):
        key = tuple(model)
        if key not in self.refs:
            def fresh():
                o = self.make(key[0])
                X, y = self.data[key[1]]
                o.fit(X.copy(), y.copy())
                return self.answers(o, self.query)
            self.refs[key] = guarded(fresh)
        return self.refs[key]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return a == b
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-10, equal_nan=True)


UNSAID = (0, 0)


class Broken(Exception):
    pass


def break_off(est, fit, after):
    """a training whose estimation of parameters fails at its after-th call (if it gets that far)"""
    own, calls = est.calc_parameters, []

    def calc_parameters(*args, **kw):
        calls.append(1)
        if len(calls) == after:
            raise Broken()
        return own(*args, **kw)

    est.calc_parameters = calc_parameters
    try:
        fit()
    except Exception:
        # what becomes of the training is not judged
        pass
    finally:
        del est.calc_parameters
    return None


def replay_life(case, seed):
    r = rng_of(case, seed)
    s = Subject(r)
    bad = []
    # a history is only meaningful for models that can be trained at all
    needed = {tuple(e["model"]) for e in case["hist"] if e["op"] == "ask" and e["model"]} | {tuple(m) for m in case["final"].values() if m}
    used = {}
    for e in case["hist"]:
        if e["op"] == "fit":
            used[e["h"]] = e["d"]
    for m in needed - {UNSAID}:
        if s.ref(m)[1]:
            return {"skip": "untrainable"}
    objs = {}
    where = "%s %s" % ({"est": "estimator", "pipe": "pipeline", "bin": "binner of"}[s.kind], s.fam.name)

    def ask(h, model, when):
        if tuple(model) == UNSAID:
            return
        got, err = guarded(lambda: s.answers(objs[h], s.query))
        if not model:
            if not err:
                bad.append(mism("%s: asking an untrained object" % where, "answers", "an error", when=when))
            return
        want = s.ref(model)[0]
        if err:
            bad.append(mism("%s: asking a trained object" % where, err, when=when))
            return
        for k in want:
            if not same(want[k], got[k]):
                bad.append(mism("%s: %s differs from a fresh object with the same parameters and data" % (where, k), str(got[k])[:200], str(want[k])[:200], when=when))
                return
        if r.random() < 0.3:
            again, err = guarded(lambda: s.answers(objs[h], s.query))
            if err or not all(same(want[k], again[k]) for k in want):
                bad.append(mism("%s: asking twice" % where, err or "different answers", when=when))

    for i, e in enumerate(case["hist"]):
        op, h = e["op"], e["h"]
        when = "step %d of %s" % (i + 1, [x["op"] + " " + str(x["h"]) for x in case["hist"]])
        err = None
        if op == "new":
            objs[h], err = guarded(lambda: s.make(e["p"]))
        elif op == "fit":
            X, y = s.data[e["d"]][0].copy(), s.data[e["d"]][1].copy()
            X0, y0 = X.copy(), y.copy()
            res, err = guarded(lambda: objs[h].fit(X, y))
            if err:
                # trainings that fail for a fresh object too are not judged
                return {"skip": "untrainable"} if s.ref((int(_par(case["hist"][: i], h)), e["d"]))[1] else bad + [mism("%s: training" % where, err, when=when)]
            if not X.equals(X0) or not np.array_equal(y, y0):
                bad.append(mism("%s: training changed the caller's data" % where, "changed", "unchanged", when=when))
            if res is not objs[h]:
                bad.append(mism("%s: fit returns" % where, str(type(res)), "the object itself"))
        elif op == "break" and s.kind != "bin":
            X, y = s.data[e["d"]]
            err = break_off(objs[h] if s.kind == "est" else objs[h].named_steps["CB"], lambda: objs[h].fit(X.copy(), y.copy()), r.randrange(1, 6))
        elif op == "reject" and s.kind != "bin":
            X, y = s.data[e["d"]]
            _, err2 = guarded(lambda: objs[h].fit(X.copy(), s.fam.bad_target(y, r)) if r.random() < 0.7 or s.kind == "pipe" else objs[h].fit(X.iloc[:0].copy(), y[:0]))
            if not err2:
                bad.append(mism("%s: training with an inadmissible target" % where, "accepted", "an error", when=when))
            if s.kind == "pipe":
                # the binner has been trained again by then
                return bad
        elif op == "set":
            _, err = guarded(lambda: s.set(objs[h], e["p"]))
        elif op == "clone":
            objs[e["k"]], err = guarded(lambda: sklearn.base.clone(objs[h]))
        elif op == "copy":
            how = r.choice([copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))])
            objs[e["k"]], err = guarded(lambda: how(objs[h]))
        elif op == "ask":
            ask(h, e["model"], when)
        if err:
            bad.append(mism("%s: %s" % (where, op), err, when=when))
        if bad:
            return bad
    for h, m in case["final"].items():
        ask(h, m, "at the end of %s" % [x["op"] + " " + str(x["h"]) for x in case["hist"]])
    return bad


def _par(hist, h):
    """parameters of h after hist"""
    p = {}
    for e in hist:
        if e["op"] in ("new", "set"):
            p[e["h"]] = e["p"]
        elif e["op"] in ("clone", "copy"):
            p[e["k"]] = p[e["h"]]
    return p[h]


def c14(ctx):
    inv = ["FromHistory", "Emit"]
    cases = ctx.tlc("Lifecycle", "two objects, exhaustive", consts=dict(Handles={"a", "b"}, Params={1, 2}, Data={1, 2}, Depth=4, Random=False), invariants=inv, properties=["OneAtATime"], spec="Spec").cases
    ctx.rng.shuffle(cases)
    cases = cases[: ctx.pick(1800, 20000)]
    cases += ctx.tlc("Lifecycle", "three objects", consts=dict(Handles={"a", "b", "c"}, Params={1, 2, 3}, Data={1, 2}, Depth=10, Random=True), simulate=ctx.pick(3000, 12000), depth=14, invariants=inv).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_life(c, seed), cases, "histories")


# ---------------------------------------------------------------- C18

VALUE = {"neg": -1.5, "zero": 0.0, "half": 0.5, "one": 1.0, "two": 2.0, "nan": np.nan, "inf": np.inf, "ninf": -np.inf}


def replay_validation(case, seed):
    r = rng_of(case, seed)
    fam = r.choice([f for f in FAMILIES if f.y == case["domain"] and (not f.slow or r.random() < 0.4)])
    kw = {"maximal_iterations": 2, "output_column": "out", "smoother_choice": smoothers(r), "weight_column": "w",
          "feature_properties": {"a": flags.IS_ORDERED, "b": flags.IS_UNORDERED | flags.HAS_MISSING}}
    groups = r.choice([["a", "b"], ["a", ("a", "b")]])
    kw[fam.groups] = groups
    if fam.name == "exponential":
        kw["external_feature_groups"] = ["a"]
    if fam.prior:
        kw["prior_prediction_column"] = "prior"
    n = r.choice([8, 12])
    X = table(r, n)
    y = target(r, n, fam.y)
    if fam.y == "real":
        y = np.abs(y) + 0.5
    probe = table(r, 5)
    est, err = guarded(lambda: fam.make(**kw))
    bad = []
    if err:
        return [mism("%s: construction" % fam.name, err)]
    known = {}

    def expect(what, f, ok, i):
        res, err = guarded(f)
        if err and err.startswith("ConvergenceError"):
            return res, err
        if ok and err:
            bad.append(mism("%s: %s" % (fam.name, what), err, "accepted", step=i + 1))
        if not ok and not err:
            bad.append(mism("%s: %s" % (fam.name, what), "accepted", "an error", step=i + 1))
        return res, err

    for i, e in enumerate(case["hist"]):
        op, d = e["op"], e["defect"]
        Z, t = X.copy(), y.copy()
        if op == "train":
            if d == "":
                for v, k in zip(e["target"], r.sample(range(n), len(e["target"]))):
                    t[k] = VALUE[v]
                if e["ok"] and fam.y == "binary" and len(set(t)) < 2:
                    return {"skip": "one_class"}
                how = r.choice(["array", "series", "int" if np.isfinite(t).all() and (t == np.floor(t)).all() else "array"])
                t = pd.Series(t) if how == "series" else t.astype(int) if how == "int" else t
                what = "training with target entries %s" % (e["target"],)
            elif d == "empty":
                Z, t, what = Z.iloc[:0], t[:0], d
            elif d == "empty data":
                Z, what = Z.iloc[:0], d
            elif d == "empty target":
                t, what = t[:0], d
                if r.random() < 0.5:
                    Z = Z.iloc[:1]
            elif d == "longer target":
                t, what = np.r_[t, t[:1]], d
            elif d == "shorter target":
                t, what = t[:-1], d
            elif d == "single target":
                t, what = t[:1], d
            else:
                col = {"unknown weight column": "w", "unknown prior column": "prior" if fam.prior else "w", "unknown feature column": "b"}[d]
                Z, what = Z.drop(columns=[col]), "training without column %s" % col
            _, err = expect(what, lambda: est.fit(Z, t), e["ok"], i)
            if err and err.startswith("ConvergenceError"):
                return {"skip": "diverged"}
            if e["ok"] and not err:
                known[e["model"]] = guarded(lambda: np.asarray(est.predict(probe.copy()), float))[0]
                if known[e["model"]] is None:
                    bad.append(mism("%s: predicting after training" % fam.name, "error", "values"))
        elif op == "build":
            kw2 = dict(kw)
            if d == "empty groups":
                kw2[fam.groups] = []
                if fam.name == "exponential":
                    kw2["external_feature_groups"] = []
            elif d in ("smoother under a bare name", "explicit smoother is none"):
                good = smoothing.onedim.WeightedMeanSmoother()
                wrong = {r.choice(["a", ("a", 1), 3]): good} if d == "smoother under a bare name" else {("a",): r.choice([None, smoothing.onedim.WeightedMeanSmoother, "mean"])}
                entries = [({("b",): good} if r.random() < 0.5 else {}), wrong]
                r.shuffle(entries)
                choice = r.choice([common_smoothers.SmootherChoiceWeightedMean, common_smoothers.SmootherChoiceGroupBy])
                expect(d, lambda: fam.make(**dict(kw2, smoother_choice=choice(explicit_smoothers={**entries[0], **entries[1]}))), False, i)
                continue
            elif d in ("external among standard", "standard among external", "no standard groups"):
                # price models
                ext, std = FeatureID(("b",), FeatureTypes.external), FeatureID(("b",), FeatureTypes.standard)
                groups = {"external among standard": (r.choice([["a", ext], [ext]]), r.choice([["a"], None])),
                          "standard among external": (["a"], r.choice([["a", std], [std]])),
                          "no standard groups": (None, r.choice([["a"], None]))}[d]
                expect(d, lambda: BY_NAME["exponential"].make(standard_feature_groups=groups[0], external_feature_groups=groups[1]), False, i)
                continue
            else:
                kw2["smoother_choice"] = r.choice([common_smoothers.SmootherChoiceWeightedMean, "weighted mean", smoothing.multidim.WeightedMeanSmoother(), 3])
            expect(d, lambda: fam.make(**kw2), False, i)
        elif d == "":
            P = probe.copy()
            if op == "predict":
                res, err = expect("predict", lambda: np.asarray(est.predict(P), float), e["ok"], i)
            else:
                res, err = expect("transform", lambda: np.asarray(est.transform(P)["out"], float), e["ok"], i)
            if e["ok"] and not err and not np.allclose(res, known[e["model"]], rtol=1e-9, equal_nan=True):
                bad.append(mism("%s: %s after rejected calls" % (fam.name, op), res.tolist(), known[e["model"]].tolist(), step=i + 1))
        else:
            est2 = copy.deepcopy(est)
            P = X.copy()
            if d == "no output column":
                est2.set_params(output_column=r.choice([None, ""]))
            elif d == "existing output column":
                P["out"] = 0.0
            else:
                P = P.values
            if op == "transform":
                expect("transform with %s" % d, lambda: est2.transform(P), False, i)
            else:
                expect("fit_transform with %s" % d, lambda: est2.fit_transform(P, y), False, i)
        if bad:
            return bad
    return bad


def c18(ctx):
    cases = []
    inv = ["DomainsNested", "Consistent", "Emit"]
    for dom in ("count", "real", "binary"):
        base = dict(Domain=dom)
        cases += ctx.tlc("Validation", "two entries, exhaustive, " + dom, consts=dict(base, MaxEntries=2, Depth=1, Random=False), invariants=inv, properties=["Persistent"], spec="Spec").cases * ctx.pick(2, 12)
        cases += ctx.tlc("Validation", "histories, " + dom, consts=dict(base, MaxEntries=1, Depth=6, Random=True), simulate=ctx.pick(350, 4000), depth=20, invariants=inv).cases
        cases += ctx.tlc("Validation", "two steps, exhaustive, " + dom, consts=dict(base, MaxEntries=1, Depth=2, Random=False), invariants=inv, properties=["Persistent"], spec="Spec").cases
    seed = ctx.seed
    for i, c in enumerate(cases):
        c["copy"] = i  # another estimator each time
    ctx.replay(lambda c: replay_validation(c, seed), cases, "call sequences")
