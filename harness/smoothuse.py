"""C33: what smoothers are shown in a training and what becomes of their answers (SmootherUse)."""
import numpy as np
import pandas as pd
import sklearn.base

import families
from smooth import frac, mism, rng_of
from vlib import Raw, guarded

from cyclic_boosting import CBLocationRegressor, flags
from cyclic_boosting.base import CyclicBoostingBase
from cyclic_boosting.common_smoothers import SmootherChoice
from cyclic_boosting.link import IdentityLinkMixin

UNDEF = 9999
TURNS = []  # one entry per estimation: group, offered prediction, fits seen, what was estimated
ANSWER = [None]


class Recording(sklearn.base.BaseEstimator, sklearn.base.RegressorMixin):
    """keeps what it is shown; answers what the specification says"""

    def __init__(self, tag=None):
        self.tag = tag

    def fit(self, X, y):
        X, y = np.array(X, float), np.array(y, float)
        TURNS[-1]["fits"].append((self.tag, X, y))
        dim = X.shape[1] - 2
        self.keys_ = {tuple(int(v) for v in row[:dim]): i for i, row in enumerate(X) if np.isfinite(row[:dim]).all()}
        self.smoothed_y_ = np.array([ANSWER[0](tuple(int(v) for v in row[:dim]), yi) for row, yi in zip(X, y)], float)
        return self

    def predict(self, X):
        out = np.full(len(X), np.nan)
        for i, row in enumerate(np.asarray(X, float)):
            k = self.keys_.get(tuple(int(v) for v in row)) if np.isfinite(row).all() else None
            if k is not None:
                out[i] = self.smoothed_y_[k]
        return out


class Choice(SmootherChoice):
    """a smoother for each group, or one and the same for all of them"""

    def __init__(self, shared=None):
        super().__init__()
        self.shared = shared

    def choice_fct(self, feature_group, feature_property, feature_type=None):
        return self.shared if self.shared is not None else Recording("|".join(map(str, feature_group)))


def untouched(shared, out):
    left = sorted(k for k in vars(shared) if k != "tag") if shared is not None else []
    if left:
        out.append(mism("the smoother handed in for several groups was itself fitted", left, []))


class ToldMixin:
    """estimates are told"""

    told = None
    n_loss = 0

    def _check_y(self, y):
        pass

    def precalc_parameters(self, feature, y, pred):
        return None

    def loss(self, prediction, y, weights):
        self.n_loss += 1
        return 1.0 / self.n_loss

    def calc_parameters(self, feature, y, pred, prefit_data):
        TURNS.append(dict(group=tuple(feature.feature_group), offered=np.array(pred.predict_link(), float), fits=[]))
        return self.told(len(TURNS) - 1)


class Told(ToldMixin, CyclicBoostingBase, IdentityLinkMixin):
    pass


class ToldLocation(ToldMixin, CBLocationRegressor):
    pass


def frame(case, r):
    df = pd.DataFrame({"c%d" % (j + 1): [np.nan if row[j] < 0 else float(row[j]) for row in case["rows"]] for j in range(len(case["rows"][0]))})
    df["w"] = np.array(case["w"], float)
    return df


def properties(case, r, ncols):
    kinds = [flags.IS_UNORDERED, flags.IS_ORDERED, flags.IS_CONTINUOUS, flags.IS_LINEAR]
    return {"c%d" % (j + 1): r.choice(kinds) | (flags.MISSING_NOT_LEARNED if j + 1 in case["quiet"] else r.choice([0, flags.HAS_MISSING]))
            for j in range(ncols)}


def names(g):
    return tuple("c%d" % j for j in g)


def compare_fits(turn, call, group, scale, out):
    """the data of every fit of the turn against what the specification shows"""
    shown = {tuple(t): (wt, u, e) for t, wt, u, e in call["shown"]}
    where = "pass %d, group %s" % (call["pass"], "|".join(group))
    if shown and not turn["fits"]:
        out.append(mism("the smoother is not fitted in " + where))
    for tag, X, y in turn["fits"]:
        if tag not in (None, "|".join(group)):
            out.append(mism("the smoother of %s is fitted in %s" % (tag, where)))
            continue
        dim = len(group)
        if X.ndim != 2 or X.shape[1] != dim + 2 or len(X) != len(y):
            out.append(mism("shape of the data shown in " + where, list(X.shape), [len(shown), dim + 2]))
            continue
        keys = [tuple(row[:dim]) for row in X]
        if sorted(keys) != sorted(tuple(float(v) for v in t) for t in shown):
            out.append(mism("bins shown in " + where, [list(k) for k in keys], [list(t) for t in sorted(shown)]))
            continue
        for row, yi in zip(X, y):
            wt, u, e = shown[tuple(int(v) for v in row[:dim])]
            want = [wt] + ([u * scale, e * scale] if scale else [])
            got = [row[dim]] + ([row[dim + 1], yi] if scale else [])
            if not np.allclose(got, want, rtol=1e-12, atol=1e-12):
                out.append(mism("weight%s of bin %s shown in %s" % (", uncertainty and estimate" if scale else "", [int(v) for v in row[:dim]], where),
                                [float(v) for v in got], [float(v) for v in want]))


def scripted(case, seed):
    r = rng_of(case, seed)
    del TURNS[:]
    X = frame(case, r)
    ncols = len(case["rows"][0])
    groups = [names(g) for g in case["groups"]]
    calls = case["calls"]

    def told(k):
        c = calls[k]
        cells = sorted(c["shown"])
        table = {tuple(t): a for t, a in c["answer"]}
        ANSWER[0] = lambda t, y: np.nan if table.get(t, UNDEF) == UNDEF else table[t] / 16.0
        est = np.array([e for _, _, _, e in cells] + [c["missing"][2]], float) / 16.0
        unc = np.array([u for _, _, u, _ in cells] + [c["missing"][1]], float) / 16.0
        return est, unc

    given = [g[0] if len(g) == 1 and r.random() < 0.5 else g for g in groups]
    shared = Recording() if r.random() < 0.3 else None
    est = (ToldLocation if case["centred"] else Told)(feature_groups=given, feature_properties=properties(case, r, ncols), weight_column="w", maximal_iterations=len(case["rates"]),
               minimal_loss_change=-1.0, minimal_factor_change=-1.0, smoother_choice=Choice(shared),
               learn_rate=lambda i, n, feature=None: case["rates"][i - 1] / 4.0)
    est.told = told
    y = np.array([float(r.randrange(5)) for _ in case["rows"]])
    out = []
    _, err = guarded(lambda: est.fit(X, y), 60)
    if err:
        return [mism("training failed", err)]
    if len(TURNS) != len(calls):
        return [mism("number of estimations", len(TURNS), len(calls))]
    running = np.zeros(len(X))
    state = [np.zeros(len(X)) for _ in groups]
    for turn, call in zip(TURNS, calls):
        group = groups[call["group"] - 1]
        if turn["group"] != group:
            out.append(mism("group estimated", list(turn["group"]), list(group)))
            break
        compare_fits(turn, call, group, 1 / 16.0, out)
        moved = turn["offered"] - TURNS[0]["offered"]
        if not np.allclose(moved, running, rtol=0, atol=1e-9):
            out.append(mism("running prediction before pass %d, group %s" % (call["pass"], "|".join(group)), moved, running))
        state[call["group"] - 1] = np.array([frac(v) for v in call["after"]]) / 64.0
        running = sum(state)
        if out:
            return out
    base = TURNS[0]["offered"]
    p, err = guarded(lambda: np.asarray(est.predict(X), float), 60)
    if err:
        return [mism("prediction failed", err)]
    if not np.allclose(p - base, running, rtol=0, atol=1e-9):
        out.append(mism("prediction after training", p - base, running))
    for g, par in zip(groups, case["param"]):
        probe = pd.DataFrame({c: np.zeros(len(par)) for c in X.columns})
        for i, (t, v) in enumerate(par):
            for c, b in zip(g, t):
                probe.loc[i, c] = np.nan if b < 0 else float(b)
        got, err = guarded(lambda: np.asarray(est.get_feature_contributions(probe)[" ".join(g)], float), 60)
        if err:
            return [mism("contributions failed", err)]
        if not np.allclose(got, [frac(v) / 64.0 for _, v in par], rtol=0, atol=1e-9):
            out.append(mism("parameters of group %s" % "|".join(g), got, [frac(v) / 64.0 for _, v in par]))
    untouched(shared, out)
    return out


def recording_class(cls):
    def calc_parameters(self, feature, y, pred, prefit_data):
        est, unc = cls.calc_parameters(self, feature, y, pred, prefit_data)
        TURNS.append(dict(group=tuple(feature.feature_group), fits=[], est=np.array(est, float), unc=np.array(unc, float)))
        return est, unc

    return type("Recorded" + cls.__name__, (cls,), {"calc_parameters": calc_parameters})


CLASSES = {}


def real(case, seed):
    r = rng_of(case, seed + 1)
    fam = r.choice(families.FAMILIES)
    cls = CLASSES.setdefault(fam.name, recording_class(fam.cls))
    del TURNS[:]
    X = frame(case, r)
    n = len(X)
    extra = families.table(r, n)
    for c in ("prior", "mu", "price"):
        X[c] = extra[c]
    y = families.target(r, n, fam.y, X) if n > 2 else None
    if y is None or min(case["w"]) == 0:
        return {"skip": "too few rows or rows of no weight"}
    groups = [names(g) for g in case["groups"]]
    ANSWER[0] = lambda t, v: v * 0.25
    shared = Recording() if r.random() < 0.3 else None
    kw = dict(fam.own, feature_properties=properties(case, r, len(case["rows"][0])), weight_column="w", maximal_iterations=len(case["rates"]),
              minimal_loss_change=-1.0, minimal_factor_change=-1.0, smoother_choice=Choice(shared))
    kw[fam.groups] = list(groups)
    if fam.name == "exponential":
        kw["external_feature_groups"] = []
    est = cls(**kw)
    _, err = guarded(lambda: est.fit(X, y), 60)
    if err:
        return {"skip": "training not possible on this table"}
    out = []
    calls = case["calls"]
    if len(TURNS) < len(groups):
        return [mism("number of estimations", len(TURNS), len(calls))]
    for k, turn in enumerate(TURNS):
        call = dict(calls[k % len(groups)])
        call["pass"] = k // len(groups)
        group = groups[call["group"] - 1]
        if turn["group"] != group:
            out.append(mism("group estimated", list(turn["group"]), list(group)))
            break
        compare_fits(turn, call, group, None, out)
        for tag, D, yy in turn["fits"]:
            order = {t: i for i, t in enumerate(sorted(tuple(c[0]) for c in call["shown"]))}
            idx = [order.get(tuple(int(v) for v in row[:len(group)])) for row in D]
            if None in idx:
                continue
            for what, a, b in (("estimates", yy, turn["est"]), ("uncertainties", D[:, -1], turn["unc"])):
                if not np.array_equal(a, b[idx], equal_nan=True):
                    out.append(mism("%s shown to the smoother in pass %d, group %s (%s)" % (what, call["pass"], "|".join(group), fam.name), a, b[idx]))
        if out:
            break
    untouched(shared, out)
    return out


GROUPS1 = "{<< <<1>> >>}"
GROUPS2 = "{<< <<1>> >>, << <<1>>, <<2>> >>, << <<1,2>> >>, << <<2,1>>, <<1>> >>, << <<2>>, <<1,2>> >>}"
GROUPS3 = "{<< <<1,2,3>> >>, << <<3,1>>, <<2>> >>, << <<2>>, <<1>>, <<3,2,1>> >>, << <<1,3>>, <<2,3>>, <<1,2>> >>}"
INV = ["WeightKept", "GridShown", "Order", "Bounded", "Balanced", "UEmit"]


def c33(ctx):
    def run(label, n=None, depth=30, **c):
        kw = dict(simulate=n, depth=depth) if n else {}
        return ctx.tlc("SmootherUse", label, consts=dict(dict(Groups=Raw("{}"), Random=bool(n), MaxPass=4, Centring=Raw("BOOLEAN")), **c), init="UInit", next_="UNext", invariants=INV, **kw).cases

    cases = run("one column, exhaustive", NCols=1, Values=Raw("{-1, 0, 2}"), MinRows=1, MaxRows=ctx.pick(3, 4), Weights=Raw("{0, 2}" if ctx.quick else "{0, 1, 3}"),
                GroupLists=Raw(GROUPS1), Salts=Raw("{11}"), RateLists=Raw("{<<4>>, <<2, 4>>}"))
    rates = Raw("{<<4>>, <<2, 3>>, <<1, 4, 2>>, <<4, 4, 1, 3>>}")
    cases += run("two columns", ctx.pick(1500, 8000), NCols=2, Values=Raw("{-1, 0, 1, 2}"), MinRows=1, MaxRows=8, Weights=Raw("{0, 1, 2, 5}"),
                 GroupLists=Raw(GROUPS2), Salts=Raw("1..900"), RateLists=rates)
    cases += run("three columns", ctx.pick(300, 3000), NCols=3, Values=Raw("{-1, 0, 1, 3}"), MinRows=2, MaxRows=9, Weights=Raw("{1, 2, 5}"),
                 GroupLists=Raw(GROUPS3), Salts=Raw("1..900"), RateLists=rates)
    ctx.replay(lambda c: scripted(c, ctx.seed), cases, "trainings with told estimates")
    more = run("tables for real estimators", ctx.pick(800, 4000), NCols=2, Values=Raw("{-1, 0, 1, 2}"), MinRows=6, MaxRows=12, Weights=Raw("{1, 2, 3}"),
               GroupLists=Raw(GROUPS2), Salts=Raw("1..900"), RateLists=Raw("{<<4, 4>>, <<4, 4, 4>>}"), depth=40)
    ctx.replay(lambda c: real(c, ctx.seed), more, "trainings of real estimators")
