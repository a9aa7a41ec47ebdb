"""C20-C24: smoothers, replayed from Regularise, Isotonic, Sections, RegType and Choice."""
import copy
import pickle
import random

import numpy as np
import pandas as pd

from vlib import Raw, guarded, tla

from cyclic_boosting import smoothing, utils
from cyclic_boosting.smoothing import extrapolate, meta_smoother, multidim, onedim

from cyclic_boosting import learning_rate
from cyclic_boosting.base import CyclicBoostingBase
from cyclic_boosting.link import IdentityLinkMixin

TOL = 1e-9
EPS = 1e-4  # added to the variance by the linear extrapolator


class TableIdentity(CyclicBoostingBase, IdentityLinkMixin):
    """trained for one pass at full rate; the estimates of the bins are looked up in `table`:
    group -> (values, uncertainties), bins in lexicographic order"""

    table = None

    def _check_y(self, y):
        pass

    def precalc_parameters(self, feature, y, pred):
        return None

    def calc_parameters(self, feature, y, pred, prefit_data):
        v, u = self.table[tuple(feature.feature_group)]
        return np.r_[v, 0.0], np.r_[u, 1.0]

    def loss(self, prediction, y, weights):
        return 1.0


def table_model(table, **kw):
    est = TableIdentity(maximal_iterations=1, learn_rate=learning_rate.constant_learn_rate_one, **kw)
    est.table = table
    return est


def frac(v):
    return np.nan if v[1] == 0 else v[0] / v[1]


def mism(what, observed=None, expected=None, **kw):
    d = {"what": what}
    for k, v in (("observed", observed), ("expected", expected)):
        if isinstance(v, np.ndarray):
            v = [float(x) for x in v]
        d[k] = v
    d.update(kw)
    return d


def same(a, b, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=TOL * max(1.0, scale), equal_nan=True)


def rng_of(case, seed):
    return random.Random(repr((seed, sorted(case.items(), key=str))))


def fitted(est, X, y):
    """fit and return the estimator, whether or not fit returns something"""
    est.fit(X, y)
    return est


def ask(bad, what, f, expected, scale=1.0, **kw):
    got, err = guarded(f, 30)
    if err:
        bad.append(mism(what, err, expected, **kw))
    elif not same(got, expected, scale):
        bad.append(mism(what, np.asarray(got, float), np.asarray(expected, float), **kw))
    return got


# ---------------------------------------------------------------- C22


def table(coords, weights, sigma):
    return np.c_[np.asarray(coords, float), np.asarray(weights, float), np.asarray(sigma, float)]


def replay_regularise(case, seed):
    r = rng_of(case, seed)
    s = r.choice([1.0, 0.5, 8.0, 1 / 64.0])
    kind = case["kind"]
    x = np.array([b[0] for b in case["bins"]], float) * s
    w = np.array([b[1] for b in case["bins"]], float)
    sig = np.where(w > 0, s / np.sqrt(np.where(w > 0, w, 1.0)), 0.0)
    p = case["prior"] * s
    if kind == "threshold":
        sq = np.array([frac(v) for v in case["res"]])
        exp = p + np.sign(sq) * np.sqrt(np.abs(sq)) * s
    else:
        exp = np.array([frac(v) for v in case["res"]]) * s
    n = len(x)
    bad = []
    x0, sig0 = x.copy(), sig.copy()
    if kind == "mean":
        ask(bad, "regularize_to_error_weighted_mean", lambda: utils.regularize_to_error_weighted_mean(x, sig), exp, s)
        one, multi = onedim.WeightedMeanSmoother, multidim.WeightedMeanSmoother
        mk = [lambda c: c()]
    elif kind == "prior":
        ask(bad, "regularize_to_error_weighted_mean with prior", lambda: utils.regularize_to_error_weighted_mean(x, sig, p), exp, s)
        one, multi = onedim.WeightedMeanSmoother, multidim.WeightedMeanSmoother
        mk = [lambda c: c(prior_prediction=p)]
    elif kind == "threshold":
        ask(bad, "regularize_to_prior_expectation", lambda: utils.regularize_to_prior_expectation(x, sig, p), exp, s)
        one, multi = onedim.RegularizeToPriorExpectationSmoother, multidim.RegularizeToPriorExpectationSmoother
        mk = [lambda c: c(p)]
        # thresholds scale with the uncertainties
        ask(bad, "regularize_to_prior_expectation, threshold 5", lambda: utils.regularize_to_prior_expectation(x, sig / 2, p, threshold=5.0), exp, s)
    else:
        ask(bad, "regularize_to_error_weighted_mean_neighbors", lambda: utils.regularize_to_error_weighted_mean_neighbors(x, sig), exp, s)
        one, multi = onedim.WeightedMeanSmootherNeighbors, None
        mk = [lambda c: c()]
    if not (np.array_equal(x, x0) and np.array_equal(sig, sig0)):
        bad.append(mism("input arrays of the regularisation were changed"))
    if kind == "threshold" and case["prior"] == 1:
        ests = [("RegularizeToOneSmoother", onedim.RegularizeToOneSmoother(), 1.0 / s)]
    else:
        ests = []
    cnt = np.array([float(r.randint(1, 9)) for _ in range(n)])
    X = table(np.arange(n), cnt, sig)
    probes = np.array([[0.0 + i] for i in range(-2, n + 3)] + [[np.nan]])
    want = np.array([exp[int(c)] if np.isfinite(c) and 0 <= c < n else np.nan for c in probes[:, 0]])
    order = list(range(len(probes)))
    r.shuffle(order)
    for m in mk:
        est = m(one)
        ask(bad, "one-dimensional smoother", lambda: fitted(est, X.copy(), x.copy()).predict(probes[order].copy()), want[order], s)
        # a second fit replaces the first
        est2 = m(one)
        ask(bad, "one-dimensional smoother fitted again",
            lambda: fitted(fitted(est2, table(np.arange(n + 1), np.ones(n + 1), np.ones(n + 1)), np.arange(n + 1) * 3.0 + 7), X.copy(), x.copy()).predict(probes), want, s)
        if r.random() < 0.2:
            ask(bad, "one-dimensional smoother restored from a pickle", lambda: pickle.loads(pickle.dumps(est)).predict(probes), want, s)
        if multi is None:
            continue
        for shape in shapes_of(n):
            grid = utils_grid(shape)
            X2 = np.c_[grid, cnt, sig]
            pr = np.array([list(c) for c in product_range([(-1, k + 1) for k in shape])] + [[np.nan] * len(shape)], float)
            i2 = [lex(c, shape) for c in pr]
            w2 = np.array([exp[i] if i is not None else np.nan for i in i2])
            est3 = m(multi)
            ask(bad, "smoother for %d dimensions" % len(shape), lambda: fitted(est3, X2.copy(), x.copy()).predict(pr), w2, s, shape=shape)
            if kind == "threshold":
                t = r.choice([2.5, 5.0])
                X3 = np.c_[grid, cnt, sig * 2.5 / t]
                each = np.full(n, p)  # one prior for every bin
                for name, est4 in (("prior of each bin", multi(r.choice([p, each]), threshold=t)),
                                   ("prior expectation around another smoother for %d dimensions" % len(shape),
                                    multidim.PriorExpectationMetaSmoother(multidim.BinValuesSmoother(), r.choice([p, each]), threshold=t))):
                    ask(bad, name, lambda: fitted(est4, X3.copy(), x.copy()).predict(pr), w2, s, shape=shape)
                if case["prior"] == 1:
                    ask(bad, "RegularizeToOneSmoother for %d dimensions" % len(shape),
                        lambda: fitted(multidim.RegularizeToOneSmoother(threshold=t), np.c_[grid, cnt, sig / s * 2.5 / t], x / s).predict(pr), w2 / s, 1.0, shape=shape)
    for name, est, f in ests:
        # prior one: values in units of the prior
        ask(bad, name, lambda: fitted(est, table(np.arange(n), cnt, sig * f), x * f).predict(probes), want * f, 1.0)
    if kind == "threshold":
        meta = onedim.PriorExpectationMetaSmoother(onedim.BinValuesSmoother(), p)
        ask(bad, "prior expectation around another smoother", lambda: fitted(meta, X.copy(), x.copy()).predict(probes), want, s)
        _, err = guarded(lambda: multidim.PriorExpectationMetaSmoother(multidim.BinValuesSmoother(), p).fit(X.copy(), x.copy()))
        if not (err or "").startswith("ValueError"):
            bad.append(mism("smoother for several dimensions around one dimension", err or "accepted", "ValueError"))
    # the smoother that keeps the values
    ask(bad, "bin values smoother", lambda: fitted(onedim.BinValuesSmoother(), X.copy(), x.copy()).predict(probes),
        np.array([x[int(c)] if np.isfinite(c) and 0 <= c < n else np.nan for c in probes[:, 0]]), s)
    return bad


def shapes_of(n):
    res = []
    for k in range(1, n + 1):
        if n % k == 0:
            res.append((k, n // k))
    if n % 4 == 0:
        res.append((2, n // 4, 2))
    return res


def product_range(lims):
    if not lims:
        return [()]
    return [(a,) + t for a in range(lims[0][0], lims[0][1] + 1) for t in product_range(lims[1:])]


def utils_grid(shape):
    """coordinates of all bins, last one running fastest"""
    return np.array(product_range([(0, k - 1) for k in shape]), float).reshape(-1, len(shape))


def lex(c, shape):
    i = 0
    for v, k in zip(c, shape):
        if not np.isfinite(v) or v < 0 or v >= k:
            return None
        i = i * k + int(v)
    return i


def c22(ctx):
    inv = ["LiesBetween", "UncertainMoves", "StayPut", "OrderFree", "Local", "Shrinks", "Emit"]
    cases = []
    for kind, w in (("mean", {1, 2, 4}), ("prior", {1, 2, 4}), ("neighbours", {0, 1, 4}), ("threshold", {1, 2, 4})):
        vals = {-9, -2, 1, 5} if kind == "threshold" else {-2, 0, 1, 3}
        base = dict(Kind=kind, Values=vals, Weights=w, Priors={0, 1} if kind in ("prior", "threshold") else {0})
        n = ctx.pick(3, 4) if kind == "neighbours" else 3
        if kind == "threshold":
            n = 2
        cases += ctx.tlc("Regularise", "exhaustive " + kind, consts=dict(base, MinBins=1, MaxBins=n, Random=False), invariants=inv).cases
        cases += ctx.tlc("Regularise", "simulation " + kind, consts=dict(base, MinBins=4, MaxBins=ctx.pick(6, 8), Random=True),
                         simulate=ctx.pick(250, 3000), depth=20, invariants=inv).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_regularise(c, seed), cases, "regularised tables")
    ctx.assumptions += ["values are small integers times a power of two; inverse variances are small integers"]


# ---------------------------------------------------------------- C23


def monotone(y, up):
    d = np.diff(y)
    return bool(np.all(d >= -1e-9) if up else np.all(d <= 1e-9))


def replay_isotonic(case, seed):
    from cyclic_boosting import common_smoothers, flags

    r = rng_of(case, seed)
    s = r.choice([1.0, 0.25, 16.0])
    x = np.array([b[0] for b in case["bins"]], float) * s
    sig = s / np.sqrt(np.array([b[1] for b in case["bins"]], float))
    exp = np.array([frac(v) for v in case["fit"]]) * s
    n, d = len(x), case["dir"]
    arg = {"up": True, "down": False, "auto": "auto"}[d]
    bad = []
    X = table(np.arange(n), [r.randint(1, 5) for _ in range(n)], sig)
    probes = np.array([[float(c)] for c in range(-2, n + 2)])
    want = np.array([exp[min(max(int(c), 0), n - 1)] for c in probes[:, 0]])
    if d == "auto" and case["cov"] == 0:
        got, err = guarded(lambda: fitted(onedim.IsotonicRegressor(), X, x).predict(probes))
        if err or not (monotone(got, True) or monotone(got, False)):
            bad.append(mism("monotone fit in some direction", err or got))
        return bad
    mk = [lambda: onedim.IsotonicRegressor(increasing=arg)] + ([onedim.IsotonicRegressor] if d == "auto" else [])
    for m in mk:
        est = m()
        ask(bad, "monotone fit", lambda: fitted(est, X.copy(), x.copy()).predict(probes.copy()), want, s)
        # rows of the table in another order
        o = list(range(n))
        r.shuffle(o)
        ask(bad, "monotone fit, rows reordered", lambda: fitted(est, X[o].copy(), x[o].copy()).predict(probes[::-1].copy()), want[::-1], s)
    if n >= 2:
        # as chosen for a feature with these flags, with and without normalisation
        fl = flags.IS_MONOTONIC | {"up": flags.INCREASING, "down": flags.DECREASING, "auto": 0}[d]
        fl |= r.choice([0, flags.HAS_MISSING, flags.MISSING_NOT_LEARNED])
        for norm in (True, False):
            for cls in (common_smoothers.SmootherChoiceWeightedMean, common_smoothers.SmootherChoiceGroupBy):
                inside = (probes[:, 0] >= 0) & (probes[:, 0] < n)
                ask(bad, "smoother chosen for the flags",
                    lambda: fitted(cls(use_normalization=norm).choice_fct(("a",), (fl,)), X.copy(), x.copy()).predict(probes.copy())[inside],
                    want[inside], s, norm=norm)
    if d != "auto":
        # bins without uncertainty information do not count
        pos = sorted(r.sample(range(n + 2), 2))
        X3, y3, informed = [], [], []
        k = 0
        for c in range(n + 2):
            if c in pos:
                X3.append([c, 0.0, 0.0])
                y3.append(s * r.choice([-50.0, 0.0, 50.0]))
            else:
                X3.append([c, 1.0, sig[k]])
                y3.append(x[k])
                informed.append(c)
                k += 1
        X3, y3 = np.array(X3, float), np.array(y3)
        got, err = guarded(lambda: fitted(onedim.IsotonicRegressor(increasing=arg), X3, y3).predict(X3[:, :1]))
        if err:
            bad.append(mism("monotone fit with uninformed bins", err))
        elif not same(got[informed], exp, s):
            bad.append(mism("monotone fit next to uninformed bins", got[informed], exp, bins=y3.tolist(), uninformed=pos))
        elif not monotone(got, d == "up"):
            bad.append(mism("monotone fit over uninformed bins", got))
    return bad


def replay_monotone_model(case, seed):
    """a whole training whose bin estimates are the values of the case"""
    from cyclic_boosting import flags

    r = rng_of(case, seed)
    if case["dir"] == "auto" or len(case["bins"]) < 2:
        return {"skip": "no_fixed_direction"}
    n = len(case["bins"])
    s = 0.25
    x = np.array([b[0] for b in case["bins"]], float) * s
    sig = s / np.sqrt(np.array([b[1] for b in case["bins"]], float))
    exp = np.array([frac(v) for v in case["fit"]]) * s
    fl = flags.IS_MONOTONIC | {"up": flags.INCREASING, "down": flags.DECREASING}[case["dir"]]
    est = table_model({("a",): (x, sig)}, feature_groups=["a"], feature_properties={"a": fl})
    df = pd.DataFrame({"a": np.repeat(np.arange(n), 2)})
    bad = []
    y = np.zeros(len(df))
    y[0] = 1.0

    def f():
        est.fit(df, y)
        return est.predict(df) - est.predict(pd.DataFrame({"a": [np.nan]}))[0]  # against a row without effect

    got, err = guarded(f)
    if err:
        return [mism("training with a monotonic feature", err)]
    if not same(got, np.repeat(exp, 2), s):
        bad.append(mism("values of a monotonic feature after training", got, np.repeat(exp, 2)))
    return bad


def c23(ctx):
    inv = ["Monotone", "Optimal", "Unique", "AlreadyMonotone", "InHull", "Emit"]
    base = dict(Values={-2, 0, 1, 3}, Weights={1, 4})
    cases = ctx.tlc("Isotonic", "exhaustive", consts=dict(base, MinBins=1, MaxBins=ctx.pick(3, 4), Random=False), invariants=inv).cases
    cases += ctx.tlc("Isotonic", "simulation", consts=dict(base, Values=set(range(-3, 5)), Weights={1, 2, 4, 9}, MinBins=5, MaxBins=ctx.pick(9, 12), Random=True),
                     simulate=ctx.pick(800, 8000), depth=40, invariants=inv).cases
    ctx.tlc("Isotonic", "termination", consts=dict(base, Values={0, 1, 2}, Weights={1, 2}, MinBins=1, MaxBins=3, Random=False),
            properties=["Terminates"], spec="Spec")
    seed = ctx.seed
    ctx.replay(lambda c: replay_isotonic(c, seed), cases, "monotone fits")
    sub = [c for c in cases if c["dir"] != "auto" and len(c["bins"]) > 1]
    ctx.rng.shuffle(sub)
    ctx.replay(lambda c: replay_monotone_model(c, seed), sub[: ctx.pick(200, 1500)], "trainings with a monotonic feature")


# ---------------------------------------------------------------- C24


def inner(kind):
    return {
        "values": onedim.BinValuesSmoother,
        "mean": onedim.WeightedMeanSmoother,
        "prior": lambda: onedim.WeightedMeanSmoother(prior_prediction=0),
        "up": lambda: onedim.IsotonicRegressor(increasing=True),
        "down": lambda: onedim.IsotonicRegressor(increasing=False),
        "line": extrapolate.LinearExtrapolator,
    }[kind]()


def sigma(kind, w):
    return np.sqrt(1.0 / w - (EPS if kind == "line" else 0.0))


def replay_sections(case, seed):
    r = rng_of(case, seed)
    cfg, parts, order = case["cfg"], case["parts"], case["order"]
    dead = set(cfg["dead"])
    pos = [0] * len(parts)
    rows, y = [], []
    counts = {}
    for p in range(len(parts)):
        k = len(parts[p])
        c = [0.0] * k if p + 1 in dead else [float(r.choice([0, 1, 2, 5])) for _ in range(k)]
        if p + 1 not in dead and k and sum(c) == 0:
            c[r.randrange(k)] = 2.0
        counts[p] = c
    for p1 in order:
        p = p1 - 1
        x, w, c = parts[p][pos[p]]
        key = [float(v) for v in cfg["keys"][p]] if cfg["kind"] == "groups" else []
        rows.append(key + [float(c), counts[p][pos[p]], sigma(cfg["inner"][p], w)])
        y.append(float(x))
        pos[p] += 1
    X, y = np.array(rows, float), np.array(y)
    probes, want = [], []
    bad = []
    if cfg["kind"] == "groups":
        nk = len(cfg["keys"][0])
        for p, c, v in case["out"]:
            if cfg["inner"][p - 1] == "line" and v[1] == 0 and p not in dead:
                continue  # no line through a single coordinate
            probes.append([float(k) for k in cfg["keys"][p - 1]] + [float(c)])
            want.append(frac(v))
        probes.append([99.0] * nk + [0.0])
        want.append(np.nan)
        o = list(range(len(probes)))
        r.shuffle(o)
        P, W = np.array(probes)[o], np.array(want)[o]
        est = multidim.GroupBySmootherCB(inner(cfg["inner"][0]), nk + 1)
        ask(bad, "smoothing within groups", lambda: fitted(est, X.copy(), y.copy()).predict(P.copy()), W, 5.0)
        for i in r.sample(range(len(P)), min(2, len(P))):
            ask(bad, "smoothing within groups, one row", lambda: est.predict(P[i : i + 1].copy()), W[i : i + 1], 5.0, row=P[i].tolist())
        ask(bad, "smoothing within groups, fitted again", lambda: fitted(est, X.copy(), y.copy()).predict(P.copy()), W, 5.0)
        if not dead:
            est = multidim.GroupBySmoother(inner(cfg["inner"][0]), nk + 1)
            ask(bad, "smoothing within groups without weights", lambda: fitted(est, X.copy(), y.copy()).predict(P.copy()), W, 5.0)
        return bad
    nan = r.choice([np.nan, np.nan, -7.5])
    for p, c, v in case["out"]:
        part = parts[p - 1]
        if cfg["inner"][p - 1] == "line" and part and v[1] == 0:
            continue
        probes.append([float(c)])
        want.append(nan if not part else frac(v))
    o = list(range(len(probes)))
    r.shuffle(o)
    P, W = np.array(probes)[o], np.array(want)[o]
    split = cfg["split"] / 2.0
    # epsilon: the split point itself up to rounding
    est, err = guarded(lambda: meta_smoother.SectionSmoother(split, inner(cfg["inner"][0]), inner(cfg["inner"][1]), nan_representation=nan))
    if err:
        return [mism("section smoother", err)]
    ask(bad, "smoothing in two sections", lambda: fitted(est, X.copy(), y.copy()).predict(P.copy()), W, 5.0, nan=nan)
    for i in r.sample(range(len(P)), min(2, len(P))):
        ask(bad, "smoothing in two sections, one row", lambda: est.predict(P[i : i + 1].copy()), W[i : i + 1], 5.0, row=P[i].tolist())
    # used before on data on both sides
    est = meta_smoother.SectionSmoother(split, inner(cfg["inner"][0]), inner(cfg["inner"][1]), nan_representation=nan)
    junk = table([split - 2, split - 1, split + 1, split + 2], [1] * 4, [0.5] * 4)
    ask(bad, "smoothing in two sections, fitted again",
        lambda: fitted(fitted(est, junk, np.array([9.0, 8, 7, 11])), X.copy(), y.copy()).predict(P.copy()), W, 5.0, nan=nan)
    est = meta_smoother.SectionSmoother(split, inner(cfg["inner"][0]), inner(cfg["inner"][1]), nan_representation=nan)
    ask(bad, "smoothing in two sections by a copy",
        lambda: fitted(utils.clone(est), X.copy(), y.copy()).predict(P.copy()), W, 5.0, nan=nan)
    return bad


def section_configs(ctx, n, exhaustive):
    rng = ctx.rng
    res = []
    kinds = ["values", "mean", "prior", "up", "down", "line"]
    vals, ws = {-2, 0, 1, 3}, {1, 2, 4}
    for i in range(n):
        k = kinds[i % len(kinds)]
        if exhaustive:
            vals, ws = {-1, 2}, {1, 4}
        groups = i % 2 == 0 if not exhaustive else i < n // 2
        if groups:
            ng = 2 if exhaustive else rng.randint(1, 4)
            keys = rng.choice([[[0], [1], [2], [5]], [[0, 0], [0, 1], [1, 0], [2, 1]], [[3], [0], [1], [2]]])[:ng]
            sizes = [rng.randint(1, 2 if exhaustive else 4) for _ in range(ng)]
            coords = []
            for s in sizes:
                c = list(range(s))
                if k in ("up", "down", "line"):
                    c = sorted(rng.sample(range(0, s + 2), s))
                    rng.shuffle(c)
                coords.append(c)
            dead = {p + 1 for p in range(ng) if rng.random() < 0.25}
            if len(dead) == ng:
                dead = set(list(dead)[1:])
            res.append(dict(kind="groups", sizes=sizes, inner=[k] * ng, coords=coords, values=vals, ws=ws, dead=dead, split=0, keys=keys,
                            probes=set(range(-1 if k in ("up", "down", "line") else 0, 6))))
        else:
            lo = rng.randint(0, 2 if exhaustive else 4)
            hi = rng.randint(0 if lo else 1, 2 if exhaustive else 4)
            kl, ku = k, rng.choice(["up", "down", "line"])
            split = rng.choice([2 * lo - 2, 2 * lo - 1]) if lo else rng.choice([2, 3])
            lc = list(range(lo))
            first = (split // 2 + 1)
            uc = [first + rng.randint(0, 1) + 2 * j for j in range(hi)]
            uc = sorted(set(uc))[:hi]
            rng.shuffle(uc)
            if kl in ("up", "down", "line"):
                rng.shuffle(lc)
            res.append(dict(kind="split", sizes=[lo, len(uc)], inner=[kl, ku], coords=[lc, uc], values=vals, ws=ws, dead=set(), split=split, keys=[],
                            probes=set(range(-1 if kl in ("up", "down", "line") else 0, (max(uc) if uc else lo) + 3))))
    return res


def confs(cs):
    return Raw("{" + ", ".join(tla(c) for c in cs) + "}")


def c24(ctx):
    inv = ["Independent", "ProperSides", "Complete", "Emit"]
    cases = ctx.tlc("Sections", "exhaustive", consts=dict(Configs=confs(section_configs(ctx, ctx.pick(12, 24), True)), Random=False), invariants=inv).cases
    ctx.rng.shuffle(cases)
    cases = cases[: ctx.pick(4000, 40000)]
    cases += ctx.tlc("Sections", "simulation", consts=dict(Configs=confs(section_configs(ctx, ctx.pick(150, 600), False)), Random=True),
                     simulate=ctx.pick(1500, 12000), depth=40, invariants=inv).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_sections(c, seed), cases, "tables smoothed in parts")


# ---------------------------------------------------------------- C21


MISSING = -1000


class Coded(smoothing.base.AbstractBinSmoother):
    """answers every coordinate with a code; a missing coordinate with 777"""

    def __init__(self, dims=1):
        self.dims = dims

    def fit(self, X, y):
        self.fitted_ = True
        return self

    def predict(self, X):
        X = np.asarray(X, float)[:, : self.dims]
        code = X @ np.array([1.0, 16.0, 256.0][: self.dims]) + 5000.0
        return np.where(np.isfinite(X).all(axis=1), code, 777.0)


def replay_regtype(case, seed):
    r = rng_of(case, seed)
    shape = case["shape"]
    dims = len(shape)
    wt = {tuple(c): float(w) for c, w in case["weight"]}
    grid = utils_grid(shape)
    w = np.array([wt[tuple(int(v) for v in c)] for c in grid]) * r.choice([1.0, 0.25, 1e-3])
    X = np.c_[grid, w, np.full(len(grid), 0.5)]
    y = np.array([r.choice([-1.0, 0.0, 2.0, 5.0]) for _ in grid])
    typ = meta_smoother.RegressionType[case["type"]]
    P = np.array([[np.nan if v == MISSING else float(v) for v in c] for c, _ in case["batch"]])
    norm = float(np.sum(y * w) / np.sum(w)) if np.sum(w) > 0 else 0.0
    bad = []
    codes = Coded(dims).predict(P)
    for what, cls, off in (("regression type", meta_smoother.RegressionTypeSmoother, 0.0),
                           ("regression type with normalisation", meta_smoother.NormalizationRegressionTypeSmoother, norm)):
        est = cls(Coded(dims), typ)
        for batch in [list(range(len(P)))] + [[i] for i in range(len(P))] + [list(range(len(P))) * 2]:
            got, err = guarded(lambda: fitted(est, X.copy(), y.copy()).predict(P[batch].copy()), 30)
            if err:
                bad.append(mism(what, err))
                break
            for j, i in enumerate(batch):
                a = case["batch"][i][1]
                v = got[j]
                ok = {"none": np.isnan(v), "value": same(v, codes[i] + off), "free": np.isnan(v) or (same(v, 777.0 + off) and case["type"] != "discontinuous")}[a]
                if not ok:
                    bad.append(mism(what + ": value of row %s in a batch of %d" % (P[i].tolist(), len(batch)), float(v),
                                    {"none": "undefined", "value": float(codes[i] + off), "free": "no value of a bin"}[a], kind=case["type"]))
    if dims == 1 and shape[0] > 1 and not np.isnan(P).any():
        # a smoother that answers out of range by its nearest bin
        raw = fitted(onedim.OrthogonalPolynomialSmoother(), X.copy(), y.copy()).predict(P.copy())
        exp = np.where([a == "value" for _, a in case["batch"]], raw, np.nan)
        est = meta_smoother.RegressionTypeSmoother(onedim.OrthogonalPolynomialSmoother(), typ)
        Q = P.copy()
        ask(bad, "regression type around a polynomial", lambda: fitted(est, X.copy(), y.copy()).predict(Q), exp, 5.0)
        if not np.array_equal(P, Q):
            bad.append(mism("bin numbers passed to predict were changed", Q[:, 0], P[:, 0]))
    # the type may be computed from real smoothers, too
    est = meta_smoother.RegressionTypeSmoother(onedim.BinValuesSmoother() if dims == 1 else multidim.BinValuesSmoother(), typ)
    got, err = guarded(lambda: fitted(est, X.copy(), y.copy()).predict(P.copy()), 30)
    if err:
        bad.append(mism("regression type around bin values", err))
    else:
        for i, (c, a) in enumerate(case["batch"]):
            k = lex(P[i], shape)
            exp = np.nan if a != "value" or k is None else y[k]
            if not same(got[i], exp):
                bad.append(mism("regression type around bin values: row %s" % P[i].tolist(), float(got[i]), float(exp), kind=case["type"]))
    return bad


def c21(ctx):
    inv = ["NeverOutside", "Everywhere", "SeenBins", "Nested", "Emit"]
    cases = ctx.tlc("RegType", "one dimension", consts=dict(Shapes={(1,), (2,), (3,), (4,)}, Weights={0, 2}, Batches=1, Random=False), invariants=inv).cases
    cases += ctx.tlc("RegType", "two dimensions", consts=dict(Shapes={(1, 2), (2, 1), (2, 2)}, Weights={0, 2}, Batches=1, Random=False), invariants=inv).cases
    cases += ctx.tlc("RegType", "batches", consts=dict(Shapes={(2,), (5,), (2, 3), (1, 2), (3, 3), (2, 2, 2), (1, 3, 2)}, Weights={0, 1, 2}, Batches=ctx.pick(4, 8), Random=True),
                     simulate=ctx.pick(2500, 20000), depth=25, invariants=inv).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_regtype(c, seed), cases, "questions to smoothers with a regression type")


# ---------------------------------------------------------------- C20


class Explicit(smoothing.base.AbstractBinSmoother):
    """an explicit smoother: value shifted, answers everywhere"""

    def __init__(self, shift=0.0):
        self.shift = shift

    def fit(self, X, y):
        self.dims_ = X.shape[1] - 2
        self.level_ = float(np.max(y))
        return self

    def predict(self, X):
        return np.asarray(X, float)[:, : self.dims_].sum(axis=1) * 0.125 + self.level_ + self.shift


def raw_smoother(kind, norm):
    return {
        "values": onedim.BinValuesSmoother,
        "prior": lambda: onedim.WeightedMeanSmoother(prior_prediction=0),
        "neighbours": onedim.WeightedMeanSmootherNeighbors,
        "poly": onedim.OrthogonalPolynomialSmoother,
        "line": extrapolate.LinearExtrapolator,
        "season": lambda: onedim.SeasonalSmoother(offset_tozero=not norm),
        "up": lambda: onedim.IsotonicRegressor(increasing=True),
        "down": lambda: onedim.IsotonicRegressor(increasing=False),
        "auto": lambda: onedim.IsotonicRegressor(increasing="auto"),
        "multiprior": lambda: multidim.WeightedMeanSmoother(prior_prediction=0),
        "multivalues": multidim.BinValuesSmoother,
        "explicit": lambda: Explicit(1.0),
        "explicit1": lambda: Explicit(2.0),
    }[kind]()


def reference(kind, typ, norm, X, y, P):
    """normalise, smooth, undo, cut: what the wrapped smoother is to give at P"""
    dims = P.shape[1]
    w = X[:, dims]
    m = np.sum(w * y) / np.sum(w) if norm and np.sum(w) > 0 else 0.0
    est = raw_smoother(kind, norm)
    est.fit(X.copy(), y - m)
    out = np.asarray(est.predict(P.copy()), float) + m
    shape = [int(v) + 1 for v in X[:, :dims].max(axis=0)]
    for i, p in enumerate(P):
        k = lex(p, shape)
        if typ in ("discontinuous", "interpolating") and k is None:
            out[i] = np.nan
        elif typ == "discontinuous" and w[k] == 0:
            out[i] = np.nan
    return out


def reference_chosen(ch, norm, X, y, P):
    kind = ch["raw"]
    if P.shape[1] > 1 and kind == "values":
        kind = "multivalues"
    if not ch["within"]:
        return reference(kind, ch["type"], norm, X, y, P)
    g = P.shape[1] - 1
    out = np.full(len(P), np.nan)
    for key in {tuple(p[:g]) for p in P}:
        rows = (X[:, :g] == key).all(axis=1)
        ask_ = (P[:, :g] == key).all(axis=1)
        if rows.any() and X[rows, g + 1].sum() > 0:
            out[ask_] = reference(kind, ch["type"], norm, X[rows][:, g:], y[rows], P[ask_][:, g:])
    return out


SHAPES = {1: (7,), 2: (3, 6), 3: (2, 2, 6)}


def choice_table(n, r):
    shape = SHAPES[n]
    grid = utils_grid(shape)
    w = np.array([float(r.randint(1, 4)) for _ in grid])
    for i in r.sample(range(len(grid)), max(1, len(grid) // 6)):
        w[i] = 0.0
    if n > 1:
        w[(grid[:, :-1] == grid[r.randrange(len(grid)), :-1]).all(axis=1)] = 0.0
    w[-1] = 3.0  # the grid is as large as its last bin says
    if w.sum() == 0:
        w[0] = 1.0
    y = np.array([r.uniform(-2, 2) + 0.3 * c[-1] for c in grid])
    sig = np.array([r.uniform(0.2, 0.9) for _ in grid])
    return shape, grid, w, y, sig


def replay_choice(case, seed, model):
    from cyclic_boosting import common_smoothers, flags

    r = rng_of({k: case[k] for k in ("props", "scheme", "expl", "reg", "norm")}, seed)
    cols = ["a", "b", "c"][: len(case["props"])]
    n = len(cols)
    ints = []
    for fs in case["props"]:
        v = 0
        for f in fs:
            v |= getattr(flags, f)
        ints.append(v)
    bad = []
    for v, names, cons in zip(ints, case["names"], case["consistent"]):
        _, err = guarded(lambda: flags.check_flags_consistency(v), 10)
        if (err is None) != cons or (err and not err.startswith("ValueError")):
            bad.append(mism("consistency check of flags %d (%s)" % (v, "|".join(names)), err or "accepted", "accepted" if cons else "ValueError"))
        if "IS_LINEAR" not in names and "HAS_MAGIC_INT_MISSING" not in names:
            from cyclic_boosting.binning import BinNumberTransformer

            df = pd.DataFrame({"a": [1.0, 2.0, 2.0, 5.0]})
            _, err = guarded(lambda: BinNumberTransformer(n_bins=2, feature_properties={"a": v}).fit(df), 10)
            if (err is None) != cons or (err and not err.startswith("ValueError")):
                bad.append(mism("binner given flags %d (%s)" % (v, "|".join(names)), err or "accepted", "accepted" if cons else "ValueError"))
        got, err = guarded(lambda: flags.flags_to_string(v), 10)
        if err or sorted(t for t in got.split(" | ") if t) != sorted(names):
            bad.append(mism("names of flags %d" % v, err or got, sorted(names)))
    cls = {"mean": common_smoothers.SmootherChoiceWeightedMean, "group": common_smoothers.SmootherChoiceGroupBy, "none": common_smoothers.NoSmootherChoice}[case["scheme"]]
    ex = {}
    if "last" in case["expl"]:
        ex[(cols[-1],)] = Explicit(2.0 if n > 1 else 1.0)
    if "group" in case["expl"]:
        ex[tuple(cols)] = Explicit(1.0)
    ch = case["chosen"]
    kw = dict(use_regression_type=case["reg"], use_normalization=case["norm"], explicit_smoothers=ex or None)
    shape, grid, w, y, sig = choice_table(n, r)
    X = np.c_[grid, w, sig]
    what = "%s within groups: %s, %s, norm %s" % (ch["raw"], ch["within"], ch["type"], case["norm"])
    P = np.array(product_range([(-1, k) for k in shape]), float)
    if ch["raw"] in ("poly",) and ch["type"] == "all":
        P = grid.copy()
    r.shuffle(order := list(range(len(P))))
    P = P[order]
    want, err = guarded(lambda: reference_chosen(ch, case["norm"], X, y, P), 30)
    if err:
        return {"skip": "reference_undefined"}

    def f():
        s = utils.clone(cls(**kw).choice_fct(tuple(cols), tuple(ints)))
        return fitted(s, X.copy(), y.copy()).predict(P.copy())

    ask(bad, "smoother chosen: " + what, f, want, 5.0)
    if model:
        bad += choice_model(case, cls(**kw), cols, ints, shape, grid, w, y, sig, r, what)
    return bad


def choice_model(case, choice, cols, ints, shape, grid, w, y, sig, r, what):
    """the same through a training of one pass"""
    n = len(cols)
    rows = np.repeat(np.arange(len(grid)), w.astype(int))
    df = pd.DataFrame({c: grid[rows, j].astype(int) for j, c in enumerate(cols)})
    df = df.sample(frac=1.0, random_state=r.randrange(10**6))
    X = np.c_[grid, w, sig]
    want = reference_chosen(case["chosen"], case["norm"], X, y, grid)
    want = np.where(np.isfinite(want), want, 0.0)
    group = cols[0] if n == 1 and r.random() < 0.5 else tuple(cols)
    est = table_model({tuple(cols): (y, sig)}, feature_groups=[group], feature_properties=dict(zip(cols, ints)), smoother_choice=choice)
    tgt = np.array([r.uniform(1, 2) for _ in range(len(df))])
    probe = pd.DataFrame({c: grid[:, j] for j, c in enumerate(cols)})

    def f():
        est.fit(df, tgt)
        none = pd.DataFrame({c: [np.nan] for c in cols})
        return est.predict(probe) - est.predict(none)[0]

    bad = []
    ask(bad, "trained with smoother: " + what, f, want, 5.0, cols=n)
    return bad


def c20(ctx):
    inv = ["Defined", "MayExtrapolate", "Distinct", "Emit"]
    names = {"IS_CONTINUOUS", "IS_ORDERED", "IS_UNORDERED", "IS_MONOTONIC", "IS_LINEAR", "IS_SEASONAL", "INCREASING", "DECREASING",
             "HAS_MISSING", "MISSING_NOT_LEARNED", "HAS_MAGIC_INT_MISSING"}
    one = ctx.tlc("Choice", "one column", consts=dict(Flags=names, MaxCols=1, MinFlags=0, MaxFlags=ctx.pick(4, 11), Random=False), invariants=inv, properties=["NoEffect"],
                  spec="Spec", view="Key").cases
    ctx.rng.shuffle(one)
    # every set of flags at least with one way of choosing
    seen, first, rest = set(), [], []
    for c in one:
        k = tuple(c["props"][0]), c["scheme"]
        (rest if k in seen else first).append(c)
        seen.add(k)
    one = first[: ctx.pick(3000, 10**9)] + rest[: ctx.pick(1500, 20000)]
    more = ctx.tlc("Choice", "groups of columns", consts=dict(Flags=names | {"USE_ORIGINAL", "CORR_TO_WIDTH"}, MaxCols=3, MinFlags=3, MaxFlags=7, Random=True),
                   simulate=ctx.pick(3000, 30000), depth=12, invariants=inv).cases
    seed = ctx.seed
    k = ctx.pick(6, 3)

    def f(c):
        return replay_choice(c, seed, hash_of(c) % k == 0)

    ctx.replay(f, one, "choices for one column")
    ctx.replay(f, more, "choices for groups of columns")
    ctx.assumptions += ["the library's raw smoothers of polynomial and seasonal type are taken as given, the choice, normalisation and masking around them are not"]


def hash_of(c):
    return random.Random(repr(sorted(c.items(), key=str))).randrange(1000)
