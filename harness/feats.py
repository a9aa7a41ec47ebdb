"""C40, C41: influence categories and the list of features."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import flags
from cyclic_boosting.base import CBLinkPredictionsFactors
from cyclic_boosting.features import FeatureID, FeatureTypes, create_features
from cyclic_boosting.common_smoothers import SmootherChoiceGroupBy
from cyclic_boosting.price import CBLinkPredictions
from families import BY_NAME, table, target
from smooth import mism, rng_of
from vlib import guarded

KIND = {"standard": FeatureTypes.standard, "external": FeatureTypes.external}
NAMES = ["promotion", "weather", "base level"]


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def categories_of(case, groups, r):
    """the assignment of a case, single columns under either of their names"""
    if not case["use"]:
        return None
    d = {}
    for g, c in zip(groups, case["cat"]):
        if c:
            d[g[0] if len(g) == 1 and r.random() < 0.5 else g] = NAMES[c - 1]
    keys = list(d)
    r.shuffle(keys)
    return {k: d[k] for k in keys}


# ---------------------------------------------------------------- C40: the account book

def replay_book(case, seed):
    r = rng_of(case, seed)
    n = r.choice([1, 3, 4])
    groups = [("a",), ("b",), ("a", "b"), ("c",)][:len(case["cat"])]
    cats = categories_of(case, groups, r)
    ids = [FeatureID(g, FeatureTypes.external if k + 1 in case["ext"] else FeatureTypes.standard) for k, g in enumerate(groups)]
    feats = list(create_features(ids, {c: flags.IS_ORDERED for c in "abc"}, SmootherChoiceGroupBy()))
    c = {k: np.array([r.randint(-6, 6) / 4.0 for _ in range(n)]) for k in range(len(groups))}
    base = np.array([r.randint(-3, 3) / 2.0 for _ in range(n)])
    expo = np.array([r.randint(1, 3) / 2.0 for _ in range(n)])
    prices = np.array([r.choice([0.0, -0.5, 0.25]) for _ in range(n)])
    price = bool(case["ext"]) or r.random() < 0.4
    handed = base.copy()
    pred = CBLinkPredictions(handed, expo.copy(), prices) if price else CBLinkPredictionsFactors(handed)
    bad = []
    for k, (op, g, refused) in enumerate(case["hist"]):
        given = c[g - 1].copy()
        f = pred.update_predictions if op == "include" else pred.remove_predictions
        _, err = guarded(lambda: f(given, feats[g - 1], cats) if cats is not None or r.random() < 0.5 else f(given, feats[g - 1]))
        if refused != (err is not None) or (err and not err.startswith("KeyError")):
            return [mism("entry %d (%s) %s" % (k, op, "of a group without category" if refused else ""), err or "accepted",
                         "KeyError" if refused else "accepted")]
        if not np.array_equal(given, c[g - 1]):
            bad.append(mism("contribution handed in was changed by %s" % op, given.tolist(), c[g - 1].tolist()))
    want = base + sum(m * c[k] for k, m in enumerate(case["factors"]))
    if not close(pred.factors(), want):
        bad.append(mism("factors", pred.factors().tolist(), want.tolist()))
    if not np.array_equal(handed, base):
        bad.append(mism("base handed in was changed", handed.tolist(), base.tolist()))
    if price:
        e = expo * np.exp(sum(m * c[k] for k, m in enumerate(case["exponents"])))
        want = want + e * prices
        if not close(pred.exponents(), e):
            bad.append(mism("exponents", pred.exponents().tolist(), e.tolist()))
    if not close(pred.predict_link(), want):
        bad.append(mism("prediction on link scale", pred.predict_link().tolist(), want.tolist()))
    for k, col in enumerate(case["column"]):
        name = NAMES[k]
        if (name in pred.df.columns) != bool(col):
            bad.append(mism("category %r present" % name, name in pred.df.columns, bool(col)))
        elif col:
            w = sum(m * c[j] for j, m in enumerate(col))
            if not close(pred.df[name].values, w):
                bad.append(mism("category %r" % name, pred.df[name].tolist(), np.asarray(w).tolist()))
    return bad


# ---------------------------------------------------------------- C40: predictions of estimators

def replay_prediction(case, seed):
    r = rng_of(case, seed)
    price = bool(case["ext"])
    fam = BY_NAME["exponential" if price else r.choice(["poisson", "nbinom", "location", "locpoisson", "classifier", "nbinomc", "gbs"])]
    n = r.choice([25, 40])
    groups = [("a",), ("b",), ("a", "b")][:len(case["cat"])]
    ext = [groups[k - 1] for k in case["ext"]]
    std = [g for g in groups if g not in ext]
    as_given = lambda gs: [g[0] if len(g) == 1 and r.random() < 0.5 else g for g in gs]
    df, y = table(r, n), target(r, n, fam.y)
    kw = {fam.groups: as_given(std)}
    if fam.name == "exponential":
        kw["external_feature_groups"] = as_given(ext) if ext else [("b",)]
    if fam.prior and r.random() < 0.4:
        kw["prior_prediction_column"] = "prior"
        if fam.y == "binary":
            df["prior"] = [r.uniform(0.1, 0.9) for _ in range(n)]
    if fam.weight and r.random() < 0.4:
        kw["weight_column"] = "w"
    est = fam.make(feature_properties={c: flags.IS_UNORDERED for c in "ab"}, maximal_iterations=3, **kw)
    _, err = guarded(lambda: est.fit(df.copy(), y))
    if err:
        return {"skip": "training_not_possible"}
    cats = categories_of(case, groups, r)
    P = table(r, 12)
    P["prior"] = df["prior"].iloc[:12]
    P["price"] = P["price"].fillna(1.0)
    ask = lambda T, c: guarded(lambda: est.predict_extended(T.copy(), c))
    ext_pred, err = ask(P, cats)
    refused = any(h[2] for h in case["hist"])
    if refused or err:
        if refused and err and err.startswith("KeyError"):
            return []
        return [mism("prediction with categories %s" % cats, err or "accepted", "KeyError" if refused else "accepted", family=fam.name)]
    bad = []
    plain, err = ask(P, None)
    if err:
        return [mism("prediction without categories", err, family=fam.name)]
    if not close(ext_pred.predict_link(), plain.predict_link()):
        bad.append(mism("categories change the prediction", ext_pred.predict_link().tolist(), plain.predict_link().tolist(), family=fam.name))
    direct, err = guarded(lambda: est.predict_proba(P.copy())[:, 1] if fam.name == "classifier" else est.predict(P.copy()))
    if err or not close(est.unlink_func(plain.predict_link()), direct, 1e-7):
        if fam.name not in ("nbinomc", "gbs", "locpoisson"):  # these answer something else than the unlinked sum
            bad.append(mism("predict and the plain prediction on link scale", err or np.asarray(direct).tolist(),
                            est.unlink_func(plain.predict_link()).tolist(), family=fam.name))
    used = sorted({NAMES[case["cat"][k] - 1] for k, g in enumerate(groups) if g in std})
    own = [c for c in ext_pred.df.columns if c in NAMES]
    if sorted(own) != used:
        bad.append(mism("categories of the prediction", own, used, family=fam.name))
        return bad
    # contribution of every group, from asking for one group per category
    single = {g: "only %d" % k for k, g in enumerate(groups)}
    alone, err = ask(P, single)
    if err:
        return bad + [mism("one category per group", err, family=fam.name)]
    for name in used:
        w = sum(alone.df[single[g]].values for k, g in enumerate(groups) if g in std and NAMES[case["cat"][k] - 1] == name)
        if not close(ext_pred.df[name].values, w):
            bad.append(mism("category %r is not the sum of its groups" % name, ext_pred.df[name].tolist(), w.tolist(), family=fam.name))
    # the categories share out what was added to the base value: rows in which
    # every column is missing differ from others by the categories only
    rest = ext_pred.factors() - sum(ext_pred.df[c].values for c in used)
    B = P.copy()
    B["a"] = np.nan
    other, err = ask(B, cats)
    if err:
        return bad + [mism("prediction with a column missing", err, family=fam.name)]
    rest2 = other.factors() - sum(other.df[c].values for c in used)
    if not close(rest, rest2, 1e-7):
        bad.append(mism("base level depends on the features", rest2.tolist(), rest.tolist(), family=fam.name))
    for name in used:
        if not any("a" in g for k, g in enumerate(groups) if g in std and NAMES[case["cat"][k] - 1] == name):
            if not close(other.df[name].values, ext_pred.df[name].values):
                bad.append(mism("category %r follows a column it does not contain" % name, other.df[name].tolist(), ext_pred.df[name].tolist(), family=fam.name))
    return bad


def c40(ctx):
    inv = ["Shared", "OwnColumn", "ExternalApart", "Undo", "Columns", "Emit"]
    books = ctx.tlc("Influence", "account books", invariants=inv, workers=4, consts=dict(
        NG=3, NC=2, Ops=set(range(0, ctx.pick(3, 5))), WithCats={True, False}, Externals={frozenset(), frozenset([2])}, OnlyOnce=False)).cases
    books += ctx.tlc("Influence", "longer books", invariants=inv, simulate=ctx.pick(1200, 10000), depth=15, consts=dict(
        NG=4, NC=3, Ops={5, 8, 12}, WithCats={True, False}, Externals={frozenset(), frozenset([2]), frozenset([1, 3])}, OnlyOnce=False)).cases
    ctx.count("books_with_a_removal_first", sum(any(h[0] == "remove" for h in c["hist"][:1]) for c in books))
    ctx.replay(lambda c: replay_book(c, ctx.seed), books, "books_replayed")
    preds = ctx.tlc("Influence", "predictions", invariants=inv, consts=dict(
        NG=3, NC=3, Ops={3}, WithCats={True}, Externals={frozenset(), frozenset([2])}, OnlyOnce=True)).cases
    preds += ctx.tlc("Influence", "predictions of two groups", invariants=inv, consts=dict(
        NG=2, NC=3, Ops={2}, WithCats={True}, Externals={frozenset(), frozenset([2])}, OnlyOnce=True)).cases
    ctx.replay(lambda c: replay_prediction(c, ctx.seed), preds, "predictions_shared_out")


# ---------------------------------------------------------------- C41

def replay_ids(case, seed):
    r = rng_of(case, seed)
    names = r.choice([["a", "b", "c"], ["x 1", "x 2", "x 3"]])
    tup = lambda t: tuple(names[i - 1] for i in t)
    full = lambda q: FeatureID(tup(q[0]), KIND[q[1]])
    ids = [full(i) for i in case["ids"]]

    def given(q):
        """a feature as the user may name it"""
        if q[1] == "standard":
            if len(q[0]) == 1 and r.random() < 0.5:
                return tup(q[0])[0]
            if r.random() < 0.6:
                return tup(q[0])
        return full(q)

    props = {c: flags.IS_UNORDERED for c in names}
    fl, err = guarded(lambda: create_features([given(i) for i in case["ids"]], props, SmootherChoiceGroupBy()))
    if err:
        return [mism("create_features", err)]
    bad = []
    if list(fl.feature_ids) != ids or list(fl.feature_groups) != [i.feature_group for i in ids] or len(fl) != len(ids):
        bad.append(mism("features of the list", repr(fl.feature_ids), repr(ids)))
    feats = list(fl)
    if [f.feature_id for f in feats] != ids or [f.feature_type for f in feats] != [i.feature_type for i in ids] or [f.dim for f in feats] != [len(i[0]) for i in ids]:
        return bad + [mism("features in order", repr([f.feature_id for f in feats]), repr(ids))]
    for q, at in case["found"]:
        for how, ask in [("index", lambda: fl[given(q)]), ("id", lambda: fl[full(q)]),
                         ("get_feature", lambda: fl.get_feature(tup(q[0])[0] if len(q[0]) == 1 and r.random() < 0.5 else tup(q[0]), KIND[q[1]]))]:
            got, err = guarded(ask)
            if at == 0:
                if not (err or "").startswith("KeyError"):
                    bad.append(mism("%s of the unknown feature %r" % (how, full(q)), err or repr(got.feature_id), "KeyError"))
            elif err or got is not feats[at - 1]:
                bad.append(mism("%s of feature %r" % (how, full(q)), err or repr(got.feature_id), repr(ids[at - 1])))
    # only the features that are still trained
    stopped = [r.random() < 0.5 for _ in feats]
    for f, s in zip(feats, stopped):
        f.stop_iterations = s
    if [f.feature_id for f in fl.iter_fitting()] != [i for i, s in zip(ids, stopped) if not s]:
        bad.append(mism("features still fitted", [repr(f.feature_id) for f in fl.iter_fitting()], [repr(i) for i, s in zip(ids, stopped) if not s]))
    return bad


def replay_columns(case, seed):
    """columns an estimator says it needs: training and predicting on those alone is the same"""
    r = rng_of(case, seed)
    names = ["a", "b", "c"]
    tup = lambda t: tuple(names[i - 1] for i in t)
    std = [tup(i[0]) for i in case["ids"] if i[1] == "standard"]
    ext = [tup(i[0]) for i in case["ids"] if i[1] == "external"]
    short = lambda gs: [g[0] if len(g) == 1 and r.random() < 0.5 else g for g in gs]
    n = 30
    df, y = table(r, n, cols=names), target(r, n, "count")
    df["price"] = df["price"].fillna(1.0)
    df["prior_exp"] = [r.uniform(0.5, 2) for _ in range(n)]
    kw = dict(feature_properties={c: flags.IS_UNORDERED for c in names}, maximal_iterations=2)
    need = {names[i - 1] for i in case["needed"]}
    if case["weight"]:
        kw["weight_column"] = "w"
        need.add("w")
    if case["prior"]:
        kw["prior_prediction_column"] = "prior"
        need.add("prior")
    if case["price"]:
        kw.update(external_colname="price", standard_feature_groups=short(std), external_feature_groups=short(ext))
        need.add("price")
        if case["exponent"]:
            kw["prior_exponent_colname"] = "prior_exp"
            need.add("prior_exp")
        make = lambda: cb.CBExponential(**kw)
    else:
        cls = r.choice([cb.CBPoissonRegressor, cb.CBNBinomRegressor, cb.CBLocationRegressor])
        make = lambda: cls(feature_groups=short(std), **kw)
    full = make()
    p, err = guarded(lambda: full.fit(df.copy(), y).predict(df.copy()))
    if err:
        return {"skip": "training_not_possible"}
    got, err = guarded(lambda: full.required_columns())
    if err or set(got) != need:
        return [mism("required columns", err or sorted(got), sorted(need))]
    cols = [c for c in df.columns if c in got]
    r.shuffle(cols)
    part, err = guarded(lambda: make().fit(df[cols].copy(), y).predict(df[cols].copy()))
    if err or not close(part, p):
        return [mism("trained on the required columns alone", err or part.tolist(), p.tolist())]
    items, err = guarded(lambda: full.get_subestimators_as_items(prototypes=False))
    want = [FeatureID(g, None) for g in std] + [FeatureID(g, FeatureTypes.external) for g in ext]
    if err or [i[0] for i in items] != want or any(i[1] is None for i in items):
        return [mism("smoothers by feature", err or repr([i[0] for i in items]), repr(want))]
    return []


def replay_defaults(case, seed):
    """without feature groups, every other column of the table is a feature of its own"""
    r = rng_of(case, seed)
    n, rows = case["n"], 24
    kind = r.choice(["array", "frame", "numbered frame"])
    names = ["c%d" % (7 * i % 10) for i in range(n)] if kind == "frame" else list(range(n))
    data = np.array([[float(r.choice([0, 1, 2])) for _ in range(n)] for _ in range(rows)])
    if case["weight"] >= 0:
        data[:, case["weight"]] = [r.choice([1.0, 2.0, 3.0]) for _ in range(rows)]
    if case["prior"] >= 0:
        data[:, case["prior"]] = [r.uniform(0.5, 3) for _ in range(rows)]
    y = target(r, rows, "count")
    make = (lambda: data.copy()) if kind == "array" else (lambda: pd.DataFrame(data.copy(), columns=names))
    kw = dict(maximal_iterations=2, feature_properties=r.choice([None, {c: flags.IS_UNORDERED for c in names}]))
    if case["weight"] >= 0:
        kw["weight_column"] = names[case["weight"]]
    if case["prior"] >= 0:
        kw["prior_prediction_column"] = names[case["prior"]]
    cls = r.choice([cb.CBPoissonRegressor, cb.CBNBinomRegressor, cb.CBLocationRegressor])
    want = [names[c] for c in case["groups"]]
    out = []
    for groups in (None, want):
        est = cls(feature_groups=groups, **kw)
        res, err = guarded(lambda: (est.fit(make(), y), est.predict(make()), [tuple(g) for g in est.features.feature_groups], est.required_columns(), set(est.get_feature_contributions(make()))))
        out.append((err, None if err else res[1:]))
    if out[0][0] or out[1][0]:
        if out[0][0] == out[1][0]:
            return {"skip": "training_not_possible"}
        return [mism("training on default groups of a %s" % kind, out[0][0], out[1][0])]
    bad = []
    (p, groups, need, keys), (q, _, _, other) = out[0][1], out[1][1]
    if groups != [(c,) for c in want]:
        bad.append(mism("default groups of a %s, weight %s, prior %s" % (kind, case["weight"], case["prior"]), repr(groups), repr(want)))
    if set(need) != set(names):
        bad.append(mism("required columns", repr(need), repr(names)))
    if keys != other:
        bad.append(mism("contributions", sorted(keys), sorted(other)))
    if not close(p, q):
        bad.append(mism("predictions with default groups of a %s" % kind, p.tolist(), q.tolist()))
    return bad


def c41(ctx):
    inv = ["Unique", "Found", "OrderMatters", "Emit"]
    lists = ctx.tlc("FeatureIds", "lists of two columns", invariants=inv, workers=4, consts=dict(Cols=2, Lens={0, 1, 2}, MaxDim=2)).cases
    lists += ctx.tlc("FeatureIds", "lists of three columns", invariants=inv, simulate=ctx.pick(400, 4000), depth=8, consts=dict(Cols=3, Lens={2, 3, 4}, MaxDim=3)).cases
    ctx.exhaustive = False
    ctx.replay(lambda c: replay_ids(c, ctx.seed), lists, "lists_asked")
    tables = ctx.tlc("Defaults", "columns without feature groups", invariants=["Complete", "InOrder", "Emit"], workers=4, consts=dict(MaxCols=ctx.pick(5, 7))).cases
    ctx.replay(lambda c: replay_defaults(c, ctx.seed), tables, "default_groups_trained")
    ctx.replay(lambda c: replay_columns(c, ctx.seed),
               [c for c in lists if c["ids"] and max(len(i[0]) for i in c["ids"]) <= 2][:ctx.pick(250, 2000)], "trained_on_required_columns")
