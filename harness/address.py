"""C04, C27: addressing of parameters by bin combinations, interaction terms."""
import random

import numpy as np
import pandas as pd

from cyclic_boosting import common_smoothers, flags, interaction_selection, utils
from smooth import TableIdentity, frac, mism, rng_of
from cyclic_boosting import learning_rate
from vlib import guarded

EMPTY = 999.25


class CodedRows(TableIdentity):
    """the parameter of a bin is the mean of the codes of its rows"""

    codes = None

    def calc_parameters(self, feature, y, pred, prefit_data):
        n, lex = feature.n_bins, feature.lex_binned_data
        code = self.codes[tuple(feature.feature_group)]
        cnt = np.bincount(lex, minlength=n)
        tot = np.bincount(lex, weights=code, minlength=n)
        val = np.where(cnt > 0, tot / np.maximum(cnt, 1), EMPTY)
        if cnt[-1] == 0:
            val[-1] = 0.0
        return val, np.ones(n)


def numbering(g, probes, r):
    """the numbering function, with given numbers of bins, agrees with the slots of the specification"""
    M = np.array([[float(v) if v >= 0 else r.choice([-1.0, -3.0, np.nan]) for v in p[0]] for p in probes], float).reshape(len(probes), -1)
    if r.random() < 0.3:
        M = pd.DataFrame(M)
    nb = np.array(g["nb"], dtype=np.int64)
    steps = utils.bin_steps(nb) if r.random() < 0.3 else None
    res, err = guarded(lambda: utils.multidim_binnos_to_lexicographic_binnos(M, nb, steps))
    want = [p[3] for p in probes]
    if err or np.asarray(res[0]).tolist() != want or np.asarray(res[1]).tolist() != g["nb"]:
        return [mism("numbers of the combinations %s with %s bins" % ([p[0] for p in probes][:12], g["nb"]), err or np.asarray(res[0]).tolist()[:12], want[:12])]
    return []


def replay_address(case, seed):
    r = rng_of(case, seed)
    rows = case["rows"]
    nc = len(rows[0])
    frame = r.random() < 0.7
    names = [["a", "b", "c"], ["x y", "x", "z"], ["c3", "c2", "c1"]][r.randrange(3)][:nc] if frame else list(range(nc))
    groups = sorted(case["groups"], key=str)
    r.shuffle(groups)
    gid = [tuple(names[c - 1] for c in g["cols"]) for g in groups]
    disc = r.random() < 0.5
    mnl = r.random() < 0.2
    props = {n: r.choice([flags.IS_UNORDERED, flags.IS_ORDERED] + ([flags.IS_CONTINUOUS] if not disc else [])) | (flags.MISSING_NOT_LEARNED if mnl else r.choice([0, flags.HAS_MISSING]))
             for n in names}
    est = CodedRows(maximal_iterations=1, learn_rate=learning_rate.constant_learn_rate_one,
                    feature_groups=[g[0] if len(g) == 1 and r.random() < 0.5 else g for g in gid], feature_properties=props,
                    smoother_choice=common_smoothers.NoSmootherChoice(use_regression_type=disc, use_normalization=False))
    est.codes = {g: np.array([round(r.uniform(-9, 9), 3) for _ in rows]) for g in gid}

    def tab(tuples, train):
        alt = [-1.0, -2.0, np.nan] if not train else [-1.0, np.nan]
        M = np.array([[float(v) if v >= 0 else r.choice(alt) for v in t] for t in tuples], float).reshape(-1, nc)
        if not frame:
            return M
        df = pd.DataFrame(M, columns=names)
        for n in names:
            if np.isfinite(df[n]).all() and r.random() < 0.5:
                df[n] = df[n].astype(int)
        return df[r.sample(list(names), nc)]

    y = np.array([r.uniform(1, 3) for _ in rows])
    X = tab(rows, True)
    bad = []
    _, err = guarded(lambda: est.fit(X, y))
    if err:
        return [mism("training", err)]
    for g, name in zip(groups, gid):
        cols = [c - 1 for c in g["cols"]]
        probes = list(g["probes"])
        r.shuffle(probes)
        probes = probes[:40]
        tuples, want = [], []
        for t, kind, share, _ in probes:
            row = [r.choice([-1, 0, 1, 7]) for _ in range(nc)]
            for c, v, nb in zip(cols, t, g["nb"]):
                row[c] = v if v <= nb or r.random() < 0.5 else r.choice([nb + 1, nb + 7, 10**6])
            tuples.append(row)
            code = est.codes[name]
            if kind == "rows" or (kind == "missing" and share and not mnl):
                want.append(float(np.mean([code[i - 1] for i in share])))
            elif kind == "unseen":
                want.append(0.0 if disc else EMPTY)
            else:
                want.append(0.0)
        bad += numbering(g, probes, r)
        key = " ".join(map(str, name))

        def con(ts):
            return np.asarray(est.get_feature_contributions(tab(ts, False))[key], float)

        got, err = guarded(lambda: con(tuples))
        if err:
            bad.append(mism("contributions of group %s" % key, err))
            continue
        for i, (row, p) in enumerate(zip(tuples, probes)):
            if not abs(got[i] - want[i]) < 1e-9:
                bad.append(mism("parameter used by row %s in group of columns %s" % (row, g["cols"]), float(got[i]), want[i], kind=p[1], discontinuous=disc))
        # alone and in other company
        for i in r.sample(range(len(tuples)), min(4, len(tuples))):
            for batch in ([i], [i, i], [i] + r.sample(range(len(tuples)), min(2, len(tuples)))):
                g1, err = guarded(lambda: con([tuples[k] for k in batch]))
                if err or not abs(g1[0] - want[i]) < 1e-9:
                    bad.append(mism("parameter used by row %s in a batch of %d, group %s" % (tuples[i], len(batch), g["cols"]), err or float(g1[0]), want[i], kind=probes[i][1]))
    return bad


def c04(ctx):
    inv = ["SameSlot", "Numbering", "Partition", "Emit"]
    g2 = {(1,), (2,), (1, 2), (2, 1)}
    cases = ctx.tlc("BinAddress", "two columns, exhaustive", consts=dict(NCols=2, Values={-1, 0, 2}, MinRows=1, MaxRows=ctx.pick(2, 3), Groups=g2, Random=False), invariants=inv).cases
    cases += ctx.tlc("BinAddress", "two columns", consts=dict(NCols=2, Values={-1, 0, 1, 2, 4}, MinRows=4, MaxRows=8, Groups=g2, Random=True),
                     simulate=ctx.pick(500, 6000), depth=20, invariants=inv).cases
    g3 = {(1,), (3, 1), (2, 3), (1, 2, 3), (3, 2, 1)}
    cases += ctx.tlc("BinAddress", "three columns", consts=dict(NCols=3, Values={-1, 0, 1, 2, 3}, MinRows=4, MaxRows=9, Groups=g3, Random=True),
                     simulate=ctx.pick(300, 4000), depth=20, invariants=inv).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_address(c, seed), cases, "tables addressed")


# ---------------------------------------------------------------- C27


def replay_interactions(case, seed):
    r = rng_of(case, seed)
    n = case["ncols"]
    names = [["a", "b", "c", "d"], ["zz", "y y", "x", "w"]][r.randrange(2)][:n]
    bad = []
    terms, err = guarded(lambda: interaction_selection.create_interactions(list(names), case["dim"]))
    want = {frozenset(names[c - 1] for c in t["term"]) for t in case["terms"]}
    if err or sorted(map(sorted, terms)) != sorted(map(sorted, want)) or any(len(set(t)) != len(t) for t in terms):
        bad.append(mism("interaction terms of %s up to %d" % (names, case["dim"]), err or [list(t) for t in terms], sorted(map(sorted, want))))
    if not case["terms"]:
        return bad
    scale = r.choice([1.0, 10.0, 0.5])
    miss = any(v == -1 for row in case["rows"] for v in row)
    df = pd.DataFrame({nm: [np.nan if row[j] == -1 else row[j] * scale for row in case["rows"]] for j, nm in enumerate(names)})
    fp = {nm: r.choice([flags.IS_UNORDERED, flags.IS_ORDERED, flags.IS_CONTINUOUS]) | (flags.HAS_MISSING if miss else 0) for nm in names}
    mine = [tuple(names[c - 1] for c in t["term"]) for t in case["terms"]]
    ft, err = guarded(lambda: interaction_selection.build_binned_interaction_features(df.copy(), mine, fp))
    if err:
        bad.append(mism("numbers of the combinations", err))
        return bad
    for t, m in zip(case["terms"], mine):
        got = [int(v) for v in ft[m].values] if m in ft.columns else "missing"
        # numbers identify combinations; which number is a matter of order
        if got == "missing" or [got.index(v) for v in got] != [t["numbers"].index(v) for v in t["numbers"]]:
            bad.append(mism("numbers of the combinations of %s" % (m,), got, t["numbers"]))
    y = np.array(case["y"], float) if not case["classify"] else np.array(case["y"])
    for k in range(1, len(mine) + 1):
        sure = {frozenset(m) for t, m in zip(case["terms"], mine) if t["better"] < k}
        if len(sure) != k:
            continue  # a tie at the border
        worst = max(frac(t["score"]) for t in case["terms"] if t["better"] >= k) if k < len(mine) else -1
        best = min(frac(t["score"]) for t in case["terms"] if t["better"] < k)
        if best == 1.0 or best - worst < 1e-9:
            continue  # perfect scores are infinite and compare by rounding
        got, err = guarded(lambda: interaction_selection.select_interaction_terms_anova(df.copy(), y, fp, case["dim"], k, classification=case["classify"]))
        if err or {frozenset(t) for t in got} != sure or len(got) != k:
            bad.append(mism("best %d terms" % k, err or [list(t) for t in got], sorted(map(sorted, sure)), classify=case["classify"]))
    return bad


def c27(ctx):
    inv = ["AllOnce", "Unique", "ScoreBound", "Emit"]
    cases = []
    seed = ctx.seed
    for cl in (False, True):
        tg = {0, 1} if cl else {-1, 0, 2, 5}
        for n, num in ((3, ctx.pick(400, 4000)), (4, ctx.pick(300, 3000))):
            cases += ctx.tlc("Interactions", "%d columns%s" % (n, ", classes" if cl else ""), consts=dict(
                NCols=n, MaxDim=n, Values={-1, 0, 1, 3} if cl or n == 3 else {0, 1, 2}, Targets=tg if not cl or n == 4 else {0, 1, 2}, MinRows=7, MaxRows=10, Classify=cl, Scored=True, Random=True),
                simulate=num, depth=60, invariants=inv).cases
    cases += ctx.tlc("Interactions", "enumeration in every order", consts=dict(NCols=3, MaxDim=3, Values={0, 1}, Targets={0, 1}, MinRows=2, MaxRows=2, Classify=False, Scored=True, Random=False),
                     invariants=inv).cases
    cases += ctx.tlc("Interactions", "many values per column", consts=dict(NCols=2, MaxDim=2, Values=set(range(40)), Targets={0, 1}, MinRows=25, MaxRows=60, Classify=False, Scored=False, Random=True),
                     invariants=inv, simulate=ctx.pick(60, 300), depth=80).cases
    cs = ctx.tlc("Interactions", "enumeration of many", consts=dict(NCols=5, MaxDim=5, Values={0}, Targets={0}, MinRows=1, MaxRows=1, Classify=False, Scored=True, Random=True),
                 invariants=["AllOnce"], simulate=20, depth=100)
    ctx.replay(lambda c: replay_interactions(c, seed), cases, "tables with interaction terms")
