"""C01-C03: binning."""
import random
import zlib

import numpy as np
import pandas as pd

from vlib import Raw, guarded, fingerprint

from cyclic_boosting import flags
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer

NAN, PINF, NINF = 1000001, 1000002, 1000003
SPECIAL = {NAN: np.nan, PINF: np.inf, NINF: -np.inf}

CONT = [flags.IS_CONTINUOUS, flags.IS_CONTINUOUS | flags.HAS_MISSING, flags.IS_CONTINUOUS | flags.IS_LINEAR,
        flags.IS_CONTINUOUS | flags.MISSING_NOT_LEARNED, flags.IS_CONTINUOUS | flags.IS_SEASONAL | flags.HAS_MISSING,
        flags.IS_MONOTONIC | flags.INCREASING, flags.IS_MONOTONIC]
ORD = [flags.IS_ORDERED, flags.IS_ORDERED | flags.HAS_MISSING, flags.IS_ORDERED | flags.MISSING_NOT_LEARNED]
UNORD = [flags.IS_UNORDERED, flags.IS_UNORDERED | flags.HAS_MISSING, flags.IS_UNORDERED | flags.MISSING_NOT_LEARNED]


def case_rng(case, seed):
    return random.Random(zlib.crc32(fingerprint(case).encode()) ^ (seed * 7919))


def prop_of(kind, magic, rng):
    p = rng.choice({"cont": CONT, "ord": ORD, "unord": UNORD}[kind])
    return p | flags.HAS_MAGIC_INT_MISSING if magic else p


class Fitted:
    """Fit the binner on the column of a case in one of the equivalent presentations."""

    def __init__(self, case, seed, cls=BinNumberTransformer):
        rng = case_rng(case, seed)
        self.rng = rng
        self.scale, self.off = (1, 0)
        codes = {-9, -999} & {c[0] for c in case["col"]}
        if not case["magic"] and not codes:
            self.scale, self.off = rng.choice([(1, 0), (1, 0), (0.1, 0.0), (2.5, -40.0), (1e-4, 3.0), (1e6, -1e5), (3, 7)])
        rows = []
        for v, w in case["col"]:
            if v in SPECIAL:
                rows.append((SPECIAL[v], w))
                continue
            x = v * self.scale + self.off
            if w >= 2 and rng.random() < 0.4:
                k = rng.randint(1, w - 1)
                rows += [(x, k), (x, w - k)]
            else:
                rows.append((x, w))
        rng.shuffle(rows)
        x = np.array([r[0] for r in rows], dtype=float)
        w = np.array([r[1] for r in rows], dtype=float)
        self.has_special = not np.all(np.isfinite(x))
        unit = np.all(w == 1) and rng.random() < 0.6
        wscale = rng.choice([1.0, 1.0, 0.5, 3.0, 0.1])
        prop = prop_of(case["kind"], case["magic"], rng)
        tol = case["tol"][0] / case["tol"][1]
        other = np.array([rng.randint(0, 3) for _ in rows], dtype=float)
        self.frame = rng.random() < 0.6
        as_dict = rng.random() < 0.4
        noprop = case["kind"] == "cont" and not case["magic"] and rng.random() < 0.3
        if self.frame:
            col, oth, wc = rng.choice([("a", "b", "w"), ("x 1", "x 2", "weight"), (7, 3, 5)])
            order = [col, oth] + ([] if unit else [wc])
            rng.shuffle(order)
            data = {col: x, oth: other, wc: w * wscale}
            X = pd.DataFrame({c: data[c] for c in order})
            if not self.has_special and np.all(x == np.rint(x)) and rng.random() < 0.4:
                X[col] = X[col].astype(int)
            X.index = rng.choice([list(range(len(X))), list(range(10, 10 + len(X))), [0] * len(X)])
        else:
            names = ["c", "o"] + ([] if unit else ["w"])
            rng.shuffle(names)
            data = {"c": x, "o": other, "w": w * wscale}
            col, oth = names.index("c"), names.index("o")
            wc = None if unit else names.index("w")
            X = np.column_stack([data[n] for n in names])
        fp = None if noprop else {col: prop}
        if not noprop and rng.random() < 0.5:
            fp[oth] = flags.IS_ORDERED
        n = case["n"]
        nb = {col: n, oth: rng.choice([2, 3, 9])} if as_dict else n
        if noprop and not as_dict and n < 2:
            nb = n
        self.col, self.X = col, X
        self.names = list(X.columns) if self.frame else list(range(X.shape[1]))
        self.est = cls(n_bins=nb, feature_properties=fp, weight_column=None if unit else wc, tolerance=tol)
        self.x, self.w = x, w
        self.all_binned = (fp is None or len(fp) == len(self.names)) and unit

    def fit(self):
        self.est.fit(self.X)

    def values(self, xs):
        """Table with the looked-up values in the fitted column, something known elsewhere."""
        n = len(xs)
        if self.frame:
            T = pd.DataFrame({c: np.ones(n) for c in self.names})
            T[self.col] = np.asarray(xs, dtype=float)
        else:
            T = np.ones((n, len(self.names)))
            T[:, self.col] = xs
        return T

    def lookup(self, xs):
        r = self.est.transform(self.values(xs))
        return np.asarray(r[self.col]) if self.frame else r[:, self.col]


def replay_c01(case, seed):
    f = Fitted(case, seed)
    bounds, err = guarded(lambda: (f.fit(), f.est.get_feature_bin_boundaries()[f.col])[1])
    if err:
        return [{"what": "fit failed", "observed": err}]
    bad = []
    if not case["upper"]:
        if bounds is not None:
            bad.append({"what": "boundaries for a column without usable values", "observed": np.asarray(bounds).tolist()})
        return bad
    if bounds is None:
        return [{"what": "no boundaries", "expected": case["upper"]}]
    b = np.asarray(bounds, dtype=float)
    up = b[1:, 0]
    tol = case["tol"][0] / case["tol"][1]
    ok = np.isfinite(f.x) & (f.w > 0)
    if case["magic"]:
        ok &= ~np.isin(f.x, [-9, -999])
    vals, wt = f.x[ok], f.w[ok]
    eps = 1e-9 * abs(f.scale)
    # the guarantees, on what the code reports
    if case["kind"] == "cont" and len(up) > case["n"]:
        bad.append({"what": "more bins than requested", "observed": len(up)})
    if np.any(np.diff(up) <= 0):
        bad.append({"what": "boundaries not increasing", "observed": up.tolist()})
    if not all(np.min(np.abs(vals - u)) <= eps for u in up):
        bad.append({"what": "boundary is not a weighted training value", "observed": up.tolist()})
    if abs(up[-1] - vals.max()) > eps or abs(b[0, 0] - vals.min()) > eps:
        bad.append({"what": "range not covered", "observed": b[:, 0].tolist()})
    which = np.searchsorted(up, vals - eps)
    ws = np.bincount(np.minimum(which, len(up) - 1), weights=wt, minlength=len(up)) / wt.sum()
    if case["kind"] == "cont" and np.any(ws < (1 - tol) / case["n"] - 1e-7):
        bad.append({"what": "bin below minimal weight", "observed": ws.tolist()})
    if np.any(np.abs(np.cumsum(ws) - b[1:, 1]) > 1e-8) or abs(b[0, 1]) > 1e-12:
        bad.append({"what": "reported cdf differs from bin weights", "observed": b[:, 1].tolist(), "expected": np.cumsum(ws).tolist()})
    # the exact result of the specification
    if not case["amb"]:
        exp = np.array(case["upper"], dtype=float) * f.scale + f.off
        if len(exp) != len(up) or np.any(np.abs(exp - up) > eps):
            bad.append({"what": "boundaries", "observed": up.tolist(), "expected": exp.tolist()})
    return bad


def replay_c02(case, seed):
    if case["amb"]:
        return {"skip": "rounding_boundary"}
    f = Fitted(case, seed)
    xs, exp = [], []
    for h, e in zip(case["probes"], case["look"]):
        base = (h // 2) * f.scale + f.off
        if h % 2 == 0:
            cand = [base]
            if case["upper"]:
                cand += [base - 1e-12 * f.scale, base + 1e-12 * f.scale] if f.scale == 1 and abs(h) < 100 and not case["magic"] else []
        else:
            cand = [base + 0.5 * f.scale, base + 1e-3 * f.scale, base + (1 - 1e-3) * f.scale]
        xs += cand
        exp += [e] * len(cand)
    xs += [np.nan, np.inf, -np.inf]
    exp += [-1, -1, -1]
    order = list(range(len(xs)))
    f.rng.shuffle(order)
    xs, exp = [xs[i] for i in order], [exp[i] for i in order]
    got, err = guarded(lambda: (f.fit(), f.lookup(xs))[1])
    if err:
        return [{"what": "fit/transform failed", "observed": err}]
    bad = []
    g = np.asarray(got)
    if f.frame and g.dtype.kind != "i":
        bad.append({"what": "bin numbers are not integers", "observed": str(g.dtype)})
    if not f.frame and f.all_binned and g.dtype.kind != "i":
        bad.append({"what": "bin numbers are not integers", "observed": str(g.dtype)})
    diff = [i for i in range(len(xs)) if not (g[i] == exp[i])]
    if diff:
        i = diff[0]
        bad.append({"what": "bin number", "value": repr(xs[i]), "observed": repr(g[i]), "expected": exp[i], "n_diff": len(diff)})
    # the training rows themselves, through fit_transform
    if not bad:
        fit_map = dict(zip(case["probes"], case["look"]))
        f2 = Fitted(case, seed)
        out, err = guarded(lambda: f2.est.fit_transform(f2.X))
        if err:
            return [{"what": "fit_transform failed", "observed": err}]
        got = np.asarray(out[f2.col]) if f2.frame else out[:, f2.col]
        for x, g in zip(f2.x, got):
            e = fit_map[int(round(2 * (x - f2.off) / f2.scale))] if np.isfinite(x) else -1
            if g != e:
                bad.append({"what": "bin number from fit_transform", "value": repr(x), "observed": repr(g), "expected": e})
                break
    return bad


def spec_runs(ctx):
    """Columns from the specification: exhaustive small ones, simulated larger ones."""
    T = lambda *s: set(s)
    inv = ["Guarantees", "LookupOk", "Emit"]
    c = []
    confs = {("cont", False, 2, (1, 10)), ("cont", False, 3, (1, 10)), ("cont", False, 4, (0, 1)), ("ord", False, 2, (1, 10))}
    r = ctx.tlc("Binning", "small columns", invariants=inv, workers=4, consts=dict(
        Vals=[0, 1, 2, 3], Weights={0, 1, 2}, Sizes=set(range(1, ctx.pick(4, 6))), Ordered=True, Confs=confs,
        Extras={(), ((NAN, 1), (PINF, 2))}))
    c += r.cases
    confs = {("cont", m, n, (1, 10)) for m in (False, True) for n in (2, 3)} | {(k, m, 5, (1, 10)) for k in ("ord", "unord") for m in (False, True)}
    r = ctx.tlc("Binning", "magic codes and special values", invariants=inv, workers=4, consts=dict(
        Vals=[-999, -9, 0, 1, 2], Weights={1} if ctx.quick else {0, 1, 3}, Sizes=set(range(0, ctx.pick(4, 5))), Ordered=True, Confs=confs,
        Extras={((NINF, 1),), ((NAN, 0), (-9, 1)), ((PINF, 5), (NAN, 2), (-999, 2))}))
    c += r.cases
    confs = {("cont", False, n, t) for n in (2, 3, 4, 5, 7, 10, 40) for t in ((1, 10), (0, 1), (1, 20), (3, 10), (1, 2), (3, 4))}
    r = ctx.tlc("Binning", "longer columns", invariants=inv, simulate=ctx.pick(5000, 40000), depth=60, consts=dict(
        Vals=list(range(0, 13)), Weights={0, 1, 2, 3, 11}, Sizes={6, 10, 15, 22, 32}, Ordered=False, Confs=confs,
        Extras={(), ((NAN, 1),), ((PINF, 4), (NINF, 7))}))
    c += r.cases
    confs = {("cont", False, n, t) for n in (5, 8, 20, 60) for t in ((1, 10), (1, 3))} | {("ord", False, 5, (1, 10)), ("unord", False, 100, (1, 10))}
    r = ctx.tlc("Binning", "long columns", invariants=["Guarantees", "Emit"], simulate=ctx.pick(240, 2400), depth=200, consts=dict(
        Vals=list(range(0, 26)), Weights={0, 1, 2, 5}, Sizes={40, 60, 80}, Ordered=False, Confs=confs, Extras={(), ((NAN, 1),)}))
    c += r.cases
    # many bins: bin numbers beyond one byte
    rng = ctx.rng
    longs = set()
    for k in ctx.pick([129, 300], [128, 129, 130, 257, 300, 520]):
        longs.add(tuple((v, 1) for v in range(k)))
        longs.add(tuple((v, rng.choice([1, 1, 2])) for v in range(k)))
    confs = {("cont", False, 130, (1, 10)), ("cont", False, 400, (1, 10)), ("ord", False, 2, (1, 10)), ("unord", False, 2, (1, 10))}
    r = ctx.tlc("Binning", "many bins", invariants=["Guarantees", "Emit"], consts=dict(
        Vals=[0, 520], Weights={1}, Sizes={0}, Ordered=True, Confs=confs, Extras=longs))
    c += r.cases
    return c


def c01(ctx):
    cases = spec_runs(ctx)
    ctx.exhaustive = False
    ctx.count("columns_with_fewer_bins_than_values", sum(len(c["upper"]) < len({v for v, w in c["col"]}) for c in cases))
    ctx.replay(lambda c: replay_c01(c, ctx.seed), cases, "columns_fitted")
    ctx.assumptions += ["values and weights on integer grids, mapped affinely to floats",
                        "columns whose exact cdf hits a tolerance threshold are only checked for the guarantees"]


def c02(ctx):
    cases = spec_runs(ctx)
    ctx.exhaustive = False
    ctx.replay(lambda c: replay_c02(c, ctx.seed), cases, "columns_looked_up")
    ctx.count("values_looked_up", sum(len(c["probes"]) for c in cases))


# --------------------------------------------------------------------------- C39
def replay_c39(case, seed):
    if case["amb"]:
        return {"skip": "rounding_boundary"}
    f = Fitted(case, seed, ECdfTransformer)
    xs, exp = [np.nan, np.inf, -np.inf], [np.nan] * 3
    for h, e in zip(case["probes"], case["cdf"]):
        xs.append((h // 2) * f.scale + f.off + (h % 2) * 0.5 * f.scale)
        exp.append(e[0] / e[1] if e else np.nan)
    order = list(range(len(xs)))
    f.rng.shuffle(order)
    xs, exp = [xs[i] for i in order], np.array([exp[i] for i in order])
    T = f.values(xs)
    if f.frame:
        T.index = f.rng.choice([range(len(T)), range(3, 3 + len(T)), list("ab" * len(T))[:len(T)]])
    before = T.copy()
    out, err = guarded(lambda: (f.est.fit(f.X), f.est.transform(T))[1])
    if err:
        return [{"what": "fit/transform failed", "observed": err}]
    bad = []
    if f.frame != isinstance(out, pd.DataFrame) or out.shape != T.shape:
        return [{"what": "form of the result", "observed": repr(type(out)) + repr(getattr(out, "shape", None))}]
    if not (before.equals(T) if f.frame else np.array_equal(before, T, equal_nan=True)):
        bad.append({"what": "the table handed in was changed"})
    if f.frame and (list(out.columns) != list(T.columns) or list(out.index) != list(T.index)):
        bad.append({"what": "row or column labels of the result", "observed": repr((list(out.index)[:5], list(out.columns))),
                    "expected": repr((list(T.index)[:5], list(T.columns)))})
    got = np.asarray(out[f.col] if f.frame else out[:, f.col], dtype=float)
    same = (np.isnan(got) & np.isnan(exp)) | (np.abs(got - exp) <= 1e-7)
    if not same.all():
        i = int(np.flatnonzero(~same)[0])
        bad.append({"what": "cumulative probability", "value": repr(xs[i]), "observed": repr(got[i]), "expected": repr(exp[i]),
                    "n_diff": int((~same).sum())})
    # columns that are not binned, and the weights, pass unchanged
    binned = set(f.est.feature_properties or [c for c in f.names if c != f.est.weight_column])
    for c in f.names:
        v = np.asarray(out[c] if f.frame else out[:, c], dtype=float)
        if c not in binned and not np.all(v == 1):
            bad.append({"what": "a column that is not binned was changed", "observed": repr(c)})
    return bad


def c39(ctx):
    inv = ["InUnit", "Monotone", "Ends", "Share", "Consistent", "ECases"]
    run = lambda label, **kw: ctx.tlc("Ecdf", label, invariants=inv, init="EInit", next_="ENext", **kw).cases
    confs = {("cont", False, 2, (1, 10)), ("cont", False, 3, (1, 10)), ("cont", False, 4, (0, 1)), ("ord", False, 2, (1, 10))}
    cases = run("small columns", workers=4, consts=dict(
        Vals=[0, 1, 2, 5], Weights={0, 1, 2}, Sizes=set(range(1, ctx.pick(4, 6))), Ordered=True, Confs=confs, Extras={(), ((NAN, 1), (PINF, 2))}))
    confs = {("cont", m, n, (1, 10)) for m in (False, True) for n in (2, 3)} | {(k, m, 5, (1, 10)) for k in ("ord", "unord") for m in (False, True)}
    cases += run("magic codes and special values", workers=4, consts=dict(
        Vals=[-999, -9, 0, 1, 2], Weights={1} if ctx.quick else {0, 1, 3}, Sizes=set(range(0, ctx.pick(4, 5))), Ordered=True, Confs=confs,
        Extras={((NINF, 1),), ((NAN, 0), (-9, 1)), ((PINF, 5), (NAN, 2), (-999, 2))}))
    confs = {("cont", False, n, t) for n in (2, 3, 5, 7, 40) for t in ((1, 10), (0, 1), (3, 10), (1, 2))} | {("ord", False, 5, (1, 10)), ("unord", False, 100, (1, 10))}
    cases += run("longer columns", simulate=ctx.pick(1500, 20000), depth=60, consts=dict(
        Vals=[0, 1, 2, 4, 5, 9, 10, 17, 30, 31], Weights={0, 1, 2, 3, 11}, Sizes={6, 10, 15, 22}, Ordered=False, Confs=confs,
        Extras={(), ((NAN, 1),), ((PINF, 4), (NINF, 7))}))
    ctx.exhaustive = False
    ctx.count("values_between_boundaries", sum(bool(e) and 0 < e[0] < e[1] for c in cases if c["kind"] == "cont" for e in c["cdf"]))
    ctx.replay(lambda c: replay_c39(c, ctx.seed), cases, "distributions_evaluated")


# --------------------------------------------------------------------------- C03
def table_data(t, cfg):
    return [[SPECIAL.get(v, v) for v in col] for col in t]


def replay_c03(case, tables, seed):
    if case["amb"]:
        return {"skip": "rounding_boundary"}
    cfg = case["cfg"]
    rng = case_rng(case, seed)
    nc = len(cfg["kinds"])
    frame = rng.random() < 0.6
    names = ["a", "b", "c", "d"][:nc] if frame else list(range(nc))
    fp = {names[i]: prop_of(k, cfg["magic"], rng) for i, k in enumerate(cfg["kinds"]) if k != "off" and i + 1 != cfg["weight"]}
    if all(k == "cont" for k in cfg["kinds"]) and not cfg["magic"] and rng.random() < 0.5:
        fp = None
    wc = names[cfg["weight"] - 1] if cfg["weight"] else None
    bins = {names[i]: cfg["n"][i] for i in range(nc)}
    if len(set(cfg["n"])) == 1 and rng.random() < 0.7:
        bins = cfg["n"][0]
    est = BinNumberTransformer(n_bins=bins, feature_properties=fp, weight_column=wc, tolerance=cfg["tol"][0] / cfg["tol"][1],
                               inplace=cfg["inplace"])

    def make(t, rows=None, drop=None):
        data = table_data(tables[t - 1], cfg)
        rows = range(len(data[0])) if rows is None else rows
        ints = all(float(v) == int(v) if np.isfinite(v) else False for c in data for v in c)
        if frame:
            df = pd.DataFrame({names[i]: [data[i][r] for r in rows] for i in range(nc)})
            if ints and rng.random() < 0.5:
                df = df.astype(int)
            else:
                df = df.astype(float)
            if rng.random() < 0.5:
                df.index = [100 - i for i in range(len(df))]
            if drop:
                df = df.drop(columns=[names[drop - 1]])
            if rng.random() < 0.3:
                df = df[list(reversed(list(df.columns)))]
            return df
        a = np.array([[data[i][r] for i in range(nc)] for r in rows], dtype=int if ints and rng.random() < 0.5 else float).reshape(-1, nc)
        if drop:
            a = np.delete(a, drop - 1, axis=1)
        if rng.random() < 0.3:
            a = np.asfortranarray(a)
        return a

    def get(X, i):
        return np.asarray(X[names[i]] if frame else X[:, i], dtype=float)

    def same(u, v):
        u, v = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
        return u.shape == v.shape and bool(np.all((u == v) | (np.isnan(u) & np.isnan(v))))

    def snapshot(X):
        return X.copy(deep=True) if frame else X.copy()

    def unchanged(X, S):
        if frame:
            return list(X.columns) == list(S.columns) and list(X.index) == list(S.index) and all(
                same(X[c], S[c]) and X[c].dtype == S[c].dtype for c in X.columns)
        return same(X, S) and X.dtype == S.dtype

    bad = []

    def transform(X, method="transform"):
        S = snapshot(X)
        out, err = guarded(lambda: getattr(est, method)(X))
        if err:
            return None, err
        if cfg["inplace"]:
            for i in range(nc):
                if not same(get(X, i), get(out, i)):
                    bad.append({"what": "in-place result differs from returned result", "col": i})
        elif not unchanged(X, S):
            bad.append({"what": "caller's table modified by " + method})
        if frame and list(out.index) != list(S.index):
            bad.append({"what": "row labels changed"})
        if len(out) != len(S):
            bad.append({"what": "number of rows changed"})
            return None, None
        return out, None

    def compare(out, exp, rows, step):
        for i in range(nc):
            e = [SPECIAL.get(exp[i][r], exp[i][r]) for r in rows]
            if not same(get(out, i), e):
                bad.append({"what": "table cell", "step": step, "col": i, "observed": get(out, i).tolist(), "expected": e})

    for step, h in enumerate(case["hist"]):
        ev = dict(h["ev"], out=h.get("out"))
        op = ev["op"]
        if op == "fit":
            X = make(ev["table"])
            S = snapshot(X)
            _, err = guarded(lambda: est.fit(X))
            if err:
                bad.append({"what": "fit failed", "step": step, "observed": err})
            elif not unchanged(X, S):
                bad.append({"what": "caller's table modified by fit", "step": step})
        elif op == "fit_transform":
            X = make(ev["table"])
            out, err = transform(X, "fit_transform")
            if err:
                bad.append({"what": "fit_transform failed", "step": step, "observed": err})
            elif out is not None:
                compare(out, ev["out"], range(len(tables[ev["table"] - 1][0])), step)
        elif op == "transform":
            n = len(tables[ev["table"] - 1][0])
            m = ev["mode"]
            rows = list(range(n))
            if m == "whole":
                batches = [rows]
            elif m == "single":
                batches = [[r] for r in rows]
            elif m == "reverse":
                batches = [rows[::-1]]
            elif m == "shuffle2":
                rng.shuffle(rows)
                k = max(1, n // 3)
                batches = [rows[:k], rows[k:]]
            else:
                batches = [rows * 3]
            for b in batches:
                if not b:
                    continue
                X = make(ev["table"], b)
                out, err = transform(X)
                if not ev["ok"]:
                    if not err:
                        bad.append({"what": "transform before fit accepted", "step": step})
                elif err:
                    bad.append({"what": "transform failed", "step": step, "observed": err})
                elif out is not None:
                    compare(out, ev["out"], b, step)
        elif op == "transform_drop":
            if not frame and (wc is not None or (fp is not None and len(fp) != nc)):
                continue  # dropping an array column renumbers the others
            X = make(ev["table"], drop=ev["col"])
            _, err = guarded(lambda: est.transform(X))
            if not err:
                bad.append({"what": "missing column accepted", "step": step})
        elif op == "fit_empty":
            X = make(1, [])
            _, err = guarded(lambda: est.fit(X))
            if not err:
                bad.append({"what": "empty training data accepted", "step": step})
        elif op == "transform_empty":
            X = make(1, [])
            out, err = guarded(lambda: est.transform(X))
            if err or len(out) != 0:
                bad.append({"what": "empty transform", "step": step, "observed": err})
        if bad:
            break
    return bad


def c03(ctx):
    N, P, M = NAN, PINF, NINF
    tables = [
        [[1, 2, 3, 4, 5, 6], [0, 0, 1, 1, 2, 2], [1, 2, 1, 1, 0, 3]],
        [[4, 4, 4, 9, N], [3, 1, -9, 0, N], [1, 1, 2, 1, 1]],
        [[N, N, P], [5, N, 5], [2, 1, 1]],
        [[7, 0, -2, 3, 12, N, M], [2, 0, 7, 1, -999, 1, N], [1, 1, 1, 5, 1, 1, 2]],
    ]
    kinds = [("cont", "ord", "off"), ("off", "unord", "off"), ("cont", "cont", "cont"), ("unord", "cont", "ord"), ("cont", "off", "off")]
    configs = "{" + ", ".join(
        "[kinds |-> <<%s>>, magic |-> %s, n |-> <<%s>>, tol |-> <<1, 10>>, weight |-> %d, inplace |-> %s]"
        % (", ".join('"%s"' % k for k in ks), str(m).upper(), ", ".join(map(str, n)), w, str(ip).upper())
        for ks in kinds for (m, n, w, ip) in ([(False, (3, 3, 3), 0, False), (True, (2, 2, 2), 3, False), (False, (2, 3, 2), 3, True), (True, (4, 2, 3), 0, True), (False, (2, 4, 3), 0, False)])
        if not (ks == ("cont", "cont", "cont") and m)) + "}"
    modes = {"whole", "single", "reverse", "shuffle2", "repeat"}
    inv = ["RowWise", "Untouched", "Emit"]
    consts = dict(Tables=tables, Configs=Raw(configs), Modes=modes)
    cases = []
    if not ctx.quick:
        r = ctx.tlc("BinnerApi", "all short histories", invariants=inv, workers=8, consts=dict(consts, MaxCalls=2))
        cases += r.cases
    for k, n in ctx.pick([(3, 500), (6, 250)], [(3, 4000), (4, 2000), (8, 1500)]):
        r = ctx.tlc("BinnerApi", "histories of %d calls" % k, invariants=inv, simulate=n, depth=k + 2, consts=dict(consts, MaxCalls=k))
        cases += r.cases
    ctx.count("calls", sum(len(c["hist"]) for c in cases))
    ctx.replay(lambda c: replay_c03(c, tables, ctx.seed), cases, "histories_replayed")
