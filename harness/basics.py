"""C36, C37, C38: feature properties, functions through quantiles, link functions."""
import math

import numpy as np
from scipy.stats import norm

from cyclic_boosting import flags, link, utils
from cyclic_boosting import quantile_matching as qm
from smooth import mism, rng_of
from vlib import guarded

# ---------------------------------------------------------------- C36

NAMES = ["IS_CONTINUOUS", "IS_ORDERED", "IS_UNORDERED", "IS_MONOTONIC", "HAS_MISSING", "MISSING_NOT_LEARNED", "USE_ORIGINAL", "CORR_TO_WIDTH", "IS_LINEAR",
         "IS_SEASONAL", "HAS_MAGIC_INT_MISSING", "INCREASING", "DECREASING"]
ASK = {"IS_CONTINUOUS": "is_continuous_set", "IS_ORDERED": "is_ordered_set", "IS_UNORDERED": "is_unordered_set", "IS_MONOTONIC": "is_monotonic_set",
       "HAS_MISSING": "has_missing_set", "MISSING_NOT_LEARNED": "missing_not_learned_set", "IS_LINEAR": "is_linear_set", "IS_SEASONAL": "is_seasonal_set",
       "HAS_MAGIC_INT_MISSING": "has_magic_missing_set", "INCREASING": "increasing_set", "DECREASING": "decreasing_set"}


def number(fact):
    """the part of the named flags that stands for a fact alone"""
    single = {"continuous": "IS_CONTINUOUS", "ordered": "IS_ORDERED", "unordered": "IS_UNORDERED", "missing": "HAS_MISSING", "original": "USE_ORIGINAL",
              "corr": "CORR_TO_WIDTH", "linear": "IS_LINEAR", "seasonal": "IS_SEASONAL", "increasing": "INCREASING", "decreasing": "DECREASING"}
    if fact in single:
        return getattr(flags, single[fact])
    if fact == "monotonic":
        return flags.IS_MONOTONIC & ~flags.IS_CONTINUOUS
    if fact == "not_learned":
        return flags.MISSING_NOT_LEARNED & ~flags.HAS_MISSING
    if fact == "magic":
        return flags.HAS_MAGIC_INT_MISSING & ~flags.HAS_MISSING
    every = 0
    for n in NAMES:
        every |= getattr(flags, n)
    return 1 << (every.bit_length() + int(fact[len("stray"):]))


def replay_flags(case, seed):
    r = rng_of(case, seed)
    v = 0
    for f in case["facts"]:
        v |= number(f)
    if case["used"]:
        v = 0
        for n in r.sample(sorted(case["used"]), len(case["used"])):
            v |= getattr(flags, n)
    if bin(v).count("1") != len(case["facts"]):
        return [mism("number of %s" % sorted(case["facts"]), bin(v))]
    if r.random() < 0.3:
        v = np.int64(v)
    bad = []
    for n, q in ASK.items():
        got, err = guarded(lambda: getattr(flags, q)(v))
        if err or bool(got) != (n in case["named"]):
            bad.append(mism("%s of %s" % (q, sorted(case["facts"])), err or bool(got), n in case["named"]))
    _, err = guarded(lambda: flags.check_flags_consistency(v))
    if (err is None) != case["consistent"] or (err and not err.startswith("ValueError")):
        bad.append(mism("check_flags_consistency of %s" % sorted(case["facts"]), err or "accepted", "accepted" if case["consistent"] else "ValueError"))
    s, err = guarded(lambda: flags.flags_to_string(v))
    if not case["describable"]:
        if not (err or "").startswith("ValueError"):
            bad.append(mism("flags_to_string of %s" % sorted(case["facts"]), err or s, "ValueError"))
        t, err = guarded(lambda: flags.flags_to_string((flags.IS_ORDERED, v)))
        if not (err or "").startswith("ValueError"):
            bad.append(mism("flags_to_string of a tuple", err or str(t), "ValueError"))
    else:
        names = None if err or not isinstance(s, str) else [x for x in s.split(" | ") if x]
        if names is None or sorted(names) != sorted(case["named"]):
            bad.append(mism("flags_to_string of %s" % sorted(case["facts"]), err or s, sorted(case["named"])))
        else:
            back = 0
            for n in names:
                back |= getattr(flags, n)
            if back != v:
                bad.append(mism("property put together again from %r" % s, int(back), int(v)))
            k = r.randrange(4)
            t, err = guarded(lambda: flags.flags_to_string((v,) * k + (flags.IS_ORDERED,)))
            if err or t != (s,) * k + ("IS_ORDERED",):
                bad.append(mism("flags_to_string of a tuple", err or str(t), str((s,) * k + ("IS_ORDERED",))))
    return bad


def replay_lookup(case, seed):
    r = rng_of(case, seed)
    cols = {"a": r.choice(["a", 0]), "b": r.choice(["b b", 1]), "c": "c"}
    val = {"zero": 0, "one": flags.IS_ORDERED, "two": flags.IS_CONTINUOUS | flags.HAS_MISSING, "none": None, "default": r.choice([flags.HAS_MISSING, flags.IS_UNORDERED, 0])}
    d = {cols[c]: val[e] for c, e in case["dict"].items() if e != "absent"} if case["given"] else None
    before = None if d is None else dict(d)
    bad = []
    for c, e in case["single"].items():
        got, err = guarded(lambda: flags.read_feature_property(d, cols[c], val["default"]))
        if err or got != val[e] or isinstance(got, tuple):
            bad.append(mism("property of column %r in %s" % (cols[c], d), err or str(got), val[e]))
    for g in case["groups"]:
        group = tuple(cols[c] for c in g["group"])
        want = tuple(val[e] for e in g["found"])
        got, err = guarded(lambda: flags.read_feature_property(d, group, default=val["default"]))
        if err or got != want:
            bad.append(mism("properties of group %s in %s" % (group, d), err or str(got), str(want)))
    if d != before:
        bad.append(mism("the dictionary was changed", str(d), str(before)))
    return bad[:5]


def c36(ctx):
    inv = ["KeepsUsed", "ClosedUnderUse", "RoundTrip", "OnlyStrayOrPartial", "Implied", "Emit"]
    kw = dict(Stray={"stray0"}, Columns={"a", "b", "c"}, MaxGroup=ctx.pick(3, 4))
    cases = ctx.tlc("Flags", "all properties", consts=dict(kw, Mode="values"), invariants=inv).cases
    cases += ctx.tlc("Flags", "all combinations of names", consts=dict(kw, Mode="names"), invariants=inv).cases
    look = ctx.tlc("Flags", "dictionaries", consts=dict(kw, Mode="lookup"), invariants=inv).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_flags(c, seed), cases, "properties asked")
    ctx.replay(lambda c: replay_lookup(c, seed), look, "dictionaries read")


# ---------------------------------------------------------------- C37


def q(x):
    return x[0] / x[1]


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))).all())


def three(bad, fit, x, v, label):
    """the three forms of a fitted function; returns quantile function, distribution and distribution function"""
    out = []
    for mode in ("ppf", "dist", "cdf"):
        f, err = guarded(lambda: fit(x, v, mode=mode))
        if err:
            bad.append(mism("%s, mode %s" % (label, mode), err))
            return None
        out.append(f)
    f, err = guarded(lambda: fit(x, v))
    ps = np.array([0.05, 0.3, 0.5, 0.9])
    a, err = (None, err) if err else guarded(lambda: np.asarray(f(ps), float))
    if err or not close(a, np.asarray(out[0](ps), float), 1e-12):
        bad.append(mism("%s, no mode given" % label, err or a.tolist(), np.asarray(out[0](ps), float).tolist()))
    _, err = guarded(lambda: fit(x, v, mode="pdf"))
    if err is None:
        bad.append(mism("%s, unknown mode" % label, "accepted", "an error"))
    return out


def replay_fit(case, seed):
    r = rng_of(case, seed)
    pts, kind = case["pts"], case["kind"]
    bad = []

    def want(what, f, e, tol):
        got, err = guarded(lambda: np.asarray(f(), float))
        if err or not close(got, e, tol):
            bad.append(mism("%s of %s through %s" % (what, kind, pts), err or got.tolist(), np.asarray(e, float).tolist()))

    if kind == "spline":
        grid = case["grid"]
        a, b = r.choice([(1.0, 0.0), (0.5, -3.0), (20.0, 100.0)])
        x = np.array([p[0] for p in pts]) / grid
        v = np.array([p[1] for p in pts]) * a + b
        f, err = guarded(lambda: qm.quantile_fit_spline(x, v))
        if err:
            return [mism("spline", err)]
        at = sorted(case["at"])
        xs, vs = np.array([p[0] for p in at]) / grid, [q(p[1]) * a + b for p in at]
        want("values at %s" % [p[0] for p in at], lambda: f(xs), vs, 1e-7)
        i = r.randrange(len(at))
        want("value at %s" % at[i][0], lambda: f(xs[i]), vs[i], 1e-7)
        return bad
    if kind == "gauss":
        z = np.array([p[0] for p in pts]) / 2.0
        v = np.array([p[1] for p in pts], float)
        level, slope = q(case["level"]), q(case["slope"]) * 2
        fs = three(bad, qm.quantile_fit_gaussian, norm.cdf(z), v, "gauss")
        if fs is None:
            return bad
        zs = np.array([-2.5, -1.0, 0.0, 0.25, 2.0])
        want("quantiles", lambda: fs[0](norm.cdf(zs)), level + slope * zs, 1e-5)
        want("mean and deviation", lambda: [fs[1].mean(), fs[1].std()], [level, slope], 1e-5)
        want("distribution function", lambda: fs[2](level + slope * zs), norm.cdf(zs), 1e-5)
        return bad
    if kind == "expo":
        rate = q(case["rate"])
        k = np.array([p[0] for p in pts], float)
        fs = three(bad, qm.quantile_fit_gamma, 1 - 2.0**-k, k * math.log(2) / rate, "gamma")
        if fs is None:
            return bad
        ks = np.array([0.5, 1.0, 2.0, 7.0])
        want("quantiles", lambda: np.asarray(fs[0](1 - 2.0**-ks)) * rate, ks * math.log(2), 1e-5)
        want("mean and variance", lambda: [fs[1].mean() * rate, fs[1].var() * rate**2], [1, 1], 1e-5)
        want("distribution function", lambda: fs[2](ks * math.log(2) / rate), 1 - 2.0**-ks, 1e-5)
        return bad
    k = np.array([p[0] for p in pts], float)
    cdf = np.array([q(p[1]) for p in pts])
    fs = three(bad, qm.quantile_fit_nbinom, cdf, k, "nbinom")
    if fs is None:
        return bad
    want("mean and variance", lambda: [fs[1].mean() / q(case["mean"]), fs[1].var() / q(case["variance"])], [1, 1], 1e-4)
    want("distribution function", lambda: fs[2](k), cdf, 1e-5)
    # well inside the step of a value
    low = np.array([0.0 if v == 0 else float(fs[2](v - 1)) for v in k])
    mid = (cdf + low) / 2
    want("quantiles", lambda: fs[0](mid), k, 1e-9)
    return bad


class Steps:
    """distributions of discrete variables: one per row"""

    def __init__(self, tables):
        self.t = np.asarray(tables, float)

    def cdf(self, y, inner=False):
        y = np.asarray(y)
        k = np.clip(y, 0, self.t.shape[1] - 1).astype(int)
        return np.where(y < 0, 0.0, self.t[np.arange(len(self.t)), k])


def replay_smear(case, seed):
    r = rng_of(case, seed)
    np.random.seed(r.randrange(2**31))
    total = case["total"]
    cum = np.cumsum(case["mass"]) / total
    f = lambda v: 0.0 if v < 0 else float(cum[min(int(v), len(cum) - 1)])
    bad = []
    n = 120

    def judge(what, draws, low, high):
        d = np.asarray(draws, float)
        lo, hi = low / total, high / total
        if not (np.isfinite(d).all() and d.min() >= lo - 1e-12 and d.max() <= hi + 1e-12):
            bad.append(mism(what, [float(d.min()), float(d.max())], [lo, hi]))
        elif hi > lo:
            # uniform over the step: eight standard deviations of the mean of n draws
            u = (d - lo) / (hi - lo)
            if abs(u.mean() - 0.5) > 8 * 0.2887 / math.sqrt(n) or len(set(d.tolist())) < n // 2:
                bad.append(mism(what + ", spread over the step", float(u.mean()), 0.5))

    rows = []
    for y, low, high in zip(case["y"], case["low"], case["high"]):
        d, err = guarded(lambda: [utils.smear_discrete_cdftruth(f, r.choice([int, float])(y)) for _ in range(n)])
        if err:
            return [mism("smear_discrete_cdftruth", err)]
        judge("value %d with masses %s" % (y, case["mass"]), d, low, high)
        rows.append((y, low, high))
    ys = np.array([y for y, _, _ in rows])
    dist = Steps([cum] * len(ys))
    d, err = guarded(lambda: np.array([utils.smear_discrete_cdftruth_qpd(dist, ys) for _ in range(n)]))
    if err or d.shape != (n, len(ys)):
        return bad + [mism("smear_discrete_cdftruth_qpd", err or str(d.shape), str((n, len(ys))))]
    for i, (y, low, high) in enumerate(rows):
        judge("row of value %d with masses %s" % (y, case["mass"]), d[:, i], low, high)
    wide = [i for i, (_, low, high) in enumerate(rows) if high > low]
    if len(wide) > 1:
        u = (d - [x[1] / total for x in rows]) / [max(x[2] - x[1], 1) / total for x in rows]
        if np.allclose(u[:, wide[0]], u[:, wide[1]]):
            bad.append(mism("rows are spread independently of each other", "the same share of the step in all rows"))
    return bad[:5]


def c37(ctx):
    inv = ["LeastSquares", "Rising", "Through", "Distribution", "Emit"]
    kw = dict(Members={(1, 1, 2)}, MinPoints=3, MaxPoints=5, Grid=8)
    cases = ctx.tlc("QuantileFit", "normal, exhaustive", consts=dict(kw, Kind="gauss", Positions={-3, -1, 0, 2}, Values={-2, 0, 1, 5}, MaxPoints=4), invariants=inv).cases
    cases += ctx.tlc("QuantileFit", "normal", consts=dict(kw, Kind="gauss", Positions=set(range(-4, 5)), Values={-40, -8, -3, -1, 0, 1, 2, 5, 9, 30, 100}, MaxPoints=8),
                     simulate=ctx.pick(300, 3000), depth=12, invariants=inv).cases
    spl = ctx.tlc("QuantileFit", "cubics, exhaustive", consts=dict(kw, Kind="spline", Positions={1, 2, 4, 7}, Values={-3, 0, 2}, MinPoints=4, MaxPoints=4), invariants=inv).cases
    spl += ctx.tlc("QuantileFit", "straight and curved", consts=dict(kw, Kind="spline", Positions={1, 3, 4, 5, 7}, Values={0, 1, 3}, MinPoints=5, MaxPoints=5), invariants=inv).cases
    spl += ctx.tlc("QuantileFit", "splines", consts=dict(kw, Kind="spline", Positions=set(range(1, 8)), Values={-5, 0, 1, 2, 3, 4, 8}, MinPoints=4, MaxPoints=7),
                   simulate=ctx.pick(300, 3000), depth=12, invariants=inv).cases
    cases += [dict(c, grid=8) for c in spl]
    members = {(n, a, 4) for n in (1, 2, 3) for a in (1, 2, 3)} | {(1, 1, 5), (2, 2, 5)}
    cases += ctx.tlc("QuantileFit", "negative binomial", consts=dict(kw, Kind="nbinom", Positions=set(range(0, ctx.pick(5, 6))), Values=set(range(0, 6)), Members=members), invariants=inv).cases
    cases += ctx.tlc("QuantileFit", "exponential", consts=dict(kw, Kind="expo", Positions=set(range(1, 7)), Values=set(range(1, 7)), Members={(1, 10), (1, 2), (1, 1), (3, 1), (20, 1)}), invariants=inv).cases
    sm = ctx.tlc("Smear", "steps", consts=dict(Masses={0, 1, 3}, MaxLen=3, Draws=2), invariants=["Tiles", "Emit"]).cases
    sm += ctx.tlc("Smear", "longer", consts=dict(Masses={0, 1, 2, 7}, MaxLen=6, Draws=6), simulate=ctx.pick(300, 3000), depth=20, invariants=["Tiles", "Emit"]).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_fit(c, seed), cases, "functions fitted")
    ctx.replay(lambda c: replay_smear(c, seed), sm, "values spread")


# ---------------------------------------------------------------- C38

LINKS = {"log": link.LogLinkMixin, "logit": link.LogitLinkMixin, "identity": link.IdentityLinkMixin}
CLASS = {"negative": -0.5, "zero": 0.0, "tiny": 1e-9, "half": 0.5, "one": 1.0, "two": 2.0, "nan": float("nan"), "inf": float("inf"), "minusinf": float("-inf")}


def replay_link(case, seed):
    r = rng_of(case, seed)
    L = LINKS[case["kind"]]()
    if "bag" in case:
        v = np.array([CLASS[c] for c in case["bag"]])
        got, err = guarded(lambda: bool(L.is_in_range(v)))
        return [] if not err and got == case["ok"] else [mism("%s: is_in_range of %s" % (case["kind"], case["bag"]), err or got, case["ok"])]
    unit = 1.0 if case["kind"] == "identity" else math.log(2)
    ls = np.array([p["link"] * unit for p in case["path"]])
    ms = np.array([q(p["mean"]) for p in case["path"]])
    bad = []
    shape = r.choice([(-1,), (-1, 1), (1, -1)])
    for what, f, x, e in (("link_func", L.link_func, ms, ls), ("unlink_func", L.unlink_func, ls, ms)):
        x = x.reshape(shape)
        keep = x.copy()
        got, err = guarded(lambda: np.asarray(f(x), float))
        if err or got.shape != x.shape or not (np.abs(got.ravel() - e) <= 1e-9 * np.maximum(1e-3, np.abs(e))).all():
            bad.append(mism("%s: %s of %s" % (case["kind"], what, x.ravel().tolist()), err or got.ravel().tolist(), e.tolist()))
        elif got is x or np.shares_memory(got, x):
            bad.append(mism("%s: %s returns the array it was given" % (case["kind"], what)))
        if not np.array_equal(x, keep):
            bad.append(mism("%s: %s changed its argument" % (case["kind"], what)))
    got, err = guarded(lambda: bool(L.is_in_range(ms)))
    if err or not got:
        bad.append(mism("%s: is_in_range of means %s" % (case["kind"], ms.tolist()), err or got, True))
    return bad


def c38(ctx):
    inv = ["Inverse", "Supported", "Rises", "Emit"]
    cases = []
    for kind in sorted(LINKS):
        kw = dict(Kind=kind, Steps={-3, -1, 2}, Bound=10, MaxLen=ctx.pick(5, 7), Classes=set(CLASS), MaxClasses=ctx.pick(3, 4))
        cases += ctx.tlc("Links", kind + ", exhaustive", consts=kw, invariants=inv).cases
        cases += ctx.tlc("Links", kind + ", long", consts=dict(kw, Steps={-7, -4, -2, -1, 0, 1, 3, 5, 8}, Bound=14, MaxLen=14, MaxClasses=6), simulate=ctx.pick(60, 1000), depth=16, invariants=inv).cases
    seed = ctx.seed
    ctx.replay(lambda c: replay_link(c, seed), cases, "values linked")
