"""C29: quantile-parameterised distributions."""
import os

import numpy as np
import pandas as pd
import sklearn.base
from scipy.stats import logistic, norm

from cyclic_boosting import quantile_matching as qm
from smooth import mism, rng_of
from vlib import VERIF, guarded

LEVELS = np.array([0.003, 0.02, 0.07, 0.15, 0.3, 0.42, 0.5, 0.58, 0.7, 0.85, 0.93, 0.98, 0.997])
OPEN = "upper quantile of QPD_RegressorChain with bound S is not scaled back"


def builders(kind):
    """name -> (function of alpha, triplet -> distribution, internal scale)"""
    out = {}
    for version in ("normal", "logistic"):
        if kind == "S":
            out["J_QPD_S " + version] = lambda a, x, v=version: qm.J_QPD_S(a, x["low"], x["med"], x["high"], x["l"], version=v)
        if kind == "B":
            out["J_QPD_B " + version] = lambda a, x, v=version: qm.J_QPD_B(a, x["low"], x["med"], x["high"], x["l"], x["u"], version=v)
    for version, shape in (("normal", 0), ("logistic", 0), ("sinhlogistic", 0), ("sinhlogistic", 1.5), ("sinhlogistic", -1.0)):
        name = "extended %s %s %g" % (kind, version, shape)
        if kind == "U":
            out[name] = lambda a, x, v=version, s=shape: qm.J_QPD_extended_U(a, x["low"], x["med"], x["high"], version=v, shape=s)
        if kind == "S":
            out[name] = lambda a, x, v=version, s=shape: qm.J_QPD_extended_S(a, x["low"], x["med"], x["high"], x["l"], version=v, shape=s)
        if kind == "B":
            out[name] = lambda a, x, v=version, s=shape: qm.J_QPD_extended_B(a, x["low"], x["med"], x["high"], x["l"], x["u"], version=v, shape=s)
    return out


def inside(kind, x, v):
    """values far enough from the bounds to be told apart from them"""
    if kind == "U":
        return np.abs(v) < 1e8
    e = 1e-6 * (x["u"] - x["l"])
    ok = (v > x["l"] + e) & (v < 1e8)
    return ok & (v < x["u"] - e) if kind == "B" else ok


def internal(kind, x, v):
    if kind == "U":
        return v
    return np.log(v - x["l"]) if kind == "S" else np.log((v - x["l"]) / (x["u"] - v))


def replay_triplet(case, seed):
    kind, alpha = case["kind"], case["alpha"] / 20.0
    # seen through a factor, so that triplets are not integers only
    f = rng_of(case, seed).choice([1.0, 0.1, 0.37, 25.0])
    x = {k: v * f for k, v in case["t"].items()}
    z = {k: v * f for k, v in case["now"].items()}
    bad = []
    for name, build in builders(kind).items():
        dists = []
        for tr in (x, z):
            d, err = guarded(lambda: build(alpha, tr))
            if err:
                bad.append(mism(name, err, triplet=tr))
                break
            p, err = guarded(lambda: np.array([float(d.ppf(q)) for q in (alpha, 0.5, 1 - alpha)]))
            e = np.array([tr["low"], tr["med"], tr["high"]])
            width = e[2] - e[0]
            if err or not (np.abs(p - e) <= 1e-6 * width + 1e-9 * np.abs(e)).all():
                bad.append(mism(name + ": values at the three levels", err or p.tolist(), e.tolist(), alpha=alpha))
                break
            v, err = guarded(lambda: np.asarray(d.ppf(LEVELS), float).ravel())
            if err or v.shape != LEVELS.shape or np.isnan(v).any():
                bad.append(mism(name + ": quantile function", err or v.tolist(), "numbers", triplet=tr))
                break
            if not (v[1:] + 1e-12 * np.abs(v[1:]) >= v[:-1]).all():
                bad.append(mism(name + ": quantile function", v.tolist(), "non-decreasing", triplet=tr))
            eps = 1e-12 * (abs(tr["l"]) + abs(tr["u"]))
            if kind != "U" and not (v >= tr["l"] - eps).all() or kind == "B" and not (v <= tr["u"] + eps).all():
                bad.append(mism(name + ": values within the bounds", v.tolist(), [tr["l"], tr["u"]]))
            ok = inside(kind, tr, v)
            c, err = guarded(lambda: np.asarray(d.cdf(v[ok]), float).ravel())
            if err or not (np.abs(c - LEVELS[ok]) < 1e-6).all():
                bad.append(mism(name + ": cdf of ppf", err or c.tolist(), LEVELS[ok].tolist(), triplet=tr))
            one, err = guarded(lambda: np.array([float(d.cdf(q)) for q in e]))
            if err or not (np.abs(one - [alpha, 0.5, 1 - alpha]) < 1e-6).all():
                bad.append(mism(name + ": cdf of the three values", err or one.tolist(), [alpha, 0.5, 1 - alpha]))
            dists.append(v)
        if len(dists) < 2 or bad:
            break
        # the distribution of the image is the image of the distribution
        v = np.clip(dists[0], -1e300, 1e300)  # heavy tails exceed the range of floats
        for m, a in case["moves"]:
            v = v * a if m == "stretch" else v + a * f if m == "shift" else -v[::-1]
        ok = inside(kind, z, v) & inside(kind, z, dists[1])
        if not (np.abs(v[ok] - dists[1][ok]) <= 1e-6 * (np.abs(v[ok]) + z["high"] - z["low"])).all():
            bad.append(mism(name + ": quantiles after " + str(case["moves"]), dists[1].tolist(), v.tolist()))
        # skewed to the same side everywhere, on the scale on which the skewness is decided
        if "normal" in name and kind == "B":
            continue  # decided on the log-odds scale
        v = dists[0]
        ok = inside(kind, x, v) & inside(kind, x, v[::-1])
        s = internal(kind, x, np.where(ok, v, x["med"])) - internal(kind, x, x["med"])
        s = s + s[::-1]
        scale = internal(kind, x, x["high"]) - internal(kind, x, x["low"])
        if ((s * case["skew"] < -1e-7 * scale) | ((case["skew"] == 0) & (np.abs(s) > 1e-7 * scale * np.maximum(1, np.abs(s))))).any():
            bad.append(mism(name + ": side of the skewness", s.tolist(), case["skew"], triplet=x))
    return bad[:4]


def replay_arrays(cases, seed):
    """distributions of many triplets at once are the single ones"""
    r = rng_of(cases[0], seed)
    kind, alpha = cases[0]["kind"], cases[0]["alpha"] / 20.0
    l, u = cases[0]["t"]["l"], cases[0]["t"]["u"]
    tr = [c["t"] for c in cases if c["t"]["l"] == l and c["t"]["u"] == u or kind == "S" and c["t"]["l"] == l]
    col = {k: np.array([float(x[k]) for x in tr]) for k in ("low", "med", "high")}
    both = {k: b for k, b in builders(kind).items() if k.startswith("J_QPD")}
    bad = []
    for name, build in both.items():
        d, err = guarded(lambda: build(alpha, dict(col, l=l, u=u)))
        if err:
            return [mism(name + " of arrays", err)]
        single = [build(alpha, dict(x, l=l, u=u)) for x in tr]
        e = np.array([np.asarray(s.ppf(LEVELS), float).ravel() for s in single]).T
        p, err = guarded(lambda: np.asarray(d.ppf(LEVELS), float).reshape(e.shape))
        if err or not np.allclose(p, e, rtol=1e-9, atol=1e-12):
            bad.append(mism(name + ": quantiles of several triplets", err or p.tolist(), e.tolist()))
        q = np.array([r.choice(list(LEVELS)) for _ in tr])
        e = np.array([float(s.ppf(x)) for s, x in zip(single, q)])
        p, err = guarded(lambda: np.asarray(d.ppf(q, inner=True), float).ravel())
        if err or not np.allclose(p, e, rtol=1e-9, atol=1e-12):
            bad.append(mism(name + ": one quantile of each triplet", err or p.tolist(), e.tolist()))
        v = np.array([float(x["med"]) * 0.6 + float(x["high"]) * 0.4 for x in tr])
        e = np.array([float(s.cdf(x)) for s, x in zip(single, v)])
        p, err = guarded(lambda: np.asarray(d.cdf(v, inner=True), float).ravel())
        if err or not np.allclose(p, e, rtol=1e-9, atol=1e-12):
            bad.append(mism(name + ": one probability of each triplet", err or p.tolist(), e.tolist()))
        e = np.array([np.asarray(s.cdf(v), float).ravel() for s in single]).T
        p, err = guarded(lambda: np.asarray(d.cdf(v), float).reshape(e.shape))
        if err or not np.allclose(p, e, rtol=1e-9, atol=1e-12):
            bad.append(mism(name + ": probabilities of several triplets", err or p.tolist(), e.tolist()))
    return bad


class LowerMedian(sklearn.base.BaseEstimator):
    """lower median of the targets by group, raised a little on request"""

    def __init__(self, raised=0.0):
        self.raised = raised

    def fit(self, X, y):
        y = np.asarray(y, float)
        g = np.asarray(X["g"])
        self.value_ = {}
        for k in sorted(set(g)):
            v = np.sort(y[g == k])
            self.value_[k] = v[(len(v) - 1) // 2] + self.raised
        return self

    def predict(self, X):
        return np.array([self.value_[k] for k in X["g"]])


def replay_order(case, seed):
    r = rng_of(case, seed)
    f, alpha = r.choice([1.0, 0.1, 0.37, 25.0]), r.choice([0.05, 0.1, 0.2])
    cols = np.array(case["triplets"], float).T * f
    single = len(case["triplets"]) == 1
    bad = []
    for kind in ("S", "B", "U"):
        x = {"l": 0.0, "u": 9.0 * f}
        for array in ((True, False) if single else (True,)):
            for name, build in builders(kind).items():
                if array and name.startswith("extended"):
                    continue
                x.update(zip(("low", "med", "high"), cols if array else cols[:, 0].tolist()))
                _, err = guarded(lambda: build(alpha, x))
                if bool(err) != (case["verdict"] == "refused") or err and not err.startswith("ValueError"):
                    bad.append(mism(name + ": triplets " + ("in an array" if array else "alone"), err or "accepted", case["verdict"], triplets=case["triplets"]))
    return bad[:4]


def replay_chain(case, seed):
    r = rng_of(case, seed)
    X = pd.DataFrame({"g": [x["g"] for x in case["rows"]]}, index=r.choice([None, list(range(5, 5 + len(case["rows"])))]))
    y = np.array([float(x["y"]) for x in case["rows"]])
    out = {o["g"]: o for o in case["out"]}
    bad = []
    for bound in ("S", "B"):
        chain = qm.QPD_RegressorChain(LowerMedian(1e-8), LowerMedian(), LowerMedian(), bound, l=case["l"], u=case["u"])
        _, err = guarded(lambda: chain.fit(X, y))
        if err:
            bad.append(mism("training of a chain with bound " + bound, err))
            continue
        P = pd.DataFrame({"g": sorted(out) * 2})
        res, err = guarded(lambda: chain.predict(P))
        if err:
            bad.append(mism("prediction of a chain with bound " + bound, err))
            continue
        low, med, high, d = res
        for i, g in enumerate(P["g"]):
            o = out[g]
            got = [float(low[i]), float(med[i]), float(high[i])]
            want = [o["low"], o["med"], o["high"]]
            tol = 1e-6 * (case["u"] - case["l"])
            if abs(got[0] - want[0]) > tol or abs(got[1] - want[1]) > tol:
                bad.append(mism("lower value and median of a chain with bound " + bound, got[:2], want[:2]))
            elif abs(got[2] - want[2]) > tol:
                plain = want[1] + (want[2] - want[1]) / (want[1] - want[0])
                known = bound == "S" and abs(got[2] - plain) < tol
                bad.append(mism("upper value of a chain with bound " + bound, got[2], want[2], known=known))
        if not ((low < med) & (med < high) & (low > case["l"])).all() or bound == "B" and not (high < case["u"]).all():
            bad.append(mism("order of the three values", [list(low), list(med), list(high)], "within the bounds and increasing"))
            continue
        for q, v in ((0.25, low), (0.5, med), (0.75, high)):
            p, err = guarded(lambda: np.asarray(d.ppf(q), float).ravel())
            if err or not np.allclose(p, v, rtol=1e-7, atol=1e-9):
                bad.append(mism("distribution of a chain with bound %s at %g" % (bound, q), err or p.tolist(), list(v)))
    return bad[:6]


def replay_gaussian(case, seed):
    """interpolation of quantiles of a normal distribution, and splines"""
    t = case["t"]
    mu, sigma = float(t["med"]), float(t["high"] - t["low"])
    import scipy.stats

    levels = np.array(sorted({case["alpha"] / 20.0, 1 - case["alpha"] / 20.0, 0.5, 0.05, 0.35, 0.65, 0.95}))
    values = scipy.stats.norm(mu, sigma).ppf(levels)
    e = scipy.stats.norm(mu, sigma).ppf(LEVELS)
    bad = []
    for mode, f in (("ppf", lambda d: d(LEVELS)), ("dist", lambda d: d.ppf(LEVELS)), ("cdf", lambda d: np.asarray(d(e)))):
        d, err = guarded(lambda: qm.quantile_fit_gaussian(levels, values, mode=mode))
        p = None if err else np.asarray(f(d), float)
        want = LEVELS if mode == "cdf" else e
        if err or not np.allclose(p, want, rtol=1e-4, atol=1e-4 * (1 if mode == "cdf" else sigma)):
            bad.append(mism("normal distribution through its quantiles, mode " + mode, err or p.tolist(), want.tolist()))
    s, err = guarded(lambda: qm.quantile_fit_spline(levels, values))
    if err or not np.allclose(s(levels), values, rtol=1e-9, atol=1e-9 * sigma):
        bad.append(mism("spline through the quantiles", err or np.asarray(s(levels)).tolist(), values.tolist()))
    elif not np.allclose(s(np.array([-0.5, 0.0, 1.0, 1.5])), s(np.array([0.0, 0.0, 1.0, 1.0]))):
        bad.append(mism("spline outside of the levels", np.asarray(s(np.array([-0.5, 0.0, 1.0, 1.5]))).tolist(), "values of the ends"))
    return bad


def c29(ctx):
    inv = ["StaysOrdered", "KeepsSkew", "CentredIsSymmetric", "Emit"]
    seed = ctx.seed
    kw = dict(Values=set(range(0, 13)), Alphas={1, 2, 5, 8}, Stretches={2, 3, 7}, Shifts={-20, 1, 15}, MaxMoves=3, Random=True)
    small = dict(kw, Values=set(range(0, 7)), Alphas={2, 5}, Stretches={3}, Shifts={-4}, MaxMoves=1, Random=False)
    with open(os.path.join(VERIF, "known-findings.txt")) as fh:
        if any(line.startswith("open: property=C29") and OPEN in line for line in fh):
            ctx.known_rules.append((lambda m, c: bool(m.get("known")), OPEN))
    groups = []
    for kind in ("U", "S", "B"):
        cases = ctx.tlc("Qpd", "triplets, " + kind, consts=dict(kw, Kind=kind), simulate=ctx.pick(500, 6000), depth=8, invariants=inv).cases
        cases += ctx.tlc("Qpd", "small triplets, exhaustive, " + kind, consts=dict(small, Kind=kind), invariants=inv).cases
        ctx.replay(lambda c: replay_triplet(c, seed), cases, "triplets " + kind)
        if kind != "U":
            groups += [cases[i : i + 12] for i in range(0, len(cases), 12)]
        ctx.replay(lambda c: replay_gaussian(c, seed), cases[:: ctx.pick(10, 5)], "interpolations " + kind)
    cases = ctx.tlc("QpdOrder", "order of triplets", consts=dict(Values={1, 2, 4}, MaxTriplets=2), invariants=["RefusedIffOneFalls", "AcceptedIffAllRise", "Emit"], workers=4).cases
    cases += ctx.tlc("QpdOrder", "order of more triplets", consts=dict(Values={1, 2, 3, 5, 8}, MaxTriplets=5), simulate=ctx.pick(400, 4000), depth=7, invariants=["RefusedIffOneFalls", "AcceptedIffAllRise", "Emit"]).cases
    ctx.replay(lambda c: replay_order(c, seed), cases, "order of triplets")
    ctx.replay(lambda c: replay_arrays(c["cases"], seed), [{"cases": g} for g in groups], "arrays of triplets")
    inv = ["InOrder", "Quarter", "Emit"]
    kw = dict(Groups={0, 1}, Targets=set(range(1, 12)), Lower=0, Upper=12, MinRows=8, MaxRows=16, Random=True)
    cases = ctx.tlc("Chain", "chains", consts=kw, simulate=ctx.pick(400, 4000), depth=24, invariants=inv).cases
    cases += ctx.tlc("Chain", "chains with negative bound", consts=dict(kw, Targets=set(range(-7, 8)), Lower=-8, Upper=9), simulate=ctx.pick(400, 4000), depth=24, invariants=inv).cases
    cases += ctx.tlc("Chain", "small chains, exhaustive", consts=dict(kw, Groups={0}, Targets={1, 2, 4, 5}, Upper=7, MinRows=3, MaxRows=5, Random=False), invariants=inv).cases
    ctx.replay(lambda c: replay_chain(c, seed), cases, "chains")


# ---------------------------------------------------------------- C42
LN2 = float(np.log(2.0))
fl = lambda q: q[0] / q[1]


def sinhlog(shape):
    """value at log odds t of the logistic base distribution of a shape, and its inverse"""
    if shape > 0:
        return (lambda t: np.arcsinh(shape * t / 4) / shape), (lambda x: 4 * np.sinh(shape * x) / shape)
    if shape < 0:
        return (lambda t: np.sinh(shape * t / 4) / shape), (lambda x: 4 * np.arcsinh(shape * x) / shape)
    return (lambda t: t / 4), (lambda x: 4 * x)


def level(version, shape, alpha, j):
    """the probability j times as far out as the given upper level"""
    if version == "normal":
        return float(norm.cdf(-j * norm.ppf(alpha)))
    there, back = sinhlog(shape if version == "sinhlogistic" else 0)
    t = back(j * there(np.log((1 - alpha) / alpha)))
    return float(1 / (1 + np.exp(-t)))


def near(a, b, tol):
    return bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol))


def replay_johnson(case, seed):
    r = rng_of(case, seed)
    alpha = r.choice([0.05, 0.1, 0.2, 0.25, 0.4])
    L, B, H = float(case["low"]), fl(case["median"]), float(case["low"] + case["width"])
    z = {j: fl(v) for j, v in case["path"]}
    bad = []

    def judge(name, d, levels, values, scale):
        keep = [i for i, (p, v) in enumerate(zip(levels, values)) if 1e-7 < p < 1 - 1e-7 and np.isfinite(v) and abs(v) < 1e9]
        for i in keep:
            v, err = guarded(lambda: float(d.ppf(levels[i])))
            if err or not near(v, values[i], 1e-6 * (scale + abs(values[i]))):
                bad.append(mism("%s: value at level %g" % (name, levels[i]), err or v, values[i], alpha=alpha))
                return
            c, err = guarded(lambda: float(d.cdf(values[i])))
            # levels far out are only as good as the rounding of the value
            if err or not near(c, levels[i], 1e-6):
                bad.append(mism("%s: probability of %g" % (name, values[i]), err or c, levels[i], alpha=alpha))
                return

    js = sorted(z)
    l, span = r.choice([(0.0, 1.0), (-2.0, 5.0), (10.0, 100.0)])
    for version, shape in (("normal", 0), ("logistic", 0), ("sinhlogistic", 0), ("sinhlogistic", 1.5), ("sinhlogistic", -2.0)):
        name = "%s %g" % (version, shape)
        lev = [level(version, shape, alpha, j) for j in js]
        ext = dict(version=version, shape=shape)
        f = r.choice([1.0, 0.1, 30.0])
        d, err = guarded(lambda: qm.J_QPD_extended_U(alpha, L * f, B * f, H * f, **ext))
        if err:
            return [mism("extended U " + name, err)]
        judge("extended U " + name, d, lev, [z[j] * f for j in js], f * (H - L))
        # one bound: the same on the scale of logarithms, here to base two
        g = r.choice([1.0, 0.5]) * LN2
        phys = lambda v: l + span * np.exp(np.clip(g * v, -700, 700))
        d, err = guarded(lambda: qm.J_QPD_extended_S(alpha, phys(L), phys(B), phys(H), l, **ext))
        if err:
            return [mism("extended S " + name, err)]
        judge("extended S " + name, d, lev, [phys(z[j]) if g * z[j] > -10 else np.nan for j in js], span * 1e-3)
        # two bounds: log odds
        phys = lambda v: l + span / (1 + np.exp(-np.clip(g * v, -700, 700)))
        d, err = guarded(lambda: qm.J_QPD_extended_B(alpha, phys(L), phys(B), phys(H), l, l + span, **ext))
        if err:
            return [mism("extended B " + name, err)]
        judge("extended B " + name, d, lev, [phys(z[j]) if abs(g * z[j]) < 10 else np.nan for j in js], span * 1e-3)
        if version == "sinhlogistic":
            continue
        # the original ones: probit (or logit) scale between bounds ...
        dist = norm if version == "normal" else logistic
        h = 2.0 / max(abs(L), abs(H))
        phys = lambda v: l + span * dist.cdf(h * v)
        d, err = guarded(lambda: qm.J_QPD_B(alpha, phys(L), phys(B), phys(H), l, l + span, version=version))
        if err:
            return [mism("J_QPD_B " + name, err)]
        judge("J_QPD_B " + name, d, lev, [phys(z[j]) if abs(h * z[j]) < 4 else np.nan for j in js], span * 1e-3)
        # ... and an inner arcsinh for one bound
        ch, sh, small = fl(case["ch"]), fl(case["sh"]), min(B - L, H - B)
        if case["side"] == "none":
            y = {j: B + j * (H - L) / 2 for j in js}
        else:
            n, at = (1, L) if case["side"] == "right" else (-1, H)
            y = {j: at + small * (j * ch + n * np.sqrt(1 + j * j * sh * sh)) for j in js}
        phys = lambda v: l + span * np.exp(np.clip(g * v, -700, 700))
        d, err = guarded(lambda: qm.J_QPD_S(alpha, phys(L), phys(B), phys(H), l, version=version))
        if err:
            return [mism("J_QPD_S " + name, err)]
        judge("J_QPD_S " + name, d, lev, [phys(y[j]) if g * y[j] > -10 else np.nan for j in js], span * 1e-3)
    return bad[:4] + base_distribution(case, alpha)[:3]


def base_distribution(case, alpha):
    bad = []
    m = case["m"]
    rows = case["base"]

    def judge(name, d, xs, ps, ds):
        for what, f, a, e in (("ppf", d.ppf, ps, xs), ("cdf", d.cdf, xs, ps), ("pdf", d.pdf, xs, ds)):
            a, e = np.array(a), np.array(e)
            ok = (np.array(ps) > 1e-9) & (np.array(ps) < 1 - 1e-9)
            got, err = guarded(lambda: np.asarray(f(a[ok]), float))
            if err or got.shape != e[ok].shape or not near(got, e[ok], 1e-6 * (1e-3 + np.abs(e[ok]))):
                bad.append(mism("%s %s" % (name, what), err or got.tolist(), e[ok].tolist()))

    if m == 0:
        shapes = {0: ([b["odds"] * LN2 / 4 for b in rows], [fl(b["p"]) for b in rows], [fl(b["density"]) for b in rows])}
    else:
        q = [1 / (1 + np.exp(-4 * fl(b["arg"]))) for b in rows]
        shapes = {-4 * m: ([fl(b["x"]) for b in rows], [fl(b["p"]) for b in rows], [fl(b["density"]) for b in rows]),
                  4 * m: ([b["odds"] * LN2 / (4 * m) for b in rows], q, [4 * p * (1 - p) * fl(b["stretch"]) for p, b in zip(q, rows)])}
    for shape, (xs, ps, ds) in shapes.items():
        judge("base distribution of shape %d" % shape, qm.SinhLogistic(shape), xs, ps, ds)
        w = sinhlog(shape)[0](np.log((1 - alpha) / alpha))
        judge("scaled base distribution of shape %d" % shape, qm.BaseDist(qm.SinhLogistic(shape), alpha), np.array(xs) / w, ps, np.array(ds) * w)
    # the scales of the internal variable, one and two bounds
    z = np.array([b["odds"] * LN2 for b in rows])
    odds = np.array([fl(b["p"]) / (1 - fl(b["p"])) for b in rows])
    lo, up = -3.0, 5.0
    for name, there, back, v in (
        ("lower bound", lambda v: qm.transform_from_semibound_lower(v, lo), lambda t: qm.back_transform_in_semibound_lower(t, lo), lo + odds),
        ("upper bound", lambda v: qm.transform_from_semibound_upper(v, up), lambda t: qm.back_transform_in_semibound_upper(t, up), up - odds),
        ("two bounds", lambda v: qm.transform_from_bounds(v, lo, up), lambda t: qm.back_transform_in_bounds(t, lo, up), lo + (up - lo) * odds / (1 + odds)),
    ):
        a, err = guarded(lambda: np.asarray(there(v), float))
        b, err2 = guarded(lambda: np.asarray(back(z), float))
        if err or err2 or not near(a, z, 1e-9) or not near(b, v, 1e-9):
            bad.append(mism("scale with " + name, err or err2 or [a.tolist(), b.tolist()], [z.tolist(), v.tolist()]))
    return bad


def replay_shape(case, seed):
    """the shape of quantiles of a distribution of known shape is found again"""
    r = rng_of(case, seed)
    L, B, H = 0.0, (fl(case["median"]) - case["low"]) / case["width"], 1.0
    bound = r.choice("USB")
    shape = r.choice([0.5, 1.0, 1.5, 3.0] + [-1.0, -2.0] * (bound == "B"))  # heavy tails dominate the distance without bounds
    p = (np.arange(3000) + 0.5) / 3000
    lo, up = r.choice([(0.0, 10.0), (-4.0, 3.0)])
    alpha = r.choice([0.1, 0.2])
    if bound == "U":
        d = qm.J_QPD_extended_U(alpha, L, B, H, shape=shape)
    elif bound == "S":
        d = qm.J_QPD_extended_S(alpha, lo + 1, lo + np.exp(0.7 * B), lo + np.exp(0.7), lo, shape=shape)
    else:
        e = lambda v: lo + (up - lo) / (1 + np.exp(-v))
        d = qm.J_QPD_extended_B(alpha, e(L), e(B), e(H), lo, up, shape=shape)
    y = np.asarray(d.ppf(p), float)
    if not np.isfinite(y).all():
        return {"skip": "tails_out_of_range"}
    got, err = guarded(lambda: float(qm.fit_sinhlogistic_shape(alpha, lo, up, bound, np.array(sorted(y, key=lambda _: r.random())))))
    if err or abs(got - shape) > 0.25:
        return [mism("shape found for %s" % bound, err or got, shape, alpha=alpha)]
    _, err = guarded(lambda: qm.fit_sinhlogistic_shape(alpha, lo, up, r.choice(["X", "", "s"]), y))
    if not err:
        return [mism("unknown kind of bound", "accepted", "refused")]
    return []


def c42(ctx):
    inv = ["Through", "Rising", "LongerSide", "Mirror", "BaseOdd", "BaseRising", "BaseEven", "Emit"]
    cases = ctx.tlc("Johnson", "triplets and levels", invariants=inv, workers=4, consts=dict(
        Lows=ctx.pick({-3, 0, 2}, {-5, -3, -1, 0, 2, 7}), Widths=ctx.pick({1, 2, 4}, {1, 2, 3, 4, 6}), Tails={1, 2, 3}, Units=3, Shapes={0, 1, 2})).cases
    ctx.replay(lambda c: replay_johnson(c, ctx.seed), cases, "distributions")
    ctx.replay(lambda c: replay_shape(c, ctx.seed), [c for c in cases if c["low"] == 0 and c["m"] < 2 and fl(c["ch"]) < 2][:ctx.pick(54, 200)], "shapes_fitted")
