"""C19: estimates of bins from sufficient statistics."""
import math

import numpy as np
import pandas as pd
import scipy.special
import scipy.stats

import cyclic_boosting as cb
from cyclic_boosting import common_smoothers, flags, learning_rate
from smooth import mism, rng_of
from vlib import guarded

FAM = {
    "poisson": (cb.CBPoissonRegressor, "log"),
    "nbinom": (cb.CBNBinomRegressor, "log"),
    "location": (cb.CBLocationRegressor, "id"),
    "locpoisson": (cb.CBLocPoissonRegressor, "id"),
    "classifier": (cb.CBClassifier, "logit"),
    "gbs": (cb.CBGBSRegressor, "id"),
}


def recording(cls):
    class Recording(cls):
        seen = None

        def calc_parameters(self, feature, y, pred, prefit_data):
            f, u = super().calc_parameters(feature, y, pred, prefit_data)
            self.seen.append((np.array(f, float), np.array(u, float), feature.n_bins))
            return f, u

    # keyword arguments are looked up in the signature of the class
    Recording.__name__ = cls.__name__
    Recording.__init__ = cls.__init__
    return Recording


REC = {k: recording(c) for k, (c, _) in FAM.items()}


def link(kind, v):
    v = np.asarray(v, float)
    return np.log(v) if kind == "log" else np.log(v / (1 - v)) if kind == "logit" else v


def unlink(kind, v):
    return math.exp(v) if kind == "log" else 1 / (1 + math.exp(-v)) if kind == "logit" else float(v)


class Closed:
    """closed form of a bin from the accumulators of the specification"""

    def __init__(self, fam, stats, scale, pred, par):
        # scale: target = scale * integer target; pred: prediction index -> prediction of the model
        self.fam, self.par = fam, par
        self.bins = {}
        for s in stats:
            a = s["s"]
            self.bins.setdefault(s["bin"], []).append(
                (pred[s["p"]], a["w"], scale * a["wy"], scale * scale * a["wyy"], a["ww"], scale * a["wwy"], scale * scale * a["wwyy"]))
        tot = [t for b in self.bins.values() for t in b]
        self.W = sum(t[1] for t in tot)
        mean = sum(t[2] for t in tot) / self.W
        self.var = max(0.0, sum(t[3] for t in tot) / self.W - mean * mean)

    def at(self, b):
        rows = self.bins.get(b, [])
        return getattr(self, self.fam)(rows)

    def gamma(self, rows, a, c):
        al = 2 + sum(wy / (a + c * p) for p, w, wy, *_ in rows)
        be = 1.67834 + sum(w * p / (a + c * p) for p, w, wy, *_ in rows)
        return math.log(scipy.stats.gamma.ppf(0.5, al) / be), math.sqrt(math.log1p(1 / al))

    def poisson(self, rows):
        return self.gamma(rows, 1.0, 0.0)

    def nbinom(self, rows):
        return self.gamma(rows, self.par["a"], self.par["c"])

    def location(self, rows):
        prior = self.var if self.var > 1e-9 else 1.0
        W = sum(r[1] for r in rows)
        res = max(0.0, sum(r[3] for r in rows) - sum(r[2] for r in rows) ** 2 / W) if W else 0.0
        v = (0.5 * prior + 0.5 * res) / (0.5 + 0.5 * W)
        num = sum(wy - w * p for p, w, wy, *_ in rows) / v
        den = W / v + 0.01
        return num / den, math.sqrt((sum(r[4] for r in rows) / v + 0.01) / den**2)

    def locpoisson(self, rows):
        g = math.sqrt(self.var)
        num = den = unc = 0.0
        for p, w, wy, _, ww, *_ in rows:
            p = max(p, 0.0)
            v = p if p > 0 else 1.0
            num += (wy - w * p) / v
            den += w / v
            unc += ww / v
        s, u = (num / den, unc / den) if den > 0 else (0.0, 0.0)
        u = u if u > 0 else g
        n = sum(r[1] for r in rows)
        return (n * s / u**2) / (n / u**2 + 1 / g**2), u

    def classifier(self, rows):
        al = 1.001 + sum(wy * (1 - p) for p, w, wy, *_ in rows)
        be = 1.001 + sum((w - wy) * p for p, w, wy, *_ in rows)
        sh = 0.4 * (al / (al + be) - 0.5)
        q = [link("logit", scipy.stats.beta.ppf(x - sh, al, be)) for x in (0.75, 0.25)]
        z = [scipy.stats.norm.ppf(x - sh) for x in (0.75, 0.25)]
        sig = (q[0] - q[1]) / (z[0] - z[1])
        return float(q[0] - sig * z[0]), float(sig)

    def gbs(self, rows):
        k = 1 + self.par["regalpha"]
        n = sum(wy - w * p for p, w, wy, *_ in rows)
        d = 1 + k * sum(r[1] for r in rows)
        nd = k * sum(wwy - ww * p for p, w, wy, wyy, ww, wwy, wwyy in rows)
        n2 = sum(wwyy - 2 * p * wwy + p * p * ww for p, w, wy, wyy, ww, wwy, wwyy in rows)
        d2 = 1 + k * k * sum(r[4] for r in rows)
        return n / d, math.sqrt(max(0.0, d * d * n2 - 2 * n * d * nd + n * n * d2)) / d**2


def near(a, b, tol=1e-6):
    return bool(np.isfinite(a)) and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Step:
    """one pass of training on rows of the specification"""

    def __init__(self, fam, rows, conf, r):
        cls, lk = FAM[fam]
        self.fam, self.lk, self.conf, self.rows = fam, lk, conf, rows
        c = conf
        n = len(rows)
        y = np.array([c["scale"] * q["y"] for q in rows])
        w = np.array([float(q["w"]) for q in rows])
        df = pd.DataFrame({"x": [np.nan if q["bin"] < 0 else float(q["bin"]) for q in rows], "w": w,
                           "pr": [c["priors"][q["p"]] for q in rows]})
        kw = dict(c["par"], feature_groups=["x"], feature_properties={"x": c["prop"]}, maximal_iterations=1, weight_column="w",
                  smoother_choice=common_smoothers.NoSmootherChoice(use_regression_type=False, use_normalization=False),
                  learn_rate=learning_rate.constant_learn_rate_one, aggregate=False)
        mean = float((w * y).sum() / w.sum())
        if fam == "gbs":
            base = {p: mean for p in c["priors"]}
        elif c["prior"]:
            kw["prior_prediction_column"] = "pr"
            mp = float((w * df["pr"]).sum() / w.sum())
            base = {p: unlink(lk, float(link(lk, v) + link(lk, mean + 0.001) - link(lk, mp))) for p, v in c["priors"].items()}
        else:
            base = {p: mean + 0.001 for p in c["priors"]}
        self.base = base
        est = REC[fam](**kw)
        est.seen = []
        order = list(range(n))
        r.shuffle(order)
        X = df.iloc[order].reset_index(drop=True)
        self.est, self.X = est, X
        _, self.err = guarded(lambda: est.fit(X, y[order]))
        if self.err and self.err.startswith("ConvergenceError") and est.seen:
            self.err = None  # a perfect base prediction; the first estimation is still there

    def contributions(self, bins):
        X = pd.DataFrame({"x": [np.nan if b < 0 else float(b) for b in bins], "w": 1.0, "pr": 1.0})
        return guarded(lambda: np.asarray(self.est.get_feature_contributions(X)["x"], float))


def config(case, seed, fams):
    r = rng_of(case, seed)
    fam = fams[r.randrange(len(fams))]
    lk = FAM[fam][1]
    par = {"nbinom": {"a": r.choice([1.0, 1.5, 0.5]), "c": r.choice([0.0, 0.3, 2.0])}, "gbs": {"regalpha": r.choice([0.0, 0.5, 3.0])}}.get(fam, {})
    if lk == "logit":
        pri = r.choice([[0.2, 0.5, 0.9], [0.01, 0.3, 0.6]])
    elif lk == "log":
        pri = r.choice([[0.5, 2.0, 7.0], [1.0, 1.5, 40.0]])
    else:
        pri = r.choice([[-2.0, 0.5, 3.0], [0.0, 1.0, 30.0]])
    scale = 1.0 if lk == "logit" else r.choice([1.0, 1.0, 0.25, 20.0])
    prop = r.choice([flags.IS_UNORDERED, flags.IS_ORDERED, flags.IS_CONTINUOUS]) | r.choice([flags.HAS_MISSING, flags.HAS_MISSING, flags.MISSING_NOT_LEARNED])
    return r, fam, dict(par=par, priors={i + 1: v for i, v in enumerate(pri)}, scale=scale, prop=prop, prior=fam != "gbs" and r.random() < 0.8)


def replay_estimation(case, seed, fams):
    r, fam, conf = config(case, seed, fams)
    rows, stats = case["rows"], case["stats"]
    ys = {q["y"] for q in rows if q["w"] > 0}
    if fam == "classifier" and ys == {1}:
        return {"skip": "all targets one"}
    if fam == "locpoisson" and len(ys) == 1:
        return {"skip": "no variation of the target"}
    bad = []
    what = "%s %s" % (fam, {k: v for k, v in conf.items() if k != "prop"})
    run = Step(fam, rows, conf, r)
    if run.err:
        return [mism("training", run.err, conf=what)]
    if len(run.est.seen) < 1:
        return [mism("number of estimations", len(run.est.seen), 1, conf=what)]
    f, u, nb = run.est.seen[0]
    closed = Closed(fam, stats, conf["scale"], run.base, conf["par"])
    top = max([q["bin"] for q in rows] + [-1])
    want = {}
    for b in list(range(top + 1)) + [-1]:
        want[b] = closed.at(b)
        k = b if b >= 0 else len(f) - 1
        n = sum(q["bin"] == b for q in rows)
        for name, got, exp in (("estimate", f[k], want[b][0]), ("uncertainty", u[k], want[b][1])):
            if not near(float(got), exp, 1e-5):
                bad.append(mism("%s of bin %d with %d rows" % (name, b, n), float(got), exp, conf=what))
    if bad:
        return bad
    if len(run.est.seen) == 1:
        # what predictions use: the estimate itself, for the location model about its weighted mean
        mnl = conf["prop"] & flags.MISSING_NOT_LEARNED == flags.MISSING_NOT_LEARNED
        bins = sorted(want)
        exp = {b: want[b][0] for b in bins}
        if mnl:
            exp[-1] = 0.0
        if fam == "location":
            wb = {b: sum(q["w"] for q in rows if q["bin"] == b) for b in bins if not (mnl and b == -1)}
            if sum(wb.values()) == 0:
                return bad
            m = sum(exp[b] * wb[b] for b in wb) / sum(wb.values())
            exp = {b: exp[b] - m if b in wb else exp[b] for b in bins}
        got, err = run.contributions(bins)
        if err:
            bad.append(mism("contributions", err, conf=what))
        else:
            for b, g in zip(bins, got):
                if b == -1 and not any(q["bin"] == -1 for q in rows):
                    continue
                if not near(float(g), unlink(run.lk, exp[b]), 1e-5):
                    bad.append(mism("contribution of bin %d" % b, float(g), unlink(run.lk, exp[b]), conf=what))
    if case["before"] and fam in ("poisson", "nbinom", "classifier", "gbs", "locpoisson"):
        b0 = case["before"][0]
        old = Step(fam, b0["rows"], conf, r)
        if old.err or not old.est.seen:
            return bad + [mism("training before targets moved", old.err, conf=what)]
        f0 = old.est.seen[0][0]
        local = fam not in ("locpoisson",)
        for b in list(range(top + 1)) + [-1]:
            k = b if b >= 0 else len(f) - 1
            d = float(f[k] - f0[k])
            sgn = 1 if b == b0["raised"] else -1 if b == b0["lowered"] else 0
            if sgn == 0 and local and not near(float(f[k]), float(f0[k]), 1e-9):
                bad.append(mism("estimate of bin %d after targets moved between other bins" % b, float(f[k]), float(f0[k]), conf=what))
            if sgn and local and d * sgn < -1e-9:
                bad.append(mism("estimate of bin %d after its target was %s" % (b, "raised" if sgn > 0 else "lowered"), float(f[k]), float(f0[k]), conf=what))
    return bad


def c19(ctx):
    inv = ["BagSums", "Variances", "MoveKeeps", "Emit"]
    seed = ctx.seed

    def gen(label, fams, sim, **k):
        kw = dict(NBins=3, Bins={-1, 0, 1, 2}, Weights={0, 1, 2, 5}, Preds={1, 2, 3}, MinRows=3, MaxRows=9, Moves=True, Step=1, Random=True)
        kw.update(k)
        if sim:
            cs = ctx.tlc("Estimation", label, consts=kw, simulate=sim, depth=20, invariants=inv, spec="Spec", properties=[]).cases
        else:
            cs = ctx.tlc("Estimation", label, consts=kw, invariants=inv, spec="Spec", properties=["Local"]).cases
        ctx.replay(lambda c: replay_estimation(c, seed, fams), cs, label)

    counts = ["poisson", "nbinom"]
    sums = ["location", "locpoisson", "gbs"]
    gen("every table of two rows, counts", counts, None, NBins=2, Bins={-1, 0, 1}, Targets={0, 1, 3}, Weights={1, 2}, Preds={1, 2}, MinRows=1, MaxRows=ctx.pick(2, 2), Moves=False, Random=False)
    gen("every table of two rows, classes", ["classifier"], None, NBins=2, Bins={-1, 0, 1}, Targets={0, 1}, Weights={1, 2}, Preds={1, 2}, MinRows=1, MaxRows=2, Random=False)
    gen("counts", counts, ctx.pick(1200, 20000), Targets={0, 1, 2, 3, 5, 9})
    gen("sums", sums, ctx.pick(1500, 20000), Targets={-3, -1, 0, 1, 2, 6})
    gen("classes", ["classifier"], ctx.pick(800, 8000), Targets={0, 1})
    gen("larger tables", counts + sums, ctx.pick(300, 3000), Targets={0, 1, 2, 7}, NBins=5, Bins={-1, 0, 1, 2, 4}, MinRows=12, MaxRows=25)
