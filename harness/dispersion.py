"""C32: grid search for the dispersion of negative binomial counts."""
import numpy as np
import pandas as pd
import scipy.stats

from cyclic_boosting import common_smoothers, flags
from cyclic_boosting.nbinom import CBNBinomC
from smooth import mism, rng_of
from vlib import guarded

PENALTY = {0: 0.0, 1: 0.2, 2: 3.0, 9: 200.0}


class Recorder(CBNBinomC):
    seen = None

    def calc_parameters(self, feature, y, pred, prefit_data):
        offered = np.array(pred.predict_link(), float)
        f, u = super().calc_parameters(feature, y, pred, prefit_data)
        self.seen.append((tuple(feature.feature_group), offered, np.array(f, float), np.array(u, float)))
        return f, u


Recorder.__name__ = "CBNBinomC"
Recorder.__init__ = CBNBinomC.__init__


def logit(p):
    return np.log(p / (1 - p))


def unlink(v):
    return 1 / (1 + np.exp(-v))


def row_losses(y, mu, c, gamma):
    """negative log-likelihood of rows, directly from the distribution with variance mu + c mu^2"""
    c = np.maximum(c, 1e-8 / mu)  # the library stops at a success probability of 1 - 1e-8
    return -scipy.stats.nbinom.logpmf(y, 1 / c, 1 / (1 + c * mu)) + gamma * np.abs(c)


def table(case):
    n = len(case["rows"][0]["bin"])
    cols = ["f%d" % (i + 1) for i in range(n)]
    X = pd.DataFrame({c: [np.nan if r["bin"][i] < 0 else float(r["bin"][i]) for r in case["rows"]] for i, c in enumerate(cols)})
    X["mu"] = [r["mu"] / 2.0 for r in case["rows"]]
    y = np.array([float(r["y"]) for r in case["rows"]])
    return X, y, cols


def prior_of(case, r):
    """prior predictions by row, missing and unusable ones included, and the start on the logit scale"""
    p = np.array([r.choice([0.2, 0.5, 0.7, 0.05, np.nan, 0.0, 1.0]) for _ in case["rows"]])
    with np.errstate(all="ignore"):
        start = logit(p)
    return p, np.where(np.isfinite(start), start, 0.0)


def model(case, cols, gamma, passes=None, **kw):
    c = case["cfg"]
    est = Recorder("mu", feature_groups=cols, feature_properties={k: flags.IS_UNORDERED | flags.HAS_MISSING for k in cols},
                   smoother_choice=common_smoothers.NoSmootherChoice(use_regression_type=False, use_normalization=False),
                   maximal_iterations=passes or c["passes"], minimal_loss_change=-1e9, minimal_factor_change=-1.0,
                   n_steps=c["size"], gamma=gamma, **kw)
    est.seen = []
    return est


def replay_search(case, seed):
    r = rng_of(case, seed)
    c = case["cfg"]
    X, y, cols = table(case)
    mu = X["mu"].values
    gamma = PENALTY[c["penalty"]]
    kw = {}
    start = np.zeros(len(y))
    if c["prior"]:
        X["p"], start = prior_of(case, r)
        kw["prior_prediction_column"] = "p"
    if r.random() < 0.5:
        y = y.astype(int)
    est = model(case, cols, gamma, bayes=c["bayes"], **kw)
    fitted, err = guarded(lambda: est.fit(X.copy(), y))
    if err and not err.startswith("ConvergenceError"):
        return [mism("training", err)]
    bad = []
    if len(est.seen) > len(case["steps"]) or (not err and len(est.seen) < len(case["steps"])):
        bad.append(mism("number of estimation steps", len(est.seen), len(case["steps"])))
    link = start.copy()
    total = {f: {} for f in cols}
    for (group, offered, f, u), step in zip(est.seen, case["steps"]):
        col = cols[step["feature"] - 1]
        if group != (col,):
            bad.append(mism("feature of step", group, col, step=step["pass"]))
            break
        if np.max(np.abs(offered - link)) > 1e-9:
            bad.append(mism("log-odds offered in pass %d to %s" % (step["pass"], col), offered.tolist(), link.tolist()))
            break
        exps = [a / b for a, b in case["grids"][step["pass"] - 1]]
        grid = np.array([-(10.0**e) for e in exps[::-1]] + [0.0] + [10.0**e for e in exps])
        half = len(exps)
        where = np.array([row["bin"][step["feature"] - 1] for row in case["rows"]])
        forced = {z["bin"]: z["to"] for z in step["forced"]}
        for b in sorted(forced):
            at = len(f) - 1 if b < 0 else b
            if at >= len(f) or (b >= 0 and at >= len(f) - 1):
                continue  # above the largest bin seen in training
            m = where == b
            losses = np.array([row_losses(y[m], mu[m], unlink(link[m] + g), gamma).sum() for g in grid])
            name = "step of bin %d of %s in pass %d" % (b, col, step["pass"])
            tol = 1e-5 * max(1.0, m.sum())
            if c["bayes"] and m.any():
                w = np.exp(-(losses - losses.min()))
                e = float((w * grid).sum() / w.sum())
                if not abs(f[at] - e) < 1e-4 * max(1.0, abs(e)):
                    bad.append(mism(name + " (mean)", f[at], e))
            else:
                i = int(np.argmin(np.abs(grid - f[at])))
                if not abs(grid[i] - f[at]) < 1e-9 * max(1.0, abs(grid[i])):
                    bad.append(mism(name + " is no candidate", f[at], grid.tolist()))
                elif losses[i] > losses.min() + tol:
                    bad.append(mism(name, f[at], float(grid[int(np.argmin(losses))]), loss=losses[i], best=losses.min()))
                elif forced[b]:
                    k = forced[b][0] + half
                    others = np.delete(losses, k)
                    if i != k and (not m.any() or len(others) == 0 or losses[k] < others.min() - tol):
                        bad.append(mism(name + ", forced", f[at], float(grid[k])))
            e = 1 / np.sqrt(max(1, m.sum()))
            if not abs(u[at] - e) < 1e-12:
                bad.append(mism("uncertainty of bin %d" % b, u[at], e))
            total[col][b] = total[col].get(b, 0.0) + f[at]
            link[m] += f[at]
        if bad:
            break
    if bad or err:
        return bad
    p, err = guarded(lambda: np.asarray(est.predict(X.copy()), float))
    if err or np.max(np.abs(p - unlink(link))) > 1e-9:
        bad.append(mism("predictions of the training rows", err or p.tolist(), unlink(link).tolist()))
    if err is None and not ((p > 0) & (p <= 1)).all():
        bad.append(mism("predictions between zero and one", p.tolist()))
    if c["passes"] * len(cols) <= 2 and err is None and not (p < 1).all():
        bad.append(mism("predictions below one", p.tolist()))
    # values never seen in training have no effect
    probe = pd.DataFrame({k: [50.0, np.nan] for k in cols})
    probe["mu"] = 1.0
    probe["p"] = np.nan
    e = unlink(np.array([0.0, sum(total[k].get(-1, 0.0) for k in cols)]))
    q, err = guarded(lambda: np.asarray(est.predict(probe), float))
    if err or np.max(np.abs(q - e)) > 1e-9:
        bad.append(mism("predictions of unseen and missing values", err or q.tolist(), e.tolist()))
    loss = np.mean(row_losses(y, mu, unlink(link), gamma))
    if est.insample_loss_ is None or not abs(est.insample_loss_ - loss) < 1e-5 * max(1, abs(loss)):
        bad.append(mism("loss of the training", est.insample_loss_, loss))
    return bad


def replay_penalty(case, seed):
    """stronger penalties never move a bin to a larger dispersion"""
    X, y, cols = table(case)
    cols = cols[:1]
    last, bad = None, []
    for gamma in (0.0, 0.05, 0.4, 2.0, 10.0, 200.0):
        est = model(case, cols, gamma, passes=1)
        _, err = guarded(lambda: est.fit(X.copy(), y))
        if err and not err.startswith("ConvergenceError"):
            return [mism("training", err, gamma=gamma)]
        step = est.seen[0][2]
        if last is not None and (step > last + 1e-9).any():
            bad.append(mism("steps under penalty %g" % gamma, step.tolist(), "not above %r" % last.tolist()))
        last = step
    return bad


def c32(ctx):
    inv = ["Ascending", "Ends", "Symmetric", "Narrowing", "Allowed", "Turns", "Emit"]
    kw = dict(Features=2, Bins={-1, 0, 1, 3}, Counts={0, 0, 1, 2, 4, 9}, Means={1, 3, 8}, Sizes={1, 2, 5, 15, 16}, Penalties={0, 1, 2, 9}, Strong=9,
              MinRows=4, MaxRows=12, MaxPasses=4, Random=True)
    cases = ctx.tlc("Dispersion", "two features", consts=kw, simulate=ctx.pick(300, 3000), depth=40, invariants=inv).cases
    cases += ctx.tlc("Dispersion", "one feature, long", consts=dict(kw, Features=1, MinRows=6, MaxRows=30, MaxPasses=9, Sizes={3, 15, 20}), simulate=ctx.pick(150, 1500), depth=60, invariants=inv).cases
    cases += ctx.tlc("Dispersion", "every table of two rows", consts=dict(kw, Features=1, Bins={0, -1}, Counts={0, 2}, Means={1, 8}, Sizes={1, 5}, Penalties={0, 9}, MinRows=1, MaxRows=2, MaxPasses=2, Random=False), invariants=inv).cases
    seed = ctx.seed
    n = ctx.pick(2500, 20000)
    ctx.replay(lambda c: replay_search(c, seed), cases[:n], "searches")
    ctx.replay(lambda c: replay_penalty(c, seed), cases[: n : ctx.pick(6, 3)], "penalties")
