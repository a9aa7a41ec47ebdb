"""The training loop: behaviours of spec/Trainer.tla replayed through a scripted estimator.

The estimator below implements only the documented extension points of CyclicBoostingBase (calc_parameters,
precalc_parameters, _check_y, loss) and returns the proposals of the behaviour; everything else is the code
under test.
"""
import math
import random
import warnings
import zlib

import numpy as np
import pandas as pd

import fittrace
from vlib import guarded, fingerprint

from cyclic_boosting import flags, learning_rate
from cyclic_boosting.base import CyclicBoostingBase
from cyclic_boosting.common_smoothers import NoSmootherChoice
from cyclic_boosting.link import IdentityLinkMixin, LogLinkMixin
from cyclic_boosting.observers import BaseObserver
from cyclic_boosting.price import CBExponential

NAN, PINF, NINF = 1000001, 1000002, 1000003
SPECIAL = {NAN: np.nan, PINF: np.inf, NINF: -np.inf}
UNIT = {"id": 1.0 / 16, "log": 1e-5}
TOL = {"id": 1e-9, "log": 6e-4}
RATES = {"one": learning_rate.constant_learn_rate_one, "linear": learning_rate.linear_learn_rate,
         "half": learning_rate.half_linear_learn_rate}


class Script:
    """Proposals per (feature, visit) and what the estimator was shown."""

    def __init__(self, case, groups):
        self.props = {}
        for h in case["hist"]:
            if h["ev"] == "est":
                self.props.setdefault(h["f"] - 1, []).append(h["p"])
        self.nb = case["nb"]
        self.keys = [(g, f["ext"]) for g, f in zip(groups, case["cfg"]["feats"])]
        self.unit = UNIT[case["cfg"]["link"]]
        self.visits = {}
        self.seen = []
        self.problems = []
        self.rates = []
        self.events = []
        self.gs = None
        self.tgt = np.array(case["cfg"]["tgt"], dtype=float)
        self.loss_kind = case["cfg"]["loss"]
        self.link = case["cfg"]["link"]

    def forget(self):
        for log in (self.visits, self.seen, self.problems, self.rates, self.events):
            log.clear()

    def index(self, feature):
        return self.keys.index((tuple(feature.feature_group), feature.feature_type is not None))

    def proposal(self, feature):
        f = self.index(feature)
        k = self.visits.get(f, 0)
        self.visits[f] = k + 1
        n = feature.n_bins
        arr = np.zeros(n)
        if k >= len(self.props.get(f, ())):
            self.problems.append("unexpected estimation of group %d" % f)
            return f, arr
        p = self.props[f][k]
        nb = self.nb[f]
        if n != len(p):
            self.problems.append("group %d has %d bins instead of %d" % (f, n, len(p)))
            return f, arr
        arr[-1] = p[-1] * self.unit
        if n > 1:
            for i, c in enumerate(np.asarray(feature.bin_centers)):
                a = 0
                for v, m in zip(c, nb):
                    a = a * m + int(round(v))
                arr[i] = p[a] * self.unit
        return f, arr

    def loss(self, link_pred, weights):
        if self.loss_kind == "const":
            return 100.0
        if self.link == "id":
            d = np.rint((link_pred - self.gs) * 16) - self.tgt
        else:
            d = link_pred - self.gs - self.tgt * self.unit
        return float(np.sum(weights * np.abs(d)))


class ScriptedMixin:
    script = None

    def _check_y(self, y):
        pass

    def precalc_parameters(self, feature, y, pred):
        return None

    def calc_parameters(self, feature, y, pred, prefit_data):
        seen = np.array(pred.predict_link(), dtype=float)
        f, arr = self.script.proposal(feature)
        self.script.seen.append((self.iteration_, f, seen))
        self.script.events.append(("est", f))
        return arr, np.ones(len(arr))

    def loss(self, prediction, y, weights):
        return self.script.loss(np.asarray(self.link_func(np.asarray(prediction, dtype=float))), weights)


class ScriptedIdentity(ScriptedMixin, CyclicBoostingBase, IdentityLinkMixin):
    pass


class ScriptedLog(ScriptedMixin, CyclicBoostingBase, LogLinkMixin):
    pass


class ScriptedPrice(ScriptedMixin, CBExponential):
    pass


class Recorder:
    """An observer writing down what it is told."""

    def __init__(self, script, n):
        self.script, self.n, self.log = script, n, []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.log.append(("pass", iteration, np.array(prediction, dtype=float), np.array(weights, dtype=float), np.array(y),
                         float(estimator_state["insample_loss"]), len(estimator_state["features"]), delta))
        self.script.events.append(("obs", self.n, iteration))

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.log.append(("feat", iteration, feature_i, np.array(prediction, dtype=float), np.array(weights, dtype=float),
                         len(estimator_state["features"])))
        self.script.events.append(("feat", self.n, iteration, feature_i))


class Rate:
    """Scripted learning rate, writes down its calls."""

    def __init__(self, script, tab, fn=None):
        self.script, self.tab, self.fn = script, tab, fn

    def __call__(self, iteration, maximal_iteration, feature=None):
        f = self.script.index(feature) if feature is not None else -1
        self.script.rates.append((iteration, maximal_iteration, f))
        if self.fn is not None:
            return self.fn(iteration, maximal_iteration, feature)
        return self.tab[(iteration + 2 * (f + 1)) % len(self.tab)] / 4.0


class Run:
    """One behaviour executed on the code."""

    def __init__(self, case, seed, frame=None, nobs=None, extra_kw=None):
        cfg = case["cfg"]
        self.case, self.cfg = case, cfg
        self.rng = rng = random.Random(zlib.crc32(fingerprint(case).encode()) ^ (seed * 7919))
        self.unit, self.tol = UNIT[cfg["link"]], TOL[cfg["link"]]
        nr, nc = len(cfg["rows"]), len(cfg["rows"][0])
        self.frame = rng.random() < 0.7 if frame is None else frame
        w = np.array(cfg["w"], dtype=float)
        self.weighted = not np.all(w == 1) or rng.random() < 0.3
        y = np.array([rng.choice([0.0, 1.0, 2.0, 3.5, 7.0]) for _ in range(nr)])
        if y.sum() == 0 or (w * y).sum() == 0:
            y[:] = 1.5
        self.y, self.w = y, w
        mean = float(np.sum(y * w) / np.sum(w)) + 0.001
        self.gs = math.log(mean) if cfg["link"] == "log" else mean
        names = [["a", "b", "c", "d"], ["x 1", "x2", "z_3", "q"], ["col3", "col1", "col2", "col0"]][rng.randrange(3)]
        order = list(range(nc)) + (["w"] if self.weighted else []) + (["p"] if cfg["prior"] else [])
        self.default_groups = (self.frame and cfg.get("default_groups", False))
        if not self.default_groups:
            rng.shuffle(order)
            order.insert(rng.randrange(len(order) + 1), "junk")
        self.order = order
        self.name = {c: (names[c] if isinstance(c, int) else {"w": "weight", "p": "prior", "junk": "other"}[c]) if self.frame else i
                     for i, c in enumerate(order)}
        self.groups = [tuple(self.name[c - 1] for c in f["cols"]) for f in cfg["feats"]]
        self.script = Script(case, self.groups)
        self.script.gs = self.gs
        given = [g[0] if len(g) == 1 and rng.random() < 0.6 else g for g in self.groups]
        hier = [g for g, f in zip(given, cfg["feats"]) if f["hier"]]
        if hier and rng.random() < 0.5:
            hier = [h if isinstance(h, tuple) else (h,) for h in hier]
            rng.shuffle(hier)
        kind = cfg["rate"]["kind"]
        if kind == "script":
            lr = Rate(self.script, cfg["rate"]["tab"])
        elif kind == "half" and rng.random() < 0.4:
            lr = None
        else:
            lr = RATES[kind] if rng.random() < 0.3 else Rate(self.script, None, RATES[kind])
        if cfg["loss"] == "const" and kind == "one" and rng.random() < 0.2:
            lr = lambda *a: 1
        self.n_obs = cfg.get("nobs", rng.choice([0, 0, 1, 2])) if nobs is None else nobs
        self.observers = [Recorder(self.script, i) for i in range(self.n_obs)]
        fp = None
        if any(cfg["cm"]) or rng.random() < 0.7:
            kinds = [flags.IS_UNORDERED, flags.IS_ORDERED, flags.IS_CONTINUOUS, flags.IS_LINEAR]
            if cfg["disc"]:
                kinds = kinds[:2]
            fp = {self.name[c]: rng.choice(kinds) | (flags.MISSING_NOT_LEARNED if cfg["cm"][c] else rng.choice([0, flags.HAS_MISSING]))
                  for c in range(nc)}
        kw = dict(feature_groups=None if self.default_groups else given, feature_properties=fp,
                  weight_column=self.name["w"] if self.weighted else None,
                  prior_prediction_column=self.name["p"] if cfg["prior"] else None,
                  minimal_loss_change=cfg["minL"][0] / cfg["minL"][1],
                  minimal_factor_change=cfg["minF"] * (self.unit if cfg["link"] == "id" else 1e-5),
                  maximal_iterations=cfg["max"], observers=self.observers if self.observers or rng.random() < 0.5 else None,
                  smoother_choice=NoSmootherChoice(use_regression_type=cfg["disc"], use_normalization=False),
                  output_column="out", learn_rate=lr, aggregate=cfg["agg"])
        if hier:
            kw["hierarchical_feature_groups"] = hier
            kw["training_iterations_hierarchical_features"] = cfg["K"]
        if extra_kw:
            kw.update(extra_kw)
        self.kw = kw
        self.warned = []
        self.err = None
        self.insample = None

    def make(self):
        cls = ScriptedLog if self.cfg["link"] == "log" else ScriptedIdentity
        est = cls(**self.kw)
        est.script = self.script
        return est

    def table(self, rows, prior=None, w=None, missing=False):
        """A table of the estimator's columns; rows are tuples of bin numbers."""
        rng = self.rng
        cols = {}
        n = len(rows)
        for c in self.order:
            if isinstance(c, int):
                v = np.array([r[c] for r in rows], dtype=float)
                if missing:
                    alt = [-1.0, -2.0, np.nan, -1.0, np.inf, -np.inf]
                    v = np.array([rng.choice(alt) if x < 0 else x for x in v])
                elif not np.all(v >= 0) or rng.random() < 0.5:
                    v = np.array([np.nan if x < 0 and rng.random() < 0.4 else x for x in v])
            elif c == "w":
                v = np.array(w if w is not None else np.ones(n), dtype=float)
            elif c == "p":
                v = np.array([SPECIAL.get(p, p) for p in prior], dtype=float)
            else:
                v = np.array([rng.choice([-1.0, 0.0, 3.0, np.nan]) for _ in range(n)])
            cols[c] = v
        if self.frame:
            df = pd.DataFrame({self.name[c]: cols[c] for c in self.order})
            for c in self.order:
                if isinstance(c, int) and np.all(np.isfinite(cols[c])) and rng.random() < 0.4:
                    df[self.name[c]] = df[self.name[c]].astype(int)
            if rng.random() < 0.3:
                df.index = [7 * i % 11 for i in range(n)]
            return df
        return np.column_stack([cols[c] for c in self.order])

    def execute(self):
        cfg = self.cfg
        self.est, err = guarded(self.make)
        if err:
            self.err = err
            return self
        self.X = self.table(cfg["rows"], cfg["prior"], cfg["w"])
        self.train = self.X.copy()
        use_ft = self.frame
        if self.rng.random() < 0.3:
            self.earlier()

        def go():
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    if use_ft:
                        out = self.est.fit_transform(self.X, self.y.copy())
                        self.insample = np.array(out["out"], dtype=float)
                    else:
                        self.est.fit(self.X, self.y.copy())
                finally:
                    self.warned = [str(x.message) for x in ws if issubclass(x.category, UserWarning)]

        _, self.err = guarded(go)
        return self

    def earlier(self):
        """an earlier training of the same object, of which nothing may remain"""
        def go():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.est.fit(self.X.copy(), self.y.copy())

        guarded(go)
        self.script.forget()
        for o in self.observers:
            o.log.clear()

    # ------------------------------------------------------------------ comparison helpers
    def link(self, pred):
        pred = np.asarray(pred, dtype=float)
        with np.errstate(all="ignore"):
            return np.log(pred) if self.cfg["link"] == "log" else pred

    def rel(self, pred):
        """Prediction in units relative to the global scale."""
        return (self.link(pred) - self.gs) / self.unit

    def same(self, got, exp, n=1):
        got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
        return got.shape == exp.shape and bool(np.all(np.abs(got - exp) <= self.tol / self.unit))

    def probe_rows(self, k):
        """Random rows with the contribution of every group according to the specification."""
        cfg, case, rng = self.cfg, self.case, self.rng
        tabs = [{tuple(t): v for t, v in c} for c in case["contrib"]]
        nc = len(cfg["rows"][0])
        hi = [max([case["nb"][f][i] for f, ft in enumerate(cfg["feats"]) for i, c in enumerate(ft["cols"]) if c - 1 == col] or [0])
              for col in range(nc)]
        rows = [[rng.randint(-1, hi[c] + 1) if rng.random() < 0.8 else rng.randint(0, max(0, hi[c] - 1)) for c in range(nc)] for _ in range(k)]
        contrib = []
        for r in rows:
            cs = []
            for f, ft in enumerate(cfg["feats"]):
                t = tuple(min(r[c - 1], case["nb"][f][i] + 1) for i, c in enumerate(ft["cols"]))
                cs.append(tabs[f][t])
            contrib.append(cs)
        prior = base = None
        if cfg["prior"]:
            pb = {p: b for p, b in case["pbase"]}
            prior = [rng.choice(list(pb)) for _ in rows]
            base = [pb[p] for p in prior]
        else:
            base = [0] * k
        return rows, prior, np.array(base, dtype=float), np.array(contrib, dtype=float).reshape(k, len(cfg["feats"]))


def mism(what, observed=None, expected=None, **kw):
    d = {"what": what}
    if observed is not None:
        d["observed"] = np.asarray(observed).tolist() if not isinstance(observed, (str, bool, int)) else observed
    if expected is not None:
        d["expected"] = np.asarray(expected).tolist() if not isinstance(expected, (str, bool, int)) else expected
    d.update(kw)
    return d


def check_end(run, bad):
    """Did training end as it should?  Returns False if nothing more can be compared."""
    v = run.case["verdict"]
    if v == "error":
        if not run.err or not run.err.startswith("ConvergenceError"):
            bad.append(mism("training should end with ConvergenceError", run.err or "fit returned"))
        return False
    if run.err:
        bad.append(mism("training failed", run.err))
        return False
    return True


def check_stop(run, bad):
    c = run.case
    if run.est.iteration_ != c["it"]:
        bad.append(mism("iteration_", run.est.iteration_, c["it"]))
    if [bool(x) for x in run.est.stop_criteria_] != c["stop"]:
        bad.append(mism("stop_criteria_", [bool(x) for x in run.est.stop_criteria_], c["stop"]))


def check_schedule(run, bad):
    c = run.case
    exp = [(h["it"], h["f"] - 1) for h in c["hist"] if h["ev"] == "est"]
    got = [(i, f) for i, f, _ in run.script.seen]
    if got != exp:
        bad.append(mism("sequence of estimations", str(got), str(exp)))
    for p in run.script.problems:
        if "bins" in p:
            bad.append(mism(p))


def check_seen(run, bad):
    c = run.case
    exp = [h for h in c["hist"] if h["ev"] == "est"]
    for k, (h, (i, f, s)) in enumerate(zip(exp, run.script.seen)):
        if (h["it"], h["f"] - 1) != (i, f):
            bad.append(mism("estimation %d" % k, str((i, f)), str((h["it"], h["f"] - 1))))
            return
        r = (s - run.gs) / run.unit
        if not run.same(r, h["seen"]):
            bad.append(mism("prediction offered to estimation %d (pass %d, group %d)" % (k, i, f), r, h["seen"]))
            return
    if len(exp) != len(run.script.seen):
        bad.append(mism("number of estimations", len(run.script.seen), len(exp)))


def check_rates(run, bad):
    c, cfg = run.case, run.cfg
    if not isinstance(run.kw["learn_rate"], Rate) or any(f["hier"] for f in cfg["feats"]):
        if run.script.rates and any(f["hier"] for f in cfg["feats"]):
            bad.append(mism("hierarchical training asked the configured learning rate"))
        return
    exp = {(h["it"] + 1, cfg["max"], h["f"] - 1) for h in c["hist"] if h["ev"] == "est"}
    got = set(run.script.rates)
    if got != exp:
        bad.append(mism("learning rate requests", str(sorted(got)), str(sorted(exp))))


def check_insample(run, bad):
    """C05"""
    c = run.case
    if run.insample is not None and not run.same(run.rel(run.insample), c["shown"]):
        bad.append(mism("prediction returned by training", run.rel(run.insample), c["shown"]))
    X = run.train.copy()
    p, err = guarded(lambda: run.est.predict(X))
    if err:
        bad.append(mism("predict failed", err))
        return
    if not run.same(run.rel(p), c["shown"]):
        bad.append(mism("prediction on the training rows", run.rel(p), c["shown"]))
    if run.insample is not None and not np.allclose(p, run.insample, rtol=1e-9, atol=1e-12):
        bad.append(mism("predict differs from training's prediction", p, run.insample))
    if run.frame:
        t, err = guarded(lambda: np.asarray(run.est.transform(run.train.copy())["out"]))
        if err:
            bad.append(mism("transform failed", err))
        elif not np.allclose(t, p, rtol=1e-12, atol=1e-12):
            bad.append(mism("transform differs from predict", t, p))


def check_contrib(run, bad, k=12):
    """C06, C12: probe rows."""
    rows, prior, base, contrib = run.probe_rows(k)
    X = run.table(rows, prior, missing=True)
    p, err = guarded(lambda: run.est.predict(X))
    if err:
        bad.append(mism("predict failed", err))
        return
    exp = base + contrib.sum(axis=1)
    if not run.same(run.rel(p), exp):
        i = int(np.argmax(~(np.abs(run.rel(p) - exp) <= run.tol / run.unit)))
        bad.append(mism("prediction of row %s" % (rows[i],), run.rel(p)[i], exp[i], prior=prior and prior[i]))
    # one row at a time
    i = run.rng.randrange(k)
    one = X.iloc[[i]] if run.frame else X[[i]]
    q, err = guarded(lambda: run.est.predict(one))
    if err:
        bad.append(mism("predict failed for a single row", err))
    elif not np.allclose(q, p[[i]], rtol=1e-12, atol=0, equal_nan=True):
        bad.append(mism("prediction depends on the other rows", q, p[[i]]))
    # reported contributions
    con, err = guarded(lambda: run.est.get_feature_contributions(X))
    if err:
        bad.append(mism("get_feature_contributions failed", err))
        return
    keys = [" ".join(map(str, g)) for g in run.groups]
    if set(con) != set(keys):
        bad.append(mism("contribution keys", str(sorted(con)), str(sorted(keys))))
        return
    for f, key in enumerate(keys):
        got = run.link(con[key]) / run.unit
        if not run.same(got, contrib[:, f]):
            i = int(np.argmax(~(np.abs(got - contrib[:, f]) <= run.tol / run.unit)))
            bad.append(mism("contribution of group %d to row %s" % (f, rows[i]), got[i], contrib[i, f]))
    # columns the model does not need
    if run.frame:
        need = set(run.est.required_columns())
        exp_need = {n for g in run.groups for n in g} | ({run.name["w"]} if run.weighted else set()) | ({run.name["p"]} if run.cfg["prior"] else set())
        if need != exp_need:
            bad.append(mism("required_columns", str(sorted(need)), str(sorted(exp_need))))
        cols = [c for c in X.columns if c in need and not (run.weighted and c == run.name["w"])]
        q, err = guarded(lambda: run.est.predict(X[cols]))
        if err:
            bad.append(mism("predict needs columns it should not", err))
        elif not np.allclose(q, p, rtol=1e-12, atol=0, equal_nan=True):
            bad.append(mism("unused columns influence the prediction", q, p))


def check_importance(run, bad):
    """C17"""
    c = run.case
    imp, err = guarded(lambda: run.est.get_feature_importances())
    if err:
        bad.append(mism("get_feature_importances failed", err))
        return
    keys = ["_".join(map(str, g)) for g in run.groups]
    if set(imp) != set(keys):
        bad.append(mism("importance keys", str(sorted(imp)), str(sorted(keys))))
        return
    tot = float(sum(c["imp"]))
    if tot * run.unit < 1e-2:
        return
    exp = np.array([v / tot for v in c["imp"]])
    got = np.array([imp[k] for k in keys], dtype=float)
    if not np.allclose(got, exp, atol=1e-9 if run.cfg["link"] == "id" else 2e-3):
        bad.append(mism("importances", got, exp))


def check_divergence(run, bad):
    """C08: warnings of the diverging passes."""
    n = sum("diverging. In the" in w for w in run.warned)
    if n != run.case["ndiv"]:
        bad.append(mism("number of divergence warnings", n, run.case["ndiv"]))


def check_observers(run, bad):
    c, cfg = run.case, run.cfg
    if not run.observers:
        return
    logs = [o.log for o in run.observers]
    exp = []
    hidden = lambda it: any(f["hier"] for f in cfg["feats"]) and it < cfg["K"]
    nh = sum(f["hier"] for f in cfg["feats"])
    cur = None
    for h in c["hist"]:
        if h["ev"] == "pass":
            cur = h
            exp.append(("pass", h["it"], h["shown"], h["loss"], h["dev"]))
        else:
            exp.append(("feat", h["it"], h["f"] - 1, cur["shown"]))
    if c["verdict"] == "ok":
        exp.append(("pass", -1, c["shown"], c["loss"], c["dev"]))
    fuzz = 1e-9 if cfg["link"] == "id" else 61e-5 * sum(cfg["w"]) + 1e-6
    lunit = 1.0 if cfg["link"] == "id" or cfg["loss"] == "const" else run.unit
    for n, log in enumerate(logs):
        if [(e[0], e[1]) + ((e[2],) if e[0] == "feat" else ()) for e in log] != [(e[0], e[1]) + ((e[2],) if e[0] == "feat" else ()) for e in exp]:
            bad.append(mism("notifications of observer %d" % n, str([e[:2] for e in log]), str([e[:2] for e in exp])))
            continue
        for e, g in zip(exp, log):
            pr = g[2] if e[0] == "pass" else g[3]
            sh = e[2] if e[0] == "pass" else e[3]
            if not run.same(run.rel(pr), sh):
                bad.append(mism("prediction told to observer %d at %s" % (n, e[:2]), run.rel(pr), sh))
                break
            wt = g[3] if e[0] == "pass" else g[4]
            if not np.allclose(wt, run.w):
                bad.append(mism("weights told to observer", wt, run.w))
                break
            if e[0] == "pass":
                if not np.allclose(g[4], run.y):
                    bad.append(mism("target told to observer", g[4], run.y))
                if abs(g[5] - e[3] * lunit) > fuzz + 1e-9 * abs(g[5]):
                    bad.append(mism("loss told to observer at pass %s" % e[1], g[5], e[3] * lunit))
                    break
                if e[1] != 0:
                    d = e[4] * run.unit / (16 * len(cfg["feats"]))
                    if g[7] is None or abs(float(g[7]) - d) > (run.unit / 8 if cfg["link"] == "id" else 8e-4):
                        bad.append(mism("update change told to observer at pass %s" % e[1], g[7], d))
                        break
            nf = g[6] if e[0] == "pass" else g[5]
            if e[1] >= 0 and nf != (nh if hidden(e[1]) else len(cfg["feats"])):
                bad.append(mism("feature list told to observer", nf))
                break
    # all observers are told before anything else happens
    ev = run.script.events
    want = []
    for h in c["hist"]:
        if h["ev"] == "pass":
            want += [("obs", n, h["it"]) for n in range(run.n_obs)]
        else:
            want += [("est", h["f"] - 1)] + [("feat", n, h["it"], h["f"] - 1) for n in range(run.n_obs)]
    if c["verdict"] == "ok":
        want += [("obs", n, -1) for n in range(run.n_obs)]
    if ev != want:
        bad.append(mism("order of notifications and estimations", str(ev), str(want)))


def replay(case, seed, checks, **kw):
    if case["verdict"] == "unsure":
        return {"skip": "rounding_boundary"}
    run = Run(case, seed, **kw).execute()
    bad = []
    if run.err and run.case["verdict"] != "error":
        return [mism("training failed", run.err)]
    if not check_end(run, bad):
        # a training ending in an error: only what happened before is comparable
        for c in checks:
            if c in (check_schedule, check_seen, check_rates, check_divergence, check_observers):
                c(run, bad)
        return bad
    for c in checks:
        c(run, bad)
    return bad


def check_importance_refit(run, bad):
    """C17: a second fit of the same object reports its own importances."""
    check_importance(run, bad)
    if bad or run.case["verdict"] != "ok":
        return
    run.script.visits.clear()
    _, err = guarded(lambda: run.est.fit(run.train.copy(), run.y.copy()))
    if err:
        bad.append(mism("second fit failed", err))
        return
    check_importance(run, bad)


def check_bounds(run, bad):
    """C09: the applied updates, read off the predictions offered to consecutive estimations."""
    c, cfg = run.case, run.cfg
    check_schedule(run, bad)
    check_seen(run, bad)
    if bad:
        return
    rows, prior, base, contrib = run.probe_rows(12)
    con, err = guarded(lambda: run.est.get_feature_contributions(run.table(rows, prior, missing=True)))
    if err:
        bad.append(mism("get_feature_contributions failed", err))
        return
    for f, g in enumerate(run.groups):
        got = run.link(con[" ".join(map(str, g))]) / run.unit
        if not run.same(got, contrib[:, f]):
            i = int(np.argmax(~(np.abs(got - contrib[:, f]) <= run.tol / run.unit)))
            bad.append(mism("factor of group %d for row %s" % (f, rows[i]), got[i], contrib[i, f]))


def replay_price_bounds(case, seed):
    """C09: bounds of price-type features, through the price model with scripted estimates."""
    run = Run(case, seed, frame=True, nobs=0)
    cfg, rng = run.cfg, run.rng
    kw = dict(run.kw)
    for k in ("feature_groups", "aggregate"):
        kw.pop(k)
    kw["standard_feature_groups"] = [g for g, f in zip(run.groups, cfg["feats"]) if not f["ext"]]
    kw["external_feature_groups"] = [g for g, f in zip(run.groups, cfg["feats"]) if f["ext"]]
    kw["external_colname"] = "price"
    X = run.table(cfg["rows"], None, cfg["w"])
    X["price"] = [rng.choice([1.0, 0.7, 1.3] + [np.nan] * (not cfg["disc"])) for _ in range(len(X))]

    def go():
        est = ScriptedPrice(**kw)
        est.script = run.script
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            est.fit(X, run.y.copy())
        return est

    est, err = guarded(go)
    if err:
        return [mism("training failed", err)]
    bad = []
    exp = [(h["it"], h["f"] - 1) for h in case["hist"] if h["ev"] == "est"]
    got = [(i, f) for i, f, _ in run.script.seen]
    if got != exp or run.script.problems:
        return [mism("sequence of estimations", str(got) + str(run.script.problems), str(exp))]
    rows, prior, base, contrib = run.probe_rows(12)
    con, err = guarded(lambda: est.get_feature_contributions(run.table(rows, None, missing=True)))
    if err:
        return [mism("get_feature_contributions failed", err)]
    for f, (g, ft) in enumerate(zip(run.groups, cfg["feats"])):
        key = " ".join(g) + ("_external" if ft["ext"] else "")
        if key not in con:
            bad.append(mism("no contribution entry", str(sorted(con)), key))
            continue
        got = run.link(con[key]) / run.unit
        if not run.same(got, contrib[:, f]):
            i = int(np.argmax(~(np.abs(got - contrib[:, f]) <= run.tol / run.unit)))
            bad.append(mism("factor of %s group %d for row %s" % ("price" if ft["ext"] else "demand", f, rows[i]), got[i], contrib[i, f]))
    return bad


def replay_base_observer(case, seed):
    """C13: the library's own base observer as it is."""
    if case["verdict"] == "unsure":
        return {"skip": "rounding_boundary"}
    run = Run(case, seed, nobs=0)
    run.kw["observers"] = [BaseObserver(), BaseObserver()]
    run.execute()
    bad = []
    if check_end(run, bad):
        check_stop(run, bad)
        check_insample(run, bad)
    return bad


# --------------------------------------------------------------------------- configurations
def config(rng, link="id", feats=None, **fix):
    """A random configuration; fix overrides fields, feats is (number of groups, allowed dims)."""
    for _ in range(1000):
        nc = rng.randint(1, 3)
        nr = rng.randint(2, 5)
        top = rng.choice([0, 1, 1, 2, 2, 3])
        miss = fix.get("miss", rng.choice([0.0, 0.15, 0.3]))
        rows = [[-1 if rng.random() < miss else rng.randint(0, top) for _ in range(nc)] for _ in range(nr)]
        nf, dims = feats or (rng.randint(1, 3), (1, 1, 1, 2))
        groups = []
        for _ in range(nf):
            d = min(rng.choice(dims), nc)
            g = rng.sample(range(1, nc + 1), d)
            if sorted(g) not in [sorted(x) for x in groups]:
                groups.append(g)
        if len(groups) < nf and feats:
            continue
        cm = [rng.random() < fix.get("pmnl", 0.25) for _ in range(nc)]
        c = dict(rows=rows, feats=[dict(cols=g, mnl=any(cm[x - 1] for x in g), hier=False, ext=False) for g in groups], cm=cm,
                 w=[rng.choice([1, 1, 2, 3]) for _ in range(nr)] if rng.random() < 0.5 else [1] * nr,
                 prior=[], link=link, agg=rng.random() < 0.7, disc=rng.random() < 0.25, loss="abs", K=3,
                 max=rng.choice([1, 2, 4, 8] if link == "id" else [1, 2, 3, 4, 5, 8, 10]),
                 minL=rng.choice([[-1, 1], [-1, 1], [0, 1], [1, 4], [1, 2]]),
                 minF=rng.choice([-1, -1, 0, 4, 8, 16] if link == "id" else [-1, -1, 0, 5000, 20000]),
                 rate=rng.choice([dict(kind="one", tab=[]), dict(kind="half", tab=[]), dict(kind="linear", tab=[]),
                                  dict(kind="script", tab=[rng.randint(1, 4) for _ in range(5)])]))
        big = rng.random() < 0.6
        if link == "id":
            c["tgt"] = [16 * rng.choice([-6, -4, 4, 5, 6, 8] if big else [-1, 0, 1, 2]) for _ in range(nr)]
            c["props"] = set(rng.choice([(-32, -16, 0, 16, 32, 64), (0, 16, 32), (0, 16), (-16, 16), (-64, 0, 64, 128), (0,)]))
        else:
            c["tgt"] = [rng.choice([-400000, -150000, 180000, 300000, 500000] if big else [-20000, 0, 30000, 15000]) for _ in range(nr)]
            c["props"] = set(rng.choice([(-30000, 0, 30000, 50000), (-200000, -100000, 80000, 210000), (0, 20000, 40000), (-80000, 60000, 100000),
                                         (-10000, 0, 10000)]))
        if rng.random() < fix.get("pprior", 0.3):
            codes = [1, 2, 3, 4, 8, 5] + [NAN, PINF] * fix.get("bad_prior", rng.choice([0, 1])) + ([0, -2] if rng.random() < 0.4 else []) + [NINF] * rng.choice([0, 1])
            c["prior"] = [rng.choice(codes) for _ in range(nr)]
        for k, v in fix.items():
            if k in c:
                c[k] = v
        if fix.get("hier"):
            n = rng.randint(1, len(groups))
            for f in rng.sample(range(len(groups)), n):
                c["feats"][f]["hier"] = True
            c["K"] = rng.choice([3, 3, 1, 2]) if fix["hier"] != 3 else 3
        fin = [(w, p) for w, p in zip(c["w"], c["prior"]) if p not in SPECIAL]
        num, den = sum(w * p for w, p in fin), sum(w for w, p in fin)
        if link == "id" and den and (16 * num) % den:
            continue
        sizes = []
        for g in groups:
            ok = [[r[x - 1] for x in g] for r in rows]
            ok = [t for t in ok if min(t) >= 0]
            n = 1
            for k in range(len(g)):
                n *= (max(t[k] for t in ok) + 1) if ok else 0
            sizes.append(n + 1)
        if max(sizes) > 13 or (link == "id" and fix.get("exact") and any(s not in (1, 2, 4, 8) for s in sizes)):
            continue
        if not den and c["prior"] and rng.random() < 0.5:
            continue
        return c
    raise RuntimeError("no configuration")


LNTAB = [round(1e5 * math.log(n)) for n in range(1, 201)]
INV = ["TypeOk", "Ledger", "InSample", "StopsForReason", "PassBound", "RunsOn", "NeverWorse", "AtMostFive", "Withdrawn",
       "WithinBounds", "HierFirst", "AllEstimated", "InOrder", "MissNeutral"]


def simulate(ctx, label, configs, num, inv=None):
    r = ctx.tlc("Trainer", label, invariants=(inv or INV) + ["Emit"], simulate=num, depth=400,
                consts=dict(Configs=Confs(configs), Random=True, LnTab=LNTAB))
    return sort_out(ctx, r.cases)


def enumerate_(ctx, label, configs, inv=None):
    r = ctx.tlc("Trainer", label, invariants=(inv or INV) + ["Emit"],
                consts=dict(Configs=Confs(configs), Random=False, LnTab=LNTAB), heap="6g")
    return sort_out(ctx, r.cases)


def Confs(configs):
    from vlib import Raw, tla
    return Raw("{" + ",\n ".join(tla(c) for c in configs) + "}")


def sort_out(ctx, cases):
    ctx.count("behaviours_dropped_at_rounding_boundary", sum(c["verdict"] == "unsure" for c in cases))
    return [c for c in cases if c["verdict"] != "unsure"]


# --------------------------------------------------------------------------- families of configurations
def confs(ctx, n, link, **fix):
    return [config(ctx.rng, link, **fix) for _ in range(n)]


def tiny(link, **kw):
    """Configurations small enough for exhaustive exploration."""
    out = []
    big = link == "log"
    for agg in (True, False):
        for mnl in (False, True):
            base = dict(rows=[[0], [-1]], cm=[mnl], w=[1, 2], prior=[], link=link, agg=agg, disc=False, loss="abs", K=3, max=2,
                        minL=[-1, 1], minF=-1, rate=dict(kind="half", tab=[]), tgt=[90000, -30000] if big else [48, -16],
                        props={-60000, 0, 90000} if big else {-32, 0, 48})
            base["feats"] = [dict(cols=[1], mnl=mnl, hier=False, ext=False)]
            base.update(kw)
            out.append(base)
    return out


def family(ctx, what):
    """Behaviours of the specification for one aspect of training."""
    n = lambda q, t: ctx.pick(q, t)
    c = []
    if what in ("general", "contrib", "ledger"):
        c += enumerate_(ctx, "two rows, identity link", tiny("id") + tiny("id", max=4, props={-32, 48}, tgt=[16, 0], minL=[1, 4]))
        c += enumerate_(ctx, "two rows, log link", tiny("log") + tiny("log", max=3, props={-60000, 90000}, tgt=[20000, 0], minL=[1, 4]))
        for link in ("id", "log"):
            c += simulate(ctx, "mixed, %s link" % link, confs(ctx, n(300, 1500), link), n(1500, 15000))
            c += simulate(ctx, "hierarchical, %s link" % link, confs(ctx, n(80, 400), link, hier=True), n(400, 4000))
            c += simulate(ctx, "prior predictions, %s link" % link, confs(ctx, n(80, 400), link, pprior=1), n(400, 4000))
    if what in ("stop", "general"):
        for link in ("id", "log"):
            c += simulate(ctx, "stop criteria, %s link" % link,
                          [dict(x, minL=ctx.rng.choice([[0, 1], [1, 8], [1, 4], [1, 2], [1, 1]]) if ctx.rng.random() < 0.7 else [-1, 1])
                           for x in confs(ctx, n(300, 1500), link, exact=True, max=8)], n(1500, 15000))
    if what == "stop":
        c += enumerate_(ctx, "thresholds met exactly", [dict(t, minF=f, minL=l, max=m) for t in tiny("id", w=[1, 1], tgt=[64, 64], props={0, 32})
                                                        for f in (-1, 0, 16, 32) for l in ([-1, 1], [0, 1], [1, 4], [1, 2]) for m in (1, 2, 4)])
        c += simulate(ctx, "hierarchical, small limits", confs(ctx, n(100, 500), "id", hier=True, minL=[1, 2], minF=16), n(500, 5000))
    if what in ("diverge", "general"):
        for link in ("id", "log"):
            small, props = ([0, 16], {-32, 16, 64}) if link == "id" else ([15000, -10000], {-200000, -60000, 30000, 100000})
            for hier in (False, True):
                c += simulate(ctx, "diverging%s, %s link" % (", hierarchical" if hier else "", link),
                              [dict(x, tgt=[ctx.rng.choice(small + [small[-1]]) or small[-1] for _ in x["rows"]], props=props)
                               for x in confs(ctx, n(150, 600), link, hier=hier, max=4)], n(600, 6000))
    if what == "diverge":
        for link in ("id", "log"):
            t = tiny(link, max=2, minL=[-1, 1], props={-60000, 90000} if link == "log" else {-32, 48}, tgt=[20000, 10000] if link == "log" else [16, -16], w=[2, 1])
            c += enumerate_(ctx, "diverging, two rows, %s link" % link, [x for x in t if not x["cm"][0]] if ctx.quick else t)
        # two groups, one of which is the culprit
        c += simulate(ctx, "one culprit, log link", [dict(x, props={0, 25000, 120000}, tgt=[ctx.rng.choice([30000, 40000]) for _ in x["rows"]], agg=True, max=6)
                                                     for x in confs(ctx, n(150, 600), "log", feats=(2, (1, 1, 2)))], n(1200, 12000))
    if what == "bounds":
        for name, props in (("downwards", {-200000, -80000, -40000}), ("upwards", {60000, 90000, 300000}), ("both", {-300000, -69315, -30000, 20000, 69315, 200000}),
                            ("inside", {-60000, -20000, 0, 10000, 69000})):
            c += simulate(ctx, "bounds " + name, [dict(x, props=props) for x in confs(
                ctx, n(60, 300), "log", agg=True, loss="const", max=12, minL=[-1, 1], minF=-1, rate=dict(kind="one", tab=[]), feats=(2, (1, 1, 2)))], n(300, 3000))
        c += simulate(ctx, "bounds with learning rates", confs(ctx, n(60, 300), "log", agg=True, loss="const", max=8, minL=[-1, 1], minF=-1), n(300, 3000))
        c += simulate(ctx, "bounds, not aggregating", confs(ctx, n(40, 200), "log", agg=False, loss="const", max=5, minL=[-1, 1], minF=-1), n(150, 1500))
        c += simulate(ctx, "no bounds, identity link", confs(ctx, n(40, 200), "id", loss="const", max=8, minL=[-1, 1], minF=-1), n(150, 1500))
    if what == "hier":
        c += enumerate_(ctx, "hierarchical, two groups", [dict(rows=[[0, 0], [0, -1]], cm=[False, True], w=[1, 1], prior=[], link="id", agg=a, disc=False, loss=l,
                        K=k, max=m, minL=ml, minF=-1, rate=dict(kind="half", tab=[]), tgt=[48, 48], props={0, 16} if k == 1 and m <= 2 else {16},
                        feats=[dict(cols=[1], mnl=False, hier=h[0], ext=False), dict(cols=[2], mnl=True, hier=h[1], ext=False)])
                        for a in (True, False) for l in ("abs", "const") for k in (1, 2) for m in (1, 2, 4) for ml in ([-1, 1], [1, 2])
                        for h in ((True, False), (False, True), (True, True), (False, False))])
        for link in ("id", "log"):
            c += simulate(ctx, "hierarchical, %s link" % link, confs(ctx, n(300, 1200), link, hier=3, feats=(3, (1, 1, 2))), n(1200, 12000))
            c += simulate(ctx, "hierarchical, other lengths, %s link" % link, confs(ctx, n(100, 500), link, hier=True), n(400, 4000))
            c += simulate(ctx, "not hierarchical, %s link" % link, confs(ctx, n(80, 400), link, feats=(3, (1, 2))), n(300, 3000))
    if what == "missing":
        for link in ("id", "log"):
            c += enumerate_(ctx, "missing, %s link" % link, tiny(link) + tiny(link, rows=[[-1], [-1]], max=4)
                            + tiny(link, rows=[[1], [0]], tgt=[100, -70] if link == "id" else [150000, -120000]))
            c += simulate(ctx, "missing, %s link" % link, confs(ctx, n(300, 1500), link, miss=0.4, pmnl=0.5), n(1500, 15000))
            c += simulate(ctx, "missing, divergence, %s link" % link,
                          [dict(x, tgt=[1 if link == "id" else 15000 for _ in x["rows"]]) for x in confs(ctx, n(80, 400), link, miss=0.4, pmnl=0.7, agg=True)], n(500, 5000))
    if what == "prior":
        for link in ("id", "log"):
            c += simulate(ctx, "prior predictions, %s link" % link, confs(ctx, n(400, 2000), link, pprior=1), n(1200, 12000))
            c += simulate(ctx, "unusable prior predictions, %s link" % link,
                          [dict(x, prior=[ctx.rng.choice([NAN, PINF, NINF, 0, -2, 2]) for _ in x["rows"]]) for x in confs(ctx, n(200, 1000), link, pprior=0)
                           if link == "log"] or confs(ctx, n(200, 1000), link, pprior=1, bad_prior=3), n(600, 6000))
    if what == "rates":
        for kind in ("one", "half", "linear"):
            for link, mx in (("id", 4), ("id", 8), ("log", 3), ("log", 7), ("log", 10)):
                c += simulate(ctx, "rate %s, %d passes" % (kind, mx), confs(ctx, n(20, 100), link, max=mx, loss="const", minL=[-1, 1], minF=-1,
                                                                           rate=dict(kind=kind, tab=[])), n(80, 800))
        c += simulate(ctx, "hierarchical overrides the rate", confs(ctx, n(60, 300), "id", hier=True), n(300, 3000))
        c += simulate(ctx, "scripted rates", confs(ctx, n(60, 300), "id", rate=dict(kind="script", tab=[1, 2, 4, 3])), n(300, 3000))
    if what == "price":
        for name, props in (("downwards", {-200000, -80000}), ("upwards", {60000, 300000}), ("both", {-300000, -30000, 20000, 200000})):
            cs = []
            for x in confs(ctx, n(60, 300), "log", agg=True, loss="const", max=10, minL=[-1, 1], minF=-1, pprior=0, rate=dict(kind="one", tab=[]), feats=(2, (1, 2))):
                fs = [dict(f) for f in x["feats"]]
                fs[-1]["ext"] = True
                if ctx.rng.random() < 0.4:
                    fs[0]["ext"] = True
                if ctx.rng.random() < 0.2 and not fs[0]["ext"]:
                    fs[-1]["cols"], fs[-1]["mnl"] = fs[0]["cols"], fs[0]["mnl"]
                cs.append(dict(x, props=props, feats=fs))
            c += simulate(ctx, "price-type features, " + name, cs, n(250, 2500))
    return c


def record(ctx, cases):
    ctx.exhaustive = False
    ctx.count("behaviours_with_divergence", sum(c["ndiv"] > 0 for c in cases))
    ctx.count("behaviours_ending_in_error", sum(c["verdict"] == "error" for c in cases))
    ctx.count("passes", sum(c["it"] for c in cases))
    ctx.assumptions += ["estimates are scripted through calc_parameters and reach the features unsmoothed",
                        "values on an integer grid of the link scale; behaviours whose decisions fall within rounding are dropped and counted"]


def run_check(ctx, families, checks, label, **kw):
    cases = []
    for f in families:
        cases += family(ctx, f)
    record(ctx, cases)
    if ctx.quick and len(cases) > 9000:
        cases = ctx.rng.sample(cases, 9000)
    ctx.replay(lambda c: replay(c, ctx.seed, checks, **kw), cases, label)
    return cases


def c05(ctx):
    run_check(ctx, ["general"], [check_insample], "trainings_repredicted", frame=True)
    fittrace.validate(ctx, ctx.pick(160, 1600))


def c06(ctx):
    run_check(ctx, ["contrib"], [check_contrib], "models_decomposed")
    fittrace.validate(ctx, ctx.pick(160, 1600))


def c07(ctx):
    run_check(ctx, ["stop"], [check_stop, check_schedule], "trainings_stopped")
    fittrace.validate(ctx, ctx.pick(160, 1600))


def c08(ctx):
    run_check(ctx, ["diverge"], [check_divergence, check_schedule, check_seen, check_stop, check_insample, check_contrib], "trainings_diverging")
    fittrace.validate(ctx, ctx.pick(160, 1600), push=[1.0, 3.0, -1.5, 6.0, -4.0, 12.0])


def c09(ctx):
    run_check(ctx, ["bounds"], [check_bounds], "trainings_bounded")
    price = family(ctx, "price")
    ctx.replay(lambda c: replay_price_bounds(c, ctx.seed), price, "price_trainings_bounded")
    fittrace.validate(ctx, ctx.pick(160, 1600))


def c10(ctx):
    run_check(ctx, ["hier"], [check_schedule, check_stop, check_seen, check_contrib], "trainings_hierarchical")
    fittrace.validate(ctx, ctx.pick(160, 1600), phier=1.0)


def c11(ctx):
    run_check(ctx, ["ledger"], [check_schedule, check_seen, check_rates, check_contrib], "trainings_audited")
    fittrace.validate(ctx, ctx.pick(160, 1600))


def c12(ctx):
    run_check(ctx, ["missing"], [check_contrib, check_seen], "models_probed")
    fittrace.validate(ctx, ctx.pick(160, 1600), pmnl=0.5)


def c13(ctx):
    cases = run_check(ctx, ["general"], [check_observers, check_stop, check_insample], "trainings_observed", nobs=2)
    ctx.replay(lambda c: replay_base_observer(c, ctx.seed), cases[:: ctx.pick(7, 3)], "trainings_with_base_observer")
    ctx.replay(lambda c: replay(c, ctx.seed, [check_stop, check_insample, check_contrib], nobs=0), cases[:: ctx.pick(5, 2)], "trainings_unobserved")
    fittrace.validate(ctx, ctx.pick(160, 1600))


def c16(ctx):
    run_check(ctx, ["prior"], [check_insample, check_contrib, check_seen], "models_with_prior")


def c17(ctx):
    run_check(ctx, ["general"], [check_importance_refit], "importances_compared")


def replay_rate(case):
    """C26: one value of a schedule."""
    fn = {"one": learning_rate.constant_learn_rate_one, "linear": learning_rate.linear_learn_rate,
          "half": learning_rate.half_linear_learn_rate, "logistic": learning_rate.logistic_learn_rate}[case["kind"]]
    sat = 0.999999999

    def value(share):
        if case["kind"] != "logistic":
            return share
        return math.tanh(share * 0.5 * math.log((1 + sat) / (1 - sat)))

    bad = []
    for args in ((case["i"], case["max"]), (case["i"], case["max"], None)):
        got, err = guarded(lambda: float(fn(*args)))
        exp = value(case["rate"][0] / case["rate"][1])
        if err:
            bad.append(mism("schedule failed", err))
        elif not abs(got - exp) <= 1e-9:
            bad.append(mism("rate of pass %d of %d" % args[:2], got, exp))
        elif not 0 < got <= 1 + 1e-12:
            bad.append(mism("rate outside (0, 1]", got))
        elif case["i"] > 1:
            before, err = guarded(lambda: float(fn(case["i"] - 1, case["max"])))
            if err or before > got + 1e-12:
                bad.append(mism("rate decreases", [before, got]))
    return bad


def c26(ctx):
    r = ctx.tlc("LearnRate", "schedules", consts=dict(MaxPasses=ctx.pick(60, 200)),
                invariants=["InRange", "NeverDecreases", "StrictUntilOne", "ReachesOne", "HalfWay", "LinearLast", "Emit"])
    ctx.replay(replay_rate, r.cases, "rates_compared")
    run_check(ctx, ["rates"], [check_rates, check_seen, check_contrib], "trainings_with_rates")
