"""Trainings of the real estimators, recorded and validated by TLC against spec/FitTrace.tla."""
import copy
import inspect
import json
import random
import warnings

import numpy as np

from cyclic_boosting import common_smoothers, flags
import families
from smooth import mism
from vlib import MachineryError, guarded, pmap

UNIT = 1e-5
FLAGS = [flags.IS_CONTINUOUS, flags.IS_UNORDERED, flags.IS_ORDERED, flags.IS_LINEAR, flags.IS_SEASONAL,
         flags.IS_MONOTONIC, flags.IS_MONOTONIC | flags.INCREASING, flags.IS_MONOTONIC | flags.DECREASING]
LINKS = {"poisson": "log", "nbinom": "log", "location": "id", "locpoisson": "own", "classifier": "logit", "gbs": "id",
         "mquantile": "log", "aquantile": "id", "mgeneric": "log", "ageneric": "id", "gclassifier": "logit", "nbinomc": "logit"}
EVENTS = []
PUSH = [1.0]  # exaggerates estimates, to provoke divergence


def q(v):
    return [int(round(float(x) / UNIT)) for x in v]


class Watch:
    """observer writing down what it is told"""

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        EVENTS.append(("pass", int(iteration), np.array(prediction, dtype=float), float(estimator_state["insample_loss"]), float(delta)))

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        EVENTS.append(("feat", int(iteration), int(feature_i)))


def recording(cls):
    def calc_parameters(self, feature, y, pred, prefit_data):
        EVENTS.append(("est", tuple(feature.feature_group), np.array(pred.predict_link(), dtype=float)))
        factors, uncertainties = cls.calc_parameters(self, feature, y, pred, prefit_data)
        return factors * PUSH[0], uncertainties

    return type("Recording" + cls.__name__, (cls,), {"calc_parameters": calc_parameters})


RECORDING = {f.name: recording(f.cls) for f in families.FAMILIES}


def configuration(r, names, fix):
    name = r.choice(names)
    fam = families.BY_NAME[name]
    cols = ["a", "b", "c"][: r.randint(1, 3)]
    n = r.randint(6, 14) if fam.slow else r.randint(6, 28)
    tops = [r.randint(0, 4) for _ in cols]
    miss = r.choice([0.0, 0.0, 0.2, 0.4])
    rows = [[-1 if r.random() < miss else r.randint(0, t) for t in tops] for _ in range(n)]
    groups = [[i + 1] for i in range(len(cols))]
    if len(cols) > 1 and r.random() < 0.4:
        groups.append([1, 2] if r.random() < 0.7 else [2, 1])
    if len(cols) > 2 and r.random() < 0.2:
        groups.append([3, 1])
    r.shuffle(groups)
    groups = groups[: r.randint(1, len(groups))]
    cm = [r.random() < fix.get("pmnl", 0.3) for _ in cols]
    hier = fam.hier and r.random() < fix.get("phier", 0.2)
    feats = [dict(cols=g, mnl=any(cm[c - 1] for c in g), hier=False, ext=False) for g in groups]
    if hier:
        for f in r.sample(range(len(groups)), r.randint(1, len(groups))):
            feats[f]["hier"] = True
    flagged = [r.choice(FLAGS) | (flags.MISSING_NOT_LEARNED if m else flags.HAS_MISSING) for m in cm]
    return dict(family=name, cols=cols, rows=rows, feats=feats, flags=[int(x) for x in flagged], hier=hier, K=r.choice([3, 3, 1, 2]),
                agg=r.random() < 0.75, max=r.choice([1, 2, 3, 5, 8]), minL=r.choice([[-1, 1], [-1, 1], [1, 20], [1, 100], [3, 1000]]),
                minF=r.choice([-1, -1, 10, 300, 3000]), rate=r.randrange(len(families.LR)), weight=fam.weight and r.random() < 0.4,
                prior=fam.prior and r.random() < 0.3, smoothed=r.random() < 0.7, as_nan=r.random() < 0.5, push=r.choice(fix.get("push", [1.0])), seed=r.randrange(10 ** 6))


def record(conf, ident):
    """run the training; returns a trace for FitTrace.tla, or the reason why there is none"""
    r = random.Random(conf["seed"])
    fam = families.BY_NAME[conf["family"]]
    link = LINKS[conf["family"]]
    takes = inspect.signature(fam.cls.__init__).parameters
    if "training_iterations_hierarchical_features" not in takes:
        conf = dict(conf, K=3)
    n = len(conf["rows"])
    X = families.table(r, n, cols=(), missing=0)
    y = families.target(r, n, fam.y)

    def frame(rows, rest):
        df = rest.copy()
        for i, c in enumerate(conf["cols"]):
            df[c] = [float(x[i]) for x in rows]
            if conf["as_nan"]:
                df.loc[df[c] < 0, c] = np.nan
        return df

    def tolink(p):
        p = np.asarray(p, float)
        with np.errstate(all="ignore"):
            if link == "own":
                return np.asarray(fam.make(feature_groups=["a"]).link_func(p), float)
            return np.log(p) if link == "log" else np.log(p / (1 - p)) if link == "logit" else p

    def groups(sel=lambda f: True):
        g = [tuple(conf["cols"][c - 1] for c in f["cols"]) for f in conf["feats"] if sel(f)]
        return [x[0] if len(x) == 1 else x for x in g]

    data = frame(conf["rows"], X)
    kw = dict(feature_groups=groups(), feature_properties=dict(zip(conf["cols"], conf["flags"])),
              observers=[Watch()], maximal_iterations=conf["max"], minimal_factor_change=conf["minF"] * UNIT,
              minimal_loss_change=conf["minL"][0] / conf["minL"][1], learn_rate=families.LR[conf["rate"]], aggregate=conf["agg"],
              output_column="out")
    if not conf["smoothed"]:
        kw["smoother_choice"] = common_smoothers.NoSmootherChoice(use_regression_type=False, use_normalization=False)
    if conf["weight"]:
        kw["weight_column"] = "w"
    if conf["prior"]:
        kw["prior_prediction_column"] = "prior"
        if link == "logit":
            data["prior"] = X["prior"] = X["prior"] / 4
    if conf["hier"]:
        kw["hierarchical_feature_groups"] = groups(lambda f: f["hier"])
        if "training_iterations_hierarchical_features" in takes:
            kw["training_iterations_hierarchical_features"] = conf["K"]
    if fam.name == "nbinomc":
        kw.pop("aggregate")
        conf = dict(conf, agg=True)
    names = [tuple(conf["cols"][c - 1] for c in f["cols"]) for f in conf["feats"]]
    del EVENTS[:]
    PUSH[0] = conf["push"]

    def train():
        est = RECORDING[fam.name](**dict(fam.own, **kw))
        return est, np.asarray(est.fit_transform(data.copy(), y)["out"], float)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res, err = guarded(train, 60)
        events = list(EVENTS)
        if err and "ConvergenceError" not in err:
            return {"failed": err}
        if not any(e[0] == "pass" for e in events):
            return {"skip": "nothing recorded"}
        first = next(e for e in events if e[0] == "pass")
        loss0 = first[3]
        if not loss0 > 1e-9:
            return {"skip": "no loss at the start"}
        out = []
        for e in events:
            if e[0] == "pass":
                out.append(dict(ev="pass" if e[1] >= 0 else "end", it=e[1], shown=tolink(e[2]), loss=e[3] / loss0, delta=e[4]))
            elif e[0] == "est":
                out.append(dict(ev="est", f=names.index(e[1]) + 1, seen=e[2], told=[]))
            elif out and out[-1]["ev"] == "est":
                out[-1]["told"].append([e[1], e[2]])
            else:
                return {"failed": "observer told about an estimation before any"}
        final = dict(passes=0, stop=[False] * 3, insample=[], predict=[], contrib=[], probes=[])
        if err:
            # the warning that training did not converge comes after the end
            late = bool(out) and out[-1]["ev"] == "end"
            if late:
                out.pop()
            out.append(dict(ev="error", final=late))
        else:
            est, insample = res
            done, err = guarded(lambda: finished(est, insample, conf, r, frame, X, tolink), 60)
            if err:
                return {"failed": err}
            final.update(done)
    if out[0]["ev"] != "pass":
        return {"failed": "estimation before the first pass is announced"}
    base = out[0]["shown"]
    values = [base, *[e[k] for e in out for k in ("shown", "seen") if k in e], final["insample"], final["predict"], *final["contrib"],
              [p["value"] for p in final["probes"]]]
    if any(len(v) and (not np.isfinite(v).all() or np.abs(v).max() > (7 if link == "logit" else 40)) for v in map(np.asarray, values)):
        return {"skip": "out of range"}
    if any(not np.isfinite(e.get("loss", 0)) or e.get("loss", 0) < -20 for e in out):
        return {"skip": "out of range"}
    for e in out:
        for key in ("shown", "seen"):
            if key in e:
                e[key] = q(e[key])
        if "loss" in e:
            e["loss"] = int(round(min(e["loss"], 20.0) / UNIT))  # of a diverging pass only the size counts
            e["delta"] = int(round(min(e["delta"], 100.0) / UNIT))
    final.update(insample=q(final["insample"]), predict=q(final["predict"]), contrib=[q(c) for c in final["contrib"]],
                 probes=[dict(p, value=q([p["value"]])[0]) for p in final["probes"]])
    cfg = dict(rows=conf["rows"], feats=conf["feats"], w=[1] * n, prior=[], link="log" if link == "log" else "id", floor=link == "own", agg=conf["agg"],
               disc=False, loss="observed", K=conf["K"], max=conf["max"], minL=conf["minL"], minF=conf["minF"], rate=dict(kind="one", tab=[]))
    return dict(id=ident, cfg=cfg, base=q(base), loss0=int(round(1 / UNIT)), events=out, final=final, conf=conf)


def finished(est, insample, conf, r, frame, X, tolink):
    """what the trained model says about its training rows and about probes"""
    def predict(df):
        if hasattr(est, "predict_proba"):
            return np.asarray(est.predict_proba(df), float)[:, 1]
        return est.predict(df)

    data = frame(conf["rows"], X)
    if hasattr(est, "predict_proba"):
        insample = predict(data)  # fit_transform gives labels
    contrib = est.get_feature_contributions(data)
    # keyed in the order of the groups
    keys = [" ".join(conf["cols"][c - 1] for c in f["cols"]) for f in conf["feats"]]
    n = len(conf["rows"])
    probes = []
    for _ in range(12):
        i = r.randrange(n)
        row = list(conf["rows"][i])
        for j in r.sample(range(len(row)), r.randint(1, len(row))):
            row[j] = r.choice([-1, 9, row[j], conf["rows"][r.randrange(n)][j]])
        probes.append((i, row))
    rest = X.iloc[[i for i, _ in probes]].reset_index(drop=True)
    pp = tolink(predict(frame([p for _, p in probes], rest)))
    return dict(passes=int(est.iteration_), stop=[bool(x) for x in est.stop_criteria_], insample=tolink(insample),
                predict=tolink(predict(data)), contrib=[tolink(np.asarray(contrib[k], float)) for k in keys],
                probes=[dict(r=i + 1, row=row, value=float(v)) for (i, row), v in zip(probes, pp)])


def corrupted(t, r):
    """the same trace with one recorded value changed; returns it and the clauses it may break"""
    t = copy.deepcopy(t)
    kind = r.choice(["seen", "contrib", "predict", "order", "told", "told"])
    ests = [e for e in t["events"] if e["ev"] == "est"]
    if not ests or t["events"][-1]["ev"] == "error":
        return None
    if kind == "seen":
        e = r.choice(ests)
        e["seen"][r.randrange(len(e["seen"]))] += 700
    elif kind == "contrib":
        c = r.choice(t["final"]["contrib"])
        c[r.randrange(len(c))] += 700
    elif kind == "predict":
        c = t["final"]["predict"]
        c[r.randrange(len(c))] -= 700
    elif kind == "order":
        i = t["events"].index(r.choice(ests))
        del t["events"][i]
    else:
        r.choice(ests)["told"][0][0] += 1
    t["id"] += 1000000
    return t


def validate(ctx, num, names=None, **fix):
    """record num trainings, let TLC judge them, report the clauses of this property"""
    prop = ctx.prop
    r = random.Random(ctx.seed * 7919 + sum(map(ord, prop)))
    fast = ["poisson", "nbinom", "location", "locpoisson", "classifier", "gbs", "nbinomc"]
    names = names or fast * 4 + ["mquantile", "aquantile", "mgeneric", "ageneric", "gclassifier"]
    confs = [configuration(r, names, fix) for _ in range(num)]
    res = pmap(lambda c: record(c[1], c[0]), list(enumerate(confs)))
    traces, failed = [], []
    for c, t in zip(confs, res):
        if "failed" in t:
            failed.append((c, t["failed"]))
        elif "skip" in t:
            ctx.count("trainings_left_out_" + t["skip"].replace(" ", "_"))
        else:
            traces.append(t)
    if not traces:
        raise MachineryError("no training could be recorded: %s" % failed[:1])
    bad_copies = [c for c in (corrupted(t, r) for t in traces[:: max(1, len(traces) // 12)]) if c]
    text = "".join(json.dumps({k: v for k, v in t.items() if k != "conf"}) + "\n" for t in traces + bad_copies)
    run = ctx.tlc("FitTrace", "recorded trainings", init="TInit", next_="TNext", invariants=["Report", "Judged"],
                  consts=dict(Configs=set(), Random=False, LnTab=[]), files={"traces.ndjson": text})
    verdicts = {c["id"]: c for c in run.cases}
    for t in traces + bad_copies:
        if t["id"] not in verdicts:
            raise MachineryError("no verdict on trace %s" % t["id"])
    for t in bad_copies:
        if not verdicts[t["id"]]["bad"]:
            raise MachineryError("a corrupted trace was accepted: %s" % t["id"])
    for t in traces:
        v = verdicts[t["id"]]
        ctx.count("recorded_updates_judged", v["updates"])
        for name in sorted(v["bad"]):
            if name.startswith(prop) or (prop == "C08" and v["diverging"]):
                ctx.violation(mism("recorded training of %s: %s" % (t["conf"]["family"], name), sorted(v["bad"]), "no clause broken"), t["conf"])
    for c, err in failed:
        ctx.violation(mism("training of %s" % c["family"], err), c)
    ctx.validated += len(traces)
    ctx.count("recorded_trainings_validated", len(traces))
    ctx.count("corrupted_traces_rejected", len(bad_copies))
    ctx.count("recorded_trainings_with_divergence", sum(1 for t in traces if verdicts[t["id"]]["diverging"]))
    print("recorded trainings: %d validated, %d corrupted copies rejected" % (len(traces), len(bad_copies)))
    return [verdicts[t["id"]] for t in traces], failed
