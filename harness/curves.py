"""C34: smoothers that fit curves, replayed from Curves and Neutral."""
from fractions import Fraction
from math import gcd

import numpy as np

from cyclic_boosting import utils
from cyclic_boosting.smoothing import extrapolate, multidim, onedim
from smooth import frac, mism, rng_of
from vlib import Raw, guarded, tla

TOL = 1e-6


def gram(n, top):
    """integer polynomials orthogonal on 0..n-1, as values at the bins and as coefficients"""
    out, coefs = [], []
    for k in range(min(top, n - 1) + 1):
        c = [Fraction(0)] * k + [Fraction(1)]
        val = lambda p, x: sum(a * x ** i for i, a in enumerate(p))
        for q in coefs:
            s = sum(val(q, x) ** 2 for x in range(n))
            f = sum(Fraction(x) ** k * val(q, x) for x in range(n)) / s
            c = [a - f * (q[i] if i < len(q) else 0) for i, a in enumerate(c)]
        v = [val(c, x) for x in range(n)]
        den = 1
        for x in v:
            den = den * x.denominator // gcd(den, x.denominator)
        num = 0
        for x in v:
            num = gcd(num, int(x * den))
        s = Fraction(den, num or 1)
        coefs.append([a * s for a in c])
        out.append([int(x * s) for x in v])
    return out, coefs


TOPS = {1: 0, 2: 1, 3: 2, 4: 3, 5: 4, 6: 5, 7: 6, 8: 7, 9: 7, 10: 9, 12: 5, 15: 4, 24: 3}
GRAM = {}
for _n, _t in TOPS.items():
    _g, _c = gram(_n, _t)
    # sums of squares have to stay within the integers of TLC
    _k = next((i for i, v in enumerate(_g) if sum(x * x for x in v) > 200000), len(_g))
    GRAM[_n] = (_g[:_k], _c[:_k])


def bases(ns):
    return Raw("{" + ", ".join("[n |-> %d, g |-> %s, sq |-> %s]" % (n, tla(GRAM[n][0]), tla([sum(x * x for x in g) for g in GRAM[n][0]])) for n in ns) + "}")


def waves(ns):
    # only the number of basis curves matters: constant and pairs of harmonics below half of the bins
    return Raw("{" + ", ".join("[n |-> %d, g |-> %s, sq |-> %s]" % (n, tla([[0] * n] * (1 + 2 * ((n - 1) // 2))), tla([0] * (1 + 2 * ((n - 1) // 2)))) for n in ns) + "}")


def poly(n, coef, x):
    x = np.asarray(x, float)
    return sum((c * np.polyval([float(a) for a in reversed(GRAM[n][1][k])], x) for k, c in enumerate(coef) if c), np.zeros_like(x))


def wave(n, coef, x):
    t = 2 * np.pi * np.asarray(x, float) / n
    res = np.zeros_like(t)
    for k, c in enumerate(coef):
        h = (k + 1) // 2
        res = res + c * (1.0 if k == 0 else np.sin(h * t) if k % 2 else np.cos(h * t))
    return res


def compare(bad, what, f, X, y, at, want):
    """fit and ask, on copies that have to stay as they are"""
    def run():
        s = f()
        X1, y1 = X.copy(), y.copy()
        s.fit(X1, y1)
        if not (np.array_equal(X1, X) and np.array_equal(y1, y)):
            raise AssertionError("fitting changed the caller's data")
        P = np.c_[np.asarray(at, float)]
        p = np.asarray(s.predict(P.copy()), float)
        single = np.array([float(np.asarray(s.predict(P[i: i + 1].copy()), float)[0]) for i in range(len(P))])
        if not np.allclose(p, single, rtol=1e-9, atol=1e-9, equal_nan=True):
            raise AssertionError("rows asked one by one: %s, together: %s" % (single, p))
        return p

    got, err = guarded(run)
    if err:
        bad.append(mism(what, err, want))
        return
    scale = 1 + np.max(np.abs(y)) + np.max(np.abs(want))
    if got.shape != want.shape or not np.all(np.abs(got - want) <= TOL * scale):
        bad.append(mism(what, got, want))


def table(n, sig, r, weights=None):
    w = np.full(n, 1.0) if weights is None else weights
    return np.c_[np.arange(n, dtype=float), w, sig]


def replay_curve(case, seed):
    r = rng_of(case, seed)
    bad, kind, n = [], case["kind"], case["n"]
    if case["tight"]:
        return {"skip": "decided within rounding"}
    if kind == "line":
        x, y, w = (np.array(c, float) for c in zip(*case["pts"]))
        a, b = map(frac, case["line"])
        eps = r.choice([1e-4, 1e-3])
        # weights are 1 / (variance + epsilon)
        unit = r.choice([1.0, 0.25, 3.0])
        X = np.c_[x, np.ones(len(x)), np.sqrt(unit / w - eps)]
        at = np.r_[x, -4, 2.5, 40]
        compare(bad, "linear extrapolation", lambda: extrapolate.LinearExtrapolator(epsilon=eps), X, y, at, a + b * at)
        if eps == 1e-4:
            compare(bad, "linear extrapolation, default epsilon", extrapolate.LinearExtrapolator, X, y, at, a + b * at)
        got, err = guarded(lambda: utils.linear_regression(x, y, w * unit))
        if err or not np.allclose(got, (a, b), rtol=1e-8, atol=1e-8):
            bad.append(mism("linear_regression", err or list(map(float, got)), [a, b]))
        return bad
    sig = np.full(n, 10 / np.sqrt(case["cert"]))
    bins = np.arange(n)
    far = np.r_[bins, -2.0, n + 3.0, (n - 1) / 2, 0.25]
    if kind in ("wave", "wave0"):
        y = wave(n, case["coef"], bins)
        mk = lambda: onedim.SeasonalSmoother(order=case["par"], offset_tozero=kind == "wave")
        if n < 2 * case["par"] + 1:
            v = r.choice([0.0, 0.75])
            compare(bad, "seasonal smoother with too few bins", lambda: onedim.SeasonalSmoother(order=case["par"], fallback_value=v), table(n, sig, r), y, far, np.full(len(far), v))
        else:
            compare(bad, "seasonal smoother of order %d" % case["par"], mk, table(n, sig, r, np.array([float(r.randrange(1, 9)) for _ in bins])), y, far, wave(n, case["kept"], far))
            # a curve of the family is reproduced whatever the uncertainties
            inside = [c if i <= 2 * case["par"] else 0 for i, c in enumerate(case["coef"])]
            uneven = np.array([r.choice([0.5, 1.0, 2.0]) for _ in bins])
            compare(bad, "seasonal smoother of order %d, exact curve" % case["par"], mk, table(n, uneven, r), wave(n, inside, bins), far, wave(n, case["kept"], far))
        return bad
    y = poly(n, case["coef"], bins)
    X = table(n, sig, r, np.array([float(r.randrange(0, 9)) for _ in bins]))
    if kind == "orth":
        order = list(range(n))
        if r.random() < 0.3:
            r.shuffle(order)
        compare(bad, "orthogonal polynomials", onedim.OrthogonalPolynomialSmoother, X[order], y[order], far, poly(n, case["kept"], np.clip(far, 0, n - 1)))
    elif kind == "poly":
        if case["par"] < n:
            compare(bad, "polynomial smoother of degree %d" % case["par"], lambda: onedim.PolynomialSmoother(k=case["par"]), X, y, far, poly(n, case["kept"], far))
    elif kind in ("lin", "linpos"):
        compare(bad, "linear smoother", lambda: onedim.LinearSmoother(fallback_when_negative_slope=kind == "linpos"), X, y, far, poly(n, case["kept"], far))
    elif kind == "exact":
        k = case["par"]
        want = poly(n, case["coef"], far)
        U = table(n, np.array([r.choice([0.5, 1.0, 2.0]) for _ in bins]), r, np.array([float(r.randrange(1, 5)) for _ in bins]))
        if k < n:
            compare(bad, "polynomial smoother, exact curve", lambda: onedim.PolynomialSmoother(k=k), U, y, far, want)
            compare(bad, "interpolating spline", lambda: onedim.UnivariateSplineSmoother(k=k, s=0), U, y, far, want)
            knots = sorted(r.sample([x + 0.5 for x in range(k, n - k - 1)], 1)) if n - k - 1 > k else []
            compare(bad, "spline with given knots", lambda: onedim.LSQUnivariateSpline(interior_knots=knots, degree=k), U, y, far, want)
        if k == 1 and n >= 2:
            compare(bad, "linear smoother, exact line", onedim.LinearSmoother, U, y, far, want)
            compare(bad, "linear extrapolation, exact line", extrapolate.LinearExtrapolator, U, y, far, want)
        for deg in (6, n, n + 1):
            _, err = guarded(lambda: onedim.LSQUnivariateSpline(interior_knots=[], degree=deg).fit(U.copy(), y.copy()))
            if not err or not err.startswith("ValueError"):
                bad.append(mism("spline of degree %d on %d bins" % (deg, n), err or "accepted", "ValueError"))
        # too few bins with samples: nothing seasonal is learned
        empty = np.array([float(r.random() < 0.7) for _ in bins])
        L = table(n, sig, r, empty)
        compare(bad, "seasonal lasso with too few bins", lambda: onedim.SeasonalLassoSmoother(min_days=int(empty.sum()) + 1), L, y, bins, np.zeros(n))
    return bad


def replay_neutral(case, seed):
    r = rng_of(case, seed)
    bad = []
    a, b = case["shape"]
    u = np.outer(case["rows"], case["cols"]) * r.choice([1.0, 0.5])
    v = np.array(case["vals"], float).reshape(a, b)
    want = np.array([frac(x) for x in case["res"]])
    # what single columns explain makes no difference
    v2 = v + np.array([[float(r.randrange(-3, 4))] for _ in range(a)]) + np.array([float(r.randrange(-3, 4)) for _ in range(b)])
    for what, t in (("", v), (" with added row and column effects", v2)):
        got, err = guarded(lambda: np.asarray(utils.neutralize_one_dim_influence(t.copy(), u.copy()), float).ravel())
        if err or not np.allclose(got, want, rtol=1e-8, atol=1e-8):
            bad.append(mism("neutralize_one_dim_influence" + what, err or got, want))
        X = np.array([[i, j, r.randrange(1, 5), u[i, j]] for i in range(a) for j in range(b)], float)

        def smoother():
            s = multidim.Neutralize2DMetaSmoother(multidim.BinValuesSmoother())
            s.fit(X.copy(), t.ravel().copy())
            return np.asarray(s.predict(X[:, :2].copy()), float)
        got, err = guarded(smoother)
        if err or not np.allclose(got, want, rtol=1e-8, atol=1e-8):
            bad.append(mism("smoother neutralising single columns" + what, err or got, want))
    _, err = guarded(lambda: multidim.Neutralize2DMetaSmoother(multidim.BinValuesSmoother()).fit(np.ones((2, 3)), np.ones(2)))
    if not err or not err.startswith("ValueError"):
        bad.append(mism("neutralising a single column", err or "accepted", "ValueError"))
    return bad


def replay_lasso(case, seed):
    """a wave with a little noise is recovered from the bins that have samples"""
    r = rng_of(case, seed)
    if abs(case["a"]) == abs(case["b"]) != 0:
        return {"skip": "tie_of_sine_and_cosine"}  # the path of the lasso is not determined
    a, b, q, f = case["a"], case["b"], case["q"], r.choice([1.0, 0.5])
    n = 4 * q + 1
    x = np.arange(n, dtype=float)
    wave = lambda v: f * (a * np.sin(np.pi * v / (2 * q)) + b * np.cos(np.pi * v / (2 * q)))
    y = wave(x) + 0.01 * f * np.array([r.choice([-1, 1]) for _ in x])
    cnt = np.array([float(r.randint(1, 5)) for _ in x])
    for i in case["empty"]:
        cnt[i], y[i] = 0.0, r.choice([0.0, 40.0, -7.0])
    asked = np.r_[x, np.array([t[0] * q for t in case["turns"]], float)]
    enough = r.random() < 0.8
    days = case["seen"] - r.choice([1, 3]) if enough else case["seen"] + r.choice([1, 20])
    want = np.r_[wave(x), np.array([f * t[1] for t in case["turns"]])] if enough else np.zeros(len(asked))
    X, y0 = np.c_[x, cnt, np.ones(n)], y.copy()
    est = onedim.SeasonalLassoSmoother(min_days=max(days, 1))
    got, err = guarded(lambda: est.fit(X, y).predict(np.c_[asked]))
    bad = []
    if err or np.shape(got) != want.shape or not np.all(np.abs(got - want) <= (0.12 * f if enough else 0)):
        bad.append(mism("seasonal lasso", err or got, want, enough=enough))
    if not np.array_equal(y, y0) or not np.array_equal(X, np.c_[x, cnt, np.ones(n)]):
        bad.append(mism("table handed to the seasonal lasso was changed"))
    return bad


def c34(ctx):
    inv = ["Orthogonal", "Closest", "Reproduced", "Smallest", "LineOk", "Emit"]
    base = dict(Coefs=set(range(-3, 4)), Top=9, Certs={100}, Points=Raw("0..6"))

    def run(label, n=0, **kw):
        sim = dict(simulate=n, depth=30) if n else {}
        return ctx.tlc("Curves", label, consts=dict(base, **kw), invariants=inv, **sim).cases

    cases = run("orthogonal polynomials", ctx.pick(2500, 25000), Kinds={"orth"}, Bases=bases([4, 5, 6, 7, 8, 9, 10, 12, 15, 24]), Certs={1, 4, 25, 100, 400}, Coefs=Raw("{-2, -1, 0, 1}"))
    cases += run("orthogonal polynomials, uncertain bins", ctx.pick(1500, 15000), Kinds={"orth"}, Bases=bases([5, 6, 7, 8, 9, 10, 12]), Certs={1, 2, 3}, Coefs=Raw("-2..2"))
    cases += run("few bins, exhaustive", Kinds={"orth", "lin", "linpos", "poly"}, Bases=bases([1, 2, 3, 4]), Certs={25, 100}, Coefs=Raw("{-1, 0, 2}"))
    cases += run("polynomials and splines", ctx.pick(1500, 15000), Kinds={"poly", "lin", "linpos", "exact"}, Bases=bases([2, 3, 4, 5, 6, 8, 12]), Certs={25, 100})
    cases += run("seasonal curves", ctx.pick(800, 8000), Kinds={"wave", "wave0"}, Bases=waves([2, 3, 4, 5, 7, 8, 12, 13]), Certs={25, 100})
    cases += run("weighted lines", ctx.pick(1200, 12000), Kinds={"line"}, Bases=bases([2, 3, 4, 6]))
    seed = ctx.seed
    ctx.replay(lambda c: replay_curve(c, seed), cases, "curves")
    inv = ["NoRowShift", "NoColShift", "Contrast", "Emit"]
    cases = ctx.tlc("Neutral", "small tables, exhaustive", consts=dict(Shapes={(1, 2), (2, 1), (2, 2)}, Values={-1, 0, 3}, Parts={1, 3}), invariants=inv).cases
    cases += ctx.tlc("Neutral", "tables", consts=dict(Shapes={(2, 3), (3, 3), (4, 2), (3, 5)}, Values=Raw("-6..6"), Parts={1, 2, 5}), simulate=ctx.pick(600, 6000), depth=40, invariants=inv).cases
    ctx.replay(lambda c: replay_neutral(c, seed), cases, "tables")
    inv = ["Yearly", "HalfYear", "Emit"]
    cases = ctx.tlc("Wave", "yearly waves", consts=dict(Amps={-2, 0, 1, 3}, Quarters={3, 4, 6}, MaxEmpty=1, MaxTurns=7), invariants=inv).cases
    cases += ctx.tlc("Wave", "waves with gaps", consts=dict(Amps={-3, -1, 0, 2}, Quarters={4, 7, 12}, MaxEmpty=4, MaxTurns=9), simulate=ctx.pick(300, 3000), depth=16, invariants=inv).cases
    ctx.replay(lambda c: replay_lasso(c, seed), cases, "noisy waves")
