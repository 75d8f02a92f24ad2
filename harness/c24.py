"""C24: the regression helpers."""
import numpy as np
import sklearn.linear_model
import sklearn.preprocessing

import lingam.utils as ut
from symx.core import S
from symx.run import harness

from .fakes import module_env, vec
from .lib import arr, dice, matrix

META = {
    "bounds": "2-4 predictors, 5-7 rows; every first-step coefficient, every lasso coefficient and every final coefficient; "
              "every data set of 3 rows and 2-3 variables for variance and likelihood",
    "outside": "more variables; the numerical value of a lasso or least-squares fit",
    "assumptions": ["least squares and the lasso return arbitrary coefficients per (predictors, target)"],
}
CUR = {}


def columns(X):
    X = np.asarray(X)
    return [list(X[:, k]) for k in range(X.shape[1])]


def which(v):
    """(kind, index) of the column: 's' standardised, 'r' as given."""
    for kind in "rs":
        M = CUR[kind]
        for k in range(M.shape[1]):
            if len(v) == len(M) and all(not hasattr(x, "n") and abs(float(x) - M[r, k]) < 1e-9 for r, x in enumerate(v)):
                return kind, k
    return None


def coef(c, cfg, name):
    # integer arrays cannot hold open values
    return np.float64(round(16 * dice(3, name)[0]) / 8 + 1 / 16) if cfg.get("fixed") else c.real(name)


def env(c, cfg):
    CUR.clear()
    CUR.update(unknown=0, fits=[])

    class Linear:
        def __init__(self, *, fit_intercept=True, **k):
            self.intercept = fit_intercept

        def fit(self, X, y, sample_weight=None):
            P, t = [which(v) for v in columns(X)], which(list(np.asarray(y).ravel()))
            if not P:
                raise ValueError("no features")
            if t is None or None in P or len({k for k, _ in P} | {t[0]}) > 1:
                CUR["unknown"] += 1
                name, P = f"?{CUR['unknown']}", [("?", k) for k in range(len(P))]
            else:
                name = f"{t[0]}{t[1]}|{''.join(str(k) for _, k in sorted(P))}"
            self.coef_ = vec(c, [coef(c, cfg, f"b{name}<{k}") for _, k in P])
            self.intercept_ = coef(c, cfg, "b" + name) if self.intercept else 0.0
            return self

        def predict(self, X):
            return vec(c, [sum((w * x for w, x in zip(self.coef_, row)), self.intercept_) for row in zip(*columns(X))])

    class Lasso:
        def __init__(self, criterion="aic", **k):
            c.check(criterion == "bic", "predictors are dropped by the BIC")

        def fit(self, X, y, **k):
            CUR["fits"].append((columns(X), list(np.asarray(y).ravel())))
            self.coef_ = vec(c, [c.real(f"lasso{k}") for k in range(np.shape(X)[1])])
            return self
    return module_env(sklearn.linear_model, LinearRegression=Linear, LassoLarsIC=Lasso)


def data(n, rows, seed, dtype=float):
    rng = np.random.RandomState(seed)
    X = rng.randint(-20, 20, (rows, n)) + 3 * np.arange(n)
    CUR["r"] = X.astype(float)
    CUR["s"] = (CUR["r"] - CUR["r"].mean(axis=0)) / CUR["r"].std(axis=0)
    return X.astype(dtype)


@harness("C24", [dict(n=3, P=(0, 1), t=2), dict(n=3, P=(2, 0), t=1, gamma=2.0), dict(n=4, P=(3, 1, 0), t=2),
                 dict(n=4, P=(1,), t=0), dict(n=5, P=(4, 2, 0, 3), t=1, dtype=int), dict(n=3, P=(0, 2), t=1, gamma=1.0, lst=True)], env=env)
def adaptive_lasso(c, cfg):
    X = data(cfg["n"], cfg.get("rows", 6), 5, cfg.get("dtype", float))
    before = X.copy()
    P, t, g = list(cfg["P"]), cfg["t"], cfg.get("gamma")
    kw = {} if g is None else {"gamma": g}
    coef = ut.predict_adaptive_lasso(X, P if cfg.get("lst") else np.array(P), t, **kw)
    c.check(np.array_equal(X, before), "the data are not modified")
    c.check(np.shape(coef) == (len(P),), "one coefficient per predictor")
    c.check(len(CUR["fits"]) == 1, "one lasso fit")
    allp = "".join(map(str, sorted(P)))
    w = [abs(c.real(f"bs{t}|{allp}<{p}")) for p in P]
    w = w if g != 2.0 else [v * v for v in w]
    cols, y = CUR["fits"][0]
    c.check(len(cols) == len(P), "the lasso sees every predictor")
    for k, p in enumerate(P):
        for r in range(len(X)):
            c.check_close(cols[k][r], np.float64(CUR["s"][r, p]) * w[k], f"predictor {p} of the lasso: standardised, weighted by its first coefficient")
    for r in range(len(X)):
        c.check(abs(float(y[r]) - CUR["s"][r, t]) < 1e-9, "the target of the lasso: standardised")
    kept = [p for k, p in enumerate(P) if bool(c.real(f"lasso{k}") * w[k] != 0)]
    for k, p in enumerate(P):
        want = c.real(f"br{t}|{''.join(map(str, sorted(kept)))}<{p}") if p in kept else 0.0
        c.check_eq(coef[k], want, f"predictor {p}: zero if dropped, otherwise the least-squares coefficient among the kept ones")


@harness("C24", [dict(n=3, R=(0,)), dict(n=3, R=(2, 0)), dict(n=4, R=(1, 3), dtype=int, fixed=True), dict(n=4, R=(2,), dtype=float, fixed=True), dict(n=4, R=(2, 3)), dict(n=4, R=(3, 1, 0)),
                 dict(n=2, R=(0, 1))], env=env)
def removed(c, cfg):
    X = data(cfg["n"], 5, 9, cfg.get("dtype", float))
    X = X if cfg.get("fixed") else arr(c, X)
    before, R, n = CUR["r"].copy(), list(cfg["R"]), cfg["n"]
    rest = [i for i in range(n) if i not in R]
    key = "".join(map(str, sorted(R)))
    out, coefs = ut.remove_effect(X, R, return_coefs=True)
    only = ut.remove_effect(X, np.array(R))
    c.check(all(not isinstance(v, S) and float(v) == before[k] for k, v in np.ndenumerate(X)), "the data are not modified")
    c.check(np.shape(out) == X.shape and np.shape(only) == X.shape, "the shape of the data")
    c.check(sorted(int(k) for k in coefs) == rest, "coefficients for the remaining variables")
    for i in range(n):
        b = [coef(c, cfg, f"br{i}|{key}<{r}") for r in R]
        if i in rest:
            c.check(len(coefs[i]) == len(R), "one coefficient per removed variable")
            for k, r in enumerate(R):
                c.check_eq(coefs[i][k], b[k], f"the coefficient of {r} for {i}")
        for s in range(len(X)):
            want = np.float64(CUR["r"][s, i])
            if i in rest:
                want = want - (sum((w * np.float64(CUR["r"][s, r]) for w, r in zip(b, R)), coef(c, cfg, f"br{i}|{key}")))
            c.check_eq(out[s, i], want, f"variable {i}, row {s}")
            c.check_eq(only[s, i], want, f"variable {i}, row {s} (coefficients not returned)")


@harness("C24", [dict(n=2, i=0), dict(n=2, i=1), dict(n=3, i=1)], env=env)
def density(c, cfg):
    n, i, m = cfg["n"], cfg["i"], 3
    X = matrix(c, "x", n, m, lo=-8, hi=8)
    b = arr(c, [0.0 if k == i else c.real(f"b{k}", lo=-4, hi=4) for k in range(n)])
    r = [X[i, s] - sum(b[k] * X[k, s] for k in range(n) if k != i) for s in range(m)]
    mean = sum(r) / m
    var = sum((v - mean) * (v - mean) for v in r) / m
    v = ut.variance_i(X, i, b)
    c.check_eq(v, var, "the empirical variance of the disturbance")
    s = c.real("s")
    p = ut.log_p_super_gaussian(arr(c, [s, -s, 0.0]))
    c.check_close(p[0], -np.sqrt(2.0) * abs(s) - 0.35, "the log-density of a unit-variance Laplace variable")
    c.check_close(p[1], p[0], "the density is symmetric")
    c.check_close(p[2], -0.35, "the density at 0")


@harness("C24", [dict(n=1, i=0, r=(0, 4, 0, 4)), dict(n=2, i=0, r=(1, 5, 5, 1)), dict(n=2, i=1, r=(-2, 2)), dict(n=3, i=1, r=(-7, 9, 9, -7)),
                 dict(n=3, i=2, r=(0.5, 0, 0, 0.5))], env=env)
def likelihood(c, cfg):
    """Disturbances of known variance; parents, coefficients and constant are arbitrary."""
    n, i, r = cfg["n"], cfg["i"], cfg["r"]
    m = len(r)
    X = matrix(c, "x", n, m)
    b = arr(c, [0.0 if k == i else c.real(f"b{k}") for k in range(n)])
    for s in range(m):
        X[i, s] = np.float64(r[s]) + sum(b[k] * X[k, s] for k in range(n) if k != i)
    b0 = c.real("b0")
    sd = float(np.std(np.array(r, dtype=float)))
    want = sum(-np.sqrt(2.0) / sd * abs(v - b0) - 0.35 for v in r) - m * np.log(sd)
    c.check_close(ut.likelihood_i(X, i, b, b0), want, "the log-likelihood of the variable")
