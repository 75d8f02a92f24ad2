"""C22: a fit depends on the numbers it is given and on nothing else."""
import itertools

import numpy as np
import pandas as pd
import pygam
import scipy.optimize
import scipy.stats
import sklearn.decomposition
import statsmodels.tsa.statespace.varmax
import statsmodels.tsa.vector_ar.var_model

import lingam
import lingam.hsic
import lingam.utils
from lingam.base import _BaseLiNGAM
from symx import arr as symarr
from symx.core import S
from symx.run import harness

from .c26 import GAMMA, flt, root, snap
from .c27 import Reg
from .fakes import Chi2, module_env, vec
from .lib import dice, isnan, same, zeros

META = {
    "bounds": "3-4 variables, 8-10 rows of integer-valued data, one or two groups; 10-40 % of the test outcomes (p-values, "
              "statistics, entropies), of the AR/MA coefficients or of the unmixing matrix open, the others fixed; the data "
              "given as float or integer array, nested list, DataFrame, Fortran-ordered and strided array, and to a model "
              "that was fitted to other data before",
    "outside": "more variables; sparse and missing data; models whose result is random by design",
    "assumptions": ["every test and every external estimator is an arbitrary function of the numbers it is given"],
}
HSIC, FCORR = lingam.hsic.hsic_test_gamma, lingam.utils.f_correlation
LSA = scipy.optimize.linear_sum_assignment
CUR = {}


def key(kind, *vs, sign=False):
    """The name of a question: the same numbers have the same name."""
    vs = [np.array(np.asarray(v).tolist(), dtype=float) for v in vs]
    for k, (kd, ws) in enumerate(CUR["reg"]):
        if kd == kind and len(vs) == len(ws) and all(v.shape == w.shape for v, w in zip(vs, ws)) and (
                all(np.allclose(v, w, rtol=1e-6, atol=1e-7) for v, w in zip(vs, ws)) or
                (sign and all(np.allclose(v, -w, rtol=1e-6, atol=1e-7) for v, w in zip(vs, ws)))):
            return f"{kind}{k}"
    CUR["reg"].append((kind, vs))
    k = f"{kind}{len(CUR['reg']) - 1}"
    if CUR["open"]:
        CUR["free"].add(k)
    return k


def value(c, cfg, k, fixed):
    if k in CUR["free"] and dice(cfg["seed"], k)[0] < cfg["frac"]:
        return c.real(k, lo=0, hi=None if k[0] in "Lt" else 1)
    return np.float64(fixed(dice(cfg["seed"], k)[1]))


def facade(c, cfg):
    base = symarr.make_facade()

    def cosh(x, *a, **kw):
        if np.ndim(x) != 1:
            raise NotImplementedError("cosh")
        k = key("L", flt(x), sign=True)
        C = c.real("C" + k, lo=1)
        CUR["log"][(C.n, C.q)] = GAMMA + root(value(c, cfg, k, lambda v: round(1 + 3 * v, 3)))
        return vec(c, [C] * len(x))

    def log(x, *a, **kw):
        if isinstance(x, np.ndarray) and x.size and all(isinstance(e, S) and (e.n, e.q) in CUR["log"] for e in x.flat):
            return vec(c, [CUR["log"][(e.n, e.q)] for e in x.flat])
        return base.log(x, *a, **kw)

    def exp(x, *a, **kw):
        if np.ndim(x) != 1:
            return np.exp(flt(x))
        return np.zeros(len(x))

    def mean(x, *a, **kw):
        return snap(base.mean(x, *a, **kw))
    return symarr.Facade(np, dict(base._over, cosh=cosh, exp=exp, log=log, mean=mean))


class LGAM:
    def __init__(self, *a, **k):
        pass

    def fit(self, X, y):
        self.r = Reg().fit(np.asarray(X, dtype=float).reshape(len(y), -1), y)
        return self

    def predict(self, X):
        return self.r.predict(np.asarray(X, dtype=float).reshape(len(X), -1))


class Inner(_BaseLiNGAM):
    """The instantaneous model of a time series: any function of the residuals."""

    def fit(self, X):
        c, n = CUR["c"], np.shape(X)[1]
        k = key("I", X)
        o = list(range(n)) if dice(1, k)[0] < 0.5 else list(range(n))[::-1]
        B = zeros(c, n, n)
        for a in range(n):
            for b in range(a):
                B[o[a], o[b]] = coefficient(c, CUR["cfg"], f"{k}_{o[a]}_{o[b]}", k)
        self._causal_order, self._adjacency_matrix = o, B
        return self


def coefficient(c, cfg, name, k):
    u, v = dice(cfg["seed"], name)
    if k in CUR["free"] and u < cfg["frac"]:
        return c.real(name, nonzero=True)
    return np.float64(round(8 * v - 4) / 8 + 1 / 16)


def env(c, cfg):
    CUR.clear()
    CUR.update(c=c, cfg=cfg, reg=[], open=False, free=set(), log={})
    if cfg["k"] in ("direct", "mgdirect", "long"):
        return [(np, facade(c, cfg))] if c.symbolic else []

    def shapiro(v, *a, **k):
        return 0.0, value(c, cfg, key("s", v), lambda v: float(v < 0.05))

    def pearson(a, b, *r, **k):
        return 0.0, value(c, cfg, key("c", a, b), lambda v: float(v < 0.15))

    def hsic(X, Y, *a, **kw):
        k = key("p", X, Y)
        return (value(c, cfg, "t" + k, lambda v: round(v, 3)) if cfg["k"] in ("resit", "bottomup") else 0.0,
                value(c, cfg, k, lambda v: float(v < 0.35)))

    def fcorr(X, Y, *a, **k):
        return value(c, cfg, key("f", X, Y), lambda v: round(v, 3))

    def bfgs(*a, **k):
        return np.array([0.3, -0.2, 0.1, 0.4][:len(k.get("x0", a[1] if len(a) > 1 else None))]), 0.0, {}

    class FastICA:
        def __init__(self, *a, **k):
            pass

        def fit(self, X):
            k, n = key("W", X), np.shape(X)[1]
            W = zeros(c, n, n)
            for i in range(n):
                for j in range(n):
                    W[i, j] = coefficient(c, cfg, f"{k}_{i}_{j}", k) if i != j else np.float64(4.0 + i)
            self.components_ = W
            return self

    def lsa(cost, maximize=False):
        """An optimal assignment."""
        if not c.symbolic:
            return LSA(np.asarray(cost, dtype=float), maximize=maximize)
        n, best, bp = len(cost), None, None
        for p in itertools.permutations(range(n)):
            v = cost[0, p[0]]
            for i in range(1, n):
                v = v + cost[i, p[i]]
            if best is None or bool(v > best if maximize else v < best):
                best, bp = v, p
        return np.arange(n), np.array(bp)

    class Res:
        pass

    def fitted(X, p, q):
        n = np.shape(X)[1]
        k = key("V", X)
        r = Res()

        def mats(m, t):
            M = zeros(c, m, n, n)
            for a in range(m):
                for i in range(n):
                    for j in range(n):
                        M[a, i, j] = coefficient(c, cfg, f"{k}{t}{a}_{i}_{j}", k)
            return M
        r.coefs, r.k_ar = mats(p, "a"), p
        rows = len(X) - p if q is None else len(X)
        rng = np.random.RandomState(int(dice(3, k)[0] * 1000))
        r.resid = np.round(rng.uniform(-1, 1, (rows, n)) * 64) / 64
        r.coefficient_matrices_var, r.coefficient_matrices_vma = r.coefs, mats(q or 0, "m")
        r.specification = {"order": (p, q)}
        crit = (c.real(f"crit{k}_{p}_{q}", lo=-4, hi=4) if cfg.get("crit") else dice(4, f"{k},{p},{q}")[0])
        r.aic = r.bic = r.hqic = r.fpe = crit
        return r

    class VAR:
        def __init__(self, X, *a, **k):
            self.X = X

        def fit(self, maxlags=None, ic=None, *a, **k):
            # the order is selected when a criterion is given
            k_ = key("V", self.X)
            return fitted(self.X, 1 + int(dice(5, k_)[0] * maxlags) if ic is not None else maxlags, None)

    class VARMAX:
        def __init__(self, X, order=None, *a, **k):
            self.X, self.order = X, order

        def fit(self, *a, **k):
            return fitted(self.X, *self.order)
    out = (module_env(scipy.stats, shapiro=shapiro, pearsonr=pearson, chi2=Chi2)
           + module_env(scipy.optimize, fmin_l_bfgs_b=bfgs, linear_sum_assignment=lsa) + [(HSIC, hsic), (FCORR, fcorr)]
           + module_env(pygam, LinearGAM=LGAM) + module_env(sklearn.decomposition, FastICA=FastICA)
           + module_env(statsmodels.tsa.vector_ar.var_model, VAR=VAR)
           + module_env(statsmodels.tsa.statespace.varmax, VARMAX=VARMAX))
    return out


def data(n, seed, g=0, rows=8):
    """Integer-valued data in general position."""
    rng = np.random.RandomState(500 + seed + 31 * g)
    X = np.zeros((rows + 2 * g, n))
    for i in range(n):
        X[:, i] = np.round(9 * rng.uniform(-1, 1, len(X)) ** 3 + (X[:, i - 1] * rng.choice([-1, 1, 2]) if i else 0))
        X[:, i] += rng.randint(-3, 4, len(X)) + 2 * i
    return X


FORMS = {
    "int": lambda X: X.astype(int), "int32": lambda X: X.astype(np.int32), "list": lambda X: X.tolist(),
    "frame": lambda X: pd.DataFrame(X, columns=[f"v{i}" for i in range(X.shape[1])]),
    "intframe": lambda X: pd.DataFrame(X.astype(int)), "fortran": lambda X: np.asfortranarray(X),
    "strided": lambda X: np.repeat(np.repeat(X, 2, axis=0), 2, axis=1)[::2, ::2],
}


def attempt(name, m):
    try:
        return getattr(m, name)
    except AttributeError:
        return None


PUBLIC = ("causal_order_", "causal_orders_", "adjacency_matrix_", "adjacency_matrices_", "ancestors_list_", "residuals_",
          "maes_")


def flat(v):
    if isinstance(v, (list, tuple)):
        return ["("] + [x for w in v for x in flat(w)] + [")"]
    if isinstance(v, (set, frozenset)):
        return ["{"] + sorted(int(x) for x in v) + ["}"]
    if isinstance(v, np.ndarray):
        return [v.shape] + [x for w in v.ravel().tolist() for x in flat(w)]
    return [v]


def result(m):
    return {k: flat(attempt(k, m)) for k in PUBLIC}


def agree(c, a, b, what):
    for k in PUBLIC:
        u, v = a[k], b[k]
        c.check(len(u) == len(v), f"{what}: {k}")
        if len(u) != len(v):
            continue
        for x, y in zip(u, v):
            if isinstance(x, (str, tuple)) or isinstance(y, (str, tuple)) or x is None or y is None:
                c.check(x == y, f"{what}: {k}")
            elif isnan(x) or isnan(y):
                c.check(isnan(x) and isnan(y), f"{what}: {k}")
            elif not same(x, y):
                if isinstance(x, S) or isinstance(y, S):
                    c.check_eq(x, y, f"{what}: {k}")
                else:
                    c.check(abs(float(x) - float(y)) <= 1e-6 * (1 + abs(float(x))), f"{what}: {k} ({x} / {y})")


def build(cfg, pk):
    k, o = cfg["k"], dict(cfg.get("opt", {}))
    if k == "direct":
        return lingam.DirectLiNGAM(prior_knowledge=pk, **o)
    if k == "mgdirect":
        return lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk, **o)
    if k == "bottomup":
        return lingam.BottomUpParceLiNGAM(prior_knowledge=pk, **o)
    if k in ("camuv", "mgcamuv"):
        if pk is not None:
            o["prior_knowledge"] = pk
        return (lingam.CAMUV if k == "camuv" else lingam.MultiGroupCAMUV)(**o)
    if k == "resit":
        return lingam.RESIT(regressor=Reg(), **o)
    if k == "var":
        return lingam.VARLiNGAM(lingam_model=Inner(), **o)
    if k == "varma":
        return lingam.VARMALiNGAM(lingam_model=Inner(), **o)
    if k == "long":
        return lingam.LongitudinalLiNGAM(**o)
    return {"rcd": lingam.RCD, "mgrcd": lingam.MultiGroupRCD, "ica": lingam.ICALiNGAM}[k](**o)


def seeds(cfg, model):
    return [model] + [dict(model, seed=s) for s in range(1, 12)]


PK3 = ((-1, 0, -1), (-1, -1, -1), (1, -1, -1))
SOME = [dict(k="direct", n=3, frac=0.25, seed=1), dict(k="direct", n=3, frac=0.25, seed=2, pk=PK3),
        dict(k="direct", n=4, frac=0.06, seed=3),
        dict(k="direct", n=3, frac=0.25, seed=4, pk=PK3, opt={"apply_prior_knowledge_softly": True}),
        dict(k="mgdirect", n=3, frac=0.12, seed=5), dict(k="mgdirect", n=3, frac=0.06, seed=4, pk=PK3),
        dict(k="rcd", n=3, frac=0.4, seed=1), dict(k="rcd", n=4, frac=0.1, seed=2),
        dict(k="rcd", n=3, frac=0.3, seed=3, opt={"MLHSICR": True}), dict(k="rcd", n=3, frac=0.3, seed=4, opt={"independence": "fcorr"}),
        dict(k="mgrcd", n=3, frac=0.1, seed=2), dict(k="mgrcd", n=3, frac=0.1, seed=1, opt={"independence": "fcorr"}),
        dict(k="bottomup", n=3, frac=0.15, seed=5), dict(k="bottomup", n=3, frac=0.35, seed=6),
        dict(k="bottomup", n=3, frac=0.35, seed=5, pk=PK3),
        dict(k="bottomup", n=4, frac=0.1, seed=2, opt={"independence": "fcorr"}),
        dict(k="resit", n=3, frac=0.35, seed=6), dict(k="resit", n=4, frac=0.35, seed=1),
        dict(k="camuv", n=3, frac=0.25, seed=1), dict(k="camuv", n=3, frac=0.25, seed=2, pk=[(0, 1)]),
        dict(k="camuv", n=4, frac=0.1, seed=3, opt={"num_explanatory_vals": 3}),
        dict(k="mgcamuv", n=3, frac=0.15, seed=4), dict(k="mgcamuv", n=3, frac=0.06, seed=2, opt={"independence": "fcorr"}),
        dict(k="ica", n=3, frac=0.35, seed=1),
        dict(k="var", n=2, frac=0.4, seed=1, opt={"lags": 1, "prune": False}), dict(k="var", n=2, frac=0.3, seed=2, opt={"lags": 2, "prune": False}),
        dict(k="var", n=2, frac=0.3, seed=3, opt={"lags": 2, "criterion": None, "prune": False}),
        dict(k="var", n=2, frac=0.3, seed=4, opt={"lags": 2}),
        dict(k="varma", n=2, frac=0.3, seed=1, opt={"order": (1, 1), "criterion": None, "prune": False}),
        dict(k="varma", n=2, frac=0.2, seed=2, opt={"order": (2, 1), "prune": False}),
        dict(k="var", n=2, frac=0, seed=5, opt={"lags": 3, "prune": False}, crit=True),
        dict(k="varma", n=2, frac=0, seed=6, opt={"order": (2, 1), "prune": False}, crit=True),
        dict(k="long", n=2, frac=0.15, seed=4, T=3), dict(k="long", n=2, frac=0.2, seed=2, T=3, opt={"n_lags": 2})]


def groups(cfg):
    return cfg.get("T", 2) if cfg["k"] in ("mgdirect", "mgrcd", "mgcamuv", "long") else 1


def shaped(cfg, Xs):
    return Xs if groups(cfg) > 1 else Xs[0]


@harness("C22", SOME, env=env, retry=seeds, max_decisions=4000)
def same_numbers(c, cfg):
    n, G = cfg["n"], groups(cfg)
    s = 0 if c.symbolic else 40 * int(c.model.get("seed", 0))
    rows = {"long": 10, "var": 14, "varma": 14}.get(cfg["k"], 8)

    def make(seed):
        return [data(n, seed, 0 if cfg["k"] == "long" else g, rows) if cfg["k"] != "long" else data(n, seed + 7 * g, 0, rows)
                for g in range(G)]
    Xs, Ys = make(s), make(s + 3)
    pk = None
    if "pk" in cfg:
        pk = [tuple(p) for p in cfg["pk"]] if cfg["k"] in ("camuv", "mgcamuv") else np.array(cfg["pk"])
    keep = [X.copy() for X in Xs]

    def intact(what):
        for X, k in zip(Xs, keep):
            c.check(np.array_equal(X, k), f"{what}: the data are not modified")
        if isinstance(pk, np.ndarray):
            c.check(np.array_equal(pk, np.array(cfg["pk"])), f"{what}: the prior knowledge is not modified")
    CUR["open"] = True
    m = build(cfg, pk)
    r = m.fit(shaped(cfg, Xs))
    c.check(r is m, "fit returns the model")
    intact("float array")
    base = result(m)
    CUR["open"] = False
    for f, conv in FORMS.items():
        Zs = [conv(X) for X in Xs]
        before = [np.array(Z) for Z in Zs]
        agree(c, base, result(build(cfg, pk).fit(shaped(cfg, Zs))), f)
        for Z, b in zip(Zs, before):
            c.check(np.array_equal(np.array(Z), b), f"{f}: the data are not modified")
    if groups(cfg) > 1:
        agree(c, base, result(build(cfg, pk).fit([FORMS["int"](Xs[0])] + Xs[1:])), "mixed types")
    m.fit(shaped(cfg, Xs))
    agree(c, base, result(m), "the same model fitted again")
    intact("fitted again")
    m = build(cfg, pk)
    m.fit(shaped(cfg, Ys))
    other = result(m)
    m.fit(shaped(cfg, Xs))
    agree(c, base, result(m), "a model fitted to other data before")
    agree(c, other, result(build(cfg, pk).fit(shaped(cfg, Ys))), "a fresh model on the other data")
    if cfg["k"] not in ("long", "var", "varma") and pk is None:
        # other data with another number of variables
        m = build(cfg, None)
        Vs = [np.column_stack([Y, Y[::-1, 0] ** 2 + np.arange(len(Y))]) for Y in Ys]
        m.fit(shaped(cfg, Vs))
        m.fit(shaped(cfg, Xs))
        agree(c, base, result(m), "a model fitted to more variables before")
