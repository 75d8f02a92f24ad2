"""C20: LiM's thresholding and local search."""
import contextlib
import io
import itertools
import types

import numpy as np
import pandas as pd
import scipy.optimize
import sklearn.linear_model
import sklearn.metrics

import lingam
import lingam.utils
from symx.core import PathCut
from symx.run import harness

from .fakes import module_env
from .lib import ball, bor, bnot, dice, zeros

META = {
    "bounds": "2-4 variables (continuous and binary ones), estimates of the global phase with 0-5 edges, also cyclic ones, weights "
              "of at least 1/4; up to 8 of the likelihoods of a variable given its parents open, the others fixed; all "
              "weights of an acyclic estimate of 2-3 variables and every threshold for the thresholding",
    "outside": "the optimisation of the global phase (its losses and gradients); is_poisson=True; cycles so weak that the "
               "acyclicity measure is below h_tol; more variables",
    "assumptions": ["the global phase ends with an arbitrary estimate", "the likelihood of a variable given its parents is an "
                    "arbitrary number"],
}
CUR = {}
LIKELIHOOD = lingam.utils.likelihood_i


def column(v):
    v = np.asarray(v, dtype=float).ravel()
    for k in range(CUR["X"].shape[1]):
        if len(v) == len(CUR["X"]) and np.array_equal(v, CUR["X"][:, k]):
            return k
    return None


def local(c, cfg, i, parents):
    """The log-likelihood of variable i given its parents."""
    name = f"l{i}<{''.join(map(str, sorted(parents)))}"
    if not parents and i in cfg["binary"]:
        _, n = np.unique(CUR["X"][:, i], return_counts=True)
        return float(np.sum(n * np.log(n / n.sum())))
    u, v = dice(cfg["seed"], name)
    if u < cfg["frac"]:
        return c.real(name, lo=-40, hi=-1)
    return -round(160 + 320 * v) / 32


def env(c, cfg):
    CUR.clear()

    class Logistic:
        def __init__(self, *a, **k):
            pass

        def fit(self, X, y):
            X = np.asarray(X, dtype=float).reshape(len(y), -1)
            self.i, self.P = column(y), [column(X[:, k]) for k in range(X.shape[1])]
            return self

        def predict_proba(self, X):
            X = np.asarray(X, dtype=float)
            if [column(X[:, k]) for k in range(X.shape[1])] != self.P:
                raise PathCut("evaluated on other data")
            p = np.full((len(X), 2), 0.5)
            CUR["proba"].append((p, self.i, self.P))
            return p

    def log_loss(y_true, y_pred, normalize=True, **k):
        for p, i, P in CUR["proba"]:
            if p is y_pred:
                c.check(i is not None and column(y_true) == i and None not in P and i in cfg["binary"],
                        "the likelihood of a discrete variable comes from its logistic regression on its parents")
                v = -local(c, cfg, i, P)
                return v / len(p) if normalize else v
        raise PathCut("another likelihood")

    def likelihood(x, i, b, b0):
        X = CUR["X"]
        P = [int(k) for k in np.flatnonzero(np.asarray(b, dtype=float))]
        c.check(np.shape(x) == X.T.shape and np.allclose(np.asarray(x, dtype=float), X.T), "the likelihood of the data")
        A = np.column_stack([np.ones(len(X)), X[:, P]])
        w = np.linalg.lstsq(A, X[:, int(i)], rcond=None)[0]
        c.check(i not in P and abs(w[0] - float(b0)) < 1e-6 and np.allclose(w[1:], np.asarray(b, dtype=float)[P], atol=1e-6),
                "the likelihood of a continuous variable at its least squares fit")
        return local(c, cfg, int(i), P)

    def minimize(fun, x0, *a, **k):
        CUR["calls"] += 1
        if "objective" in CUR:
            CUR["objective"].append(float(fun(np.linspace(0.1, 1, len(x0)))[0]))
        return types.SimpleNamespace(x=CUR["w"].copy(), fun=0.0)
    return (module_env(sklearn.linear_model, LogisticRegression=Logistic) + module_env(sklearn.metrics, log_loss=log_loss)
            + module_env(scipy.optimize, minimize=minimize) + [(LIKELIHOOD, likelihood)])


def data(cfg):
    rng = np.random.RandomState(11)
    X = np.round(rng.uniform(-2, 2, (9, cfg["d"])) * 16) / 16
    for k in cfg["binary"]:
        X[:, k] = (np.arange(9) * (k + 2) // 3 % 2 == 0).astype(float)
    for k in cfg["binary"]:
        X[k, k] = 1 - X[k, k]
    return X


def acyclic(E, d):
    left = set(range(d))
    while True:
        free = [v for v in left if not any(b == v and a in left for a, b in E)]
        if not free:
            return not left
        left -= set(free)


def weights(c, d, W):
    w = zeros(c, 2 * d * d) if CUR.get("sym") else np.zeros(2 * d * d)
    for (i, j), v in W.items():
        neg = not CUR.get("sym") and v < 0
        w[d * d * neg + i * d + j] = -v if neg else v
    return w


def run(c, cfg, W, thr=None, **kw):
    d = cfg["d"]
    CUR.update(X=data(cfg), proba=[], calls=0, w=weights(c, d, W))
    m = lingam.LiM(**({} if thr is None else {"w_threshold": thr}))
    dis = np.ones((1, d))
    dis[0, list(cfg["binary"])] = 0
    X = CUR["X"].copy()
    with contextlib.redirect_stdout(io.StringIO()):
        R = m.fit(X, dis, **kw)
    c.check(np.array_equal(X, CUR["X"]), "the data are not modified")
    c.check(m.adjacency_matrix_ is R or np.array_equal(m.adjacency_matrix_, R), "the result is adjacency_matrix_")
    c.check(CUR["calls"] > 0, "the global phase is run")
    c.check(np.shape(m.adjacency_matrix_) == (d, d), "one row and column per variable")
    return m.adjacency_matrix_


F3 = [(0, 1), (1, 2)], [(0, 1), (0, 2)], [(0, 2), (1, 2)], [(2, 1)], [], [(0, 1), (1, 2), (0, 2)], [(2, 1), (1, 0), (2, 0)], \
     [(0, 1), (1, 2), (2, 0)]
SEARCH = [dict(d=3, E=e, binary=b, seed=s, frac=0.55 if len(e) < 3 else 0.22) for s, e in enumerate(F3) for b in ((), (1,))]
SEARCH += [dict(d=3, E=F3[5], binary=(0, 2), seed=21, frac=0.3), dict(d=3, E=F3[0], binary=(0, 1, 2), seed=22, frac=0.4),
           dict(d=2, E=[(0, 1)], binary=(), seed=23, frac=1), dict(d=2, E=[(1, 0)], binary=(0,), seed=24, frac=1),
           dict(d=2, E=[], binary=(0,), seed=24, frac=1),
           dict(d=4, E=[(0, 1), (1, 2), (2, 3)], binary=(2,), seed=25, frac=0.12),
           dict(d=4, E=[(0, 1), (1, 2), (2, 3), (0, 3)], binary=(), seed=26, frac=0.08),
           dict(d=4, E=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], binary=(3,), seed=27, frac=0.03)]
MORE = [dict(f, seed=f["seed"] + 100 * k, frac=f["frac"] * 1.5) for f in SEARCH for k in (1, 2)]


@harness("C20", {"quick": SEARCH, "thorough": SEARCH + MORE}, env=env, max_decisions=5000)
def search(c, cfg):
    d, E = cfg["d"], [tuple(e) for e in cfg["E"]]
    W = {e: (-1) ** k * (2 + k) / 4 for k, e in enumerate(E)}
    R = run(c, cfg, W)
    S = [(i, j) for i in range(d) for j in range(d) if R[i, j] != 0]

    def score(E):
        s = -np.log(len(CUR["X"])) / 2 * (len(set(E)) + d)
        for i in range(d):
            s = s + local(c, cfg, i, [a for a, b in E if b == i])
        return s
    for i, j in S:
        c.check_eq(R[i, j], W.get((i, j), 1.0), f"{i}->{j}: an estimated edge keeps its weight, another one has weight 1")
    c.check(acyclic(S, d) or set(S) == set(E), "a structure found by the search is acyclic")
    got, eps = score(S), 1e-6
    c.check(got >= score(E) - eps, "not worse than the estimate")
    reor = [tuple((b, a) if f else (a, b) for f, (a, b) in zip(fl, E)) for fl in itertools.product((0, 1), repeat=len(E))]
    reor = [E] + [list(r) for r in reor[1:] if acyclic(r, d)]
    for r in reor:
        c.check(got >= score(r) - eps, f"not worse than {r}")
    # one edge removed, one added; four variables allow both
    c.check(any(len(set(S) ^ set(r)) <= (1 if d < 4 else 2) for r in reor), "an estimated skeleton, up to one edge removed or added")
    c.check(d > 2 or len(S) == len(E), "no edge is added or removed for two variables")
    if d == 3:
        for e in itertools.permutations(range(d), 2):
            if e in E and len(E) > d - 1 and acyclic([x for x in E if x != e], d):
                c.check(got >= score([x for x in E if x != e]) - eps, f"not worse than the estimate without {e}")
            if e not in E and e[::-1] not in E and len(E) < d and acyclic(E + [e], d):
                c.check(got >= score(E + [e]) - eps, f"not worse than the estimate with {e}")
    for b in reor:
        others = [score(r) for r in reor if r is not b]
        best = ball([score(b) > o + eps for o in others])
        if d > 2 and len(E) > d - 1:
            for e in b:
                r = [x for x in b if x != e]
                if acyclic(r, d):
                    c.check(bor(bnot(best), got >= score(r) - eps), f"not worse than {b} without {e}")
        if d > 2 and len(E) < d:
            for e in itertools.permutations(range(d), 2):
                r = list(b) + [e]
                if e not in b and e[::-1] not in b and acyclic(r, d):
                    c.check(bor(bnot(best), got >= score(r) - eps), f"not worse than {b} with {e}")


@harness("C20", [dict(d=2, E=[(0, 1)], binary=()), dict(d=2, E=[(1, 0)], binary=(1,)), dict(d=3, E=[(0, 1), (2, 1)], binary=()),
                 dict(d=3, E=[(0, 1), (1, 2), (0, 2)], binary=(0,)), dict(d=3, E=[], binary=())], env=env)
def threshold(c, cfg):
    CUR["sym"] = True
    d, E = cfg["d"], [tuple(e) for e in cfg["E"]]
    W = {e: c.real(f"w{e[0]}{e[1]}", nonzero=True) for e in E}
    t = c.real("threshold", lo=0)
    R = run(c, cfg, W, thr=t, only_global=True)
    for i in range(d):
        for j in range(d):
            v = W.get((i, j), 0.0)
            if bool(abs(v) < t):
                v = 0.0
            c.check_eq(R[i, j], v, f"{i}->{j}: the estimate, with weights below the threshold set to zero")


@harness("C20", [dict(d=3, E=[(0, 1), (1, 2)], binary=(1,), seed=3, frac=0.1)], env=env)
def again(c, cfg):
    """The second fit of a model minimises the same loss as the first."""
    d = cfg["d"]
    CUR.update(X=data(cfg), proba=[], calls=0, w=weights(c, d, {(0, 1): 0.5, (1, 2): -0.75}))
    dis = np.array([[1.0, 0.0, 1.0]])
    m = lingam.LiM()
    with contextlib.redirect_stdout(io.StringIO()):
        CUR["objective"] = first = []
        A = m.fit(CUR["X"], dis).copy()
        CUR["objective"] = second = []
        B = m.fit(CUR["X"], dis)
    c.check(np.array_equal(A, B), "the same result")
    c.check(abs(first[0] - second[0]) < 1e-9, "the same objective")
