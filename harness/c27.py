"""C27: the order and the edges found by RESIT."""
import itertools

import numpy as np

import lingam
import lingam.hsic
from symx.core import PathCut
from symx.run import harness

from .lib import dice
from .c13 import data

META = {
    "bounds": "2-4 variables, every outcome of every independence test (all p-values in [0, 1], all statistics), every "
              "significance level; 5-6 variables with 8-15 % of the test outcomes open and the others fixed",
    "outside": "more variables; the numerical value of the test; the quality of the user's regressor, which is a "
               "least-squares regressor here",
    "assumptions": ["the independence test returns an arbitrary statistic and p-value per (variable, predictors)"],
}
HSIC = lingam.hsic.hsic_test_gamma
CUR = {}


class Reg:
    """The user's regressor: least squares, refusing what scikit-learn refuses."""

    def fit(self, X, y):
        X, y = np.asarray(X, dtype=float), np.asarray(y, dtype=float)
        if X.ndim != 2 or X.shape[1] == 0 or len(X) != len(y):
            raise ValueError("bad shapes")
        A = np.c_[X, np.ones(len(X))]
        self.b = np.linalg.lstsq(A, y, rcond=None)[0]
        return self

    def predict(self, X):
        if X.shape[1] != len(self.b) - 1:
            raise ValueError("number of features")
        return np.c_[X, np.ones(len(X))] @ self.b


def setup(X):
    n = X.shape[1]
    CUR["x"] = X
    CUR["r"] = {(j, S): X[:, j] - Reg().fit(X[:, list(S)], X[:, j]).predict(X[:, list(S)])
                for j in range(n) for k in range(1, n)
                for S in itertools.combinations([i for i in range(n) if i != j], k)}


def key(j, S):
    return f"{j}|{''.join(map(str, sorted(S)))}"


def env(c, cfg):
    CUR.clear()
    if not c.symbolic and "real" in c.model:
        return []

    def hsic(A, B, *a, **kw):
        # an unknown question gets an unknown answer
        name = None
        for u, v in ((A, B), (B, A)):
            u, v = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
            if u.size != len(CUR["x"]):
                continue
            v = v.reshape(len(CUR["x"]), -1)
            cols = tuple(next((i for i in range(CUR["x"].shape[1]) if np.allclose(CUR["x"][:, i], v[:, k])), -1)
                         for k in range(v.shape[1]))
            for (j, S), r in CUR["r"].items():
                if sorted(cols) == sorted(S) and np.allclose(u.ravel(), r, atol=1e-9):
                    name = key(j, S)
        if name is None:
            if not c.symbolic:
                raise PathCut("a test of something else")
            CUR["k"] = CUR.get("k", 0) + 1
            name = f"?{CUR['k']}"
        return value(c, cfg, "stat" + name), value(c, cfg, "p" + name)
    return [(HSIC, hsic)]


def value(c, cfg, k):
    if "seed" in cfg and "?" not in k:
        # a fixed arbitrary outcome for most tests, the others open
        u, v = dice(cfg["seed"], k)
        if u >= cfg["frac"]:
            return np.float64(round(v, 6))
    return c.real(k, lo=0) if k[0] == "s" else c.real(k, lo=0, hi=1)


def models(cfg, model):
    rng = np.random.RandomState(7)
    out = []
    for _ in range(30):
        m = dict(model)
        for k in m:
            if k[0] in "ps":
                m[k] = float(rng.choice([1e-3, 0.04, 0.2, 0.5, 0.9, rng.rand()]))
        out.append(m)
    for s in range(30):
        for a in (0.001, 0.01, 0.1, 0.4):
            out.append(dict(model, real=1, seed=s, alpha=a))
    return out


def outcome(c, cfg, real, j, S):
    if real:
        return HSIC(CUR["r"][(j, tuple(sorted(S)))], CUR["x"][:, sorted(S)])
    return value(c, cfg, "stat" + key(j, S)), value(c, cfg, "p" + key(j, S))


@harness("C27", {"quick": [dict(n=2), dict(n=3), dict(n=4, vary=[0]), dict(n=4, vary=[2]),
                           dict(n=5, seed=1, frac=0.15), dict(n=6, seed=2, frac=0.08), dict(n=5, seed=3, frac=0.15)],
                 "thorough": [dict(n=2), dict(n=3)] + [dict(n=4, vary=[k]) for k in range(4)]},
         env=env, retry=models, max_decisions=4000)
def resit(c, cfg):
    n = cfg["n"]
    real = not c.symbolic and "real" in c.model
    X = data(n, int(c.model["seed"]) if real else None)
    setup(X)
    if "vary" in cfg and not real:
        # the order of the search is settled, everything about the edges is open
        last = cfg["vary"][0]
        seq = [last] + [i for i in range(n) if i != last]
        left = list(range(n))
        for k in seq[:-1]:
            for i in left:
                v = c.real("stat" + key(i, [q for q in left if q != i]), lo=0)
                c.assume(v == (1 if i == k else 2))
            left.remove(k)
    alpha = c.real("alpha", lo=0, hi=1)
    keep = X.copy()
    m = lingam.RESIT(Reg(), alpha=alpha if c.symbolic else float(alpha)).fit(X)
    c.check(np.array_equal(X, keep), "the data are not modified")
    order, B = [int(v) for v in m.causal_order_], m.adjacency_matrix_
    c.check(sorted(order) == list(range(n)), "every variable occurs once in the order")
    c.check(np.shape(B) == (n, n), "shape of the matrix")
    left = list(range(n))
    for k in order[:0:-1]:
        score = {i: outcome(c, cfg, real, i, [q for q in left if q != i])[0] for i in left}
        for i in left:
            c.check(score[k] <= (score[i] if not real else score[i] + 1e-9),
                    f"{k} is the least dependent of {left} ({i})")
        left.remove(k)
    for a, i in enumerate(order):
        pa = sorted(order[:a])
        for j in list(pa):
            rest = [q for q in pa if q != j]
            if rest and bool(outcome(c, cfg, real, i, rest)[1] > alpha):
                pa.remove(j)
        for j in range(n):
            c.check_eq(B[i, j], 1.0 if j in pa else 0.0, f"edge {j}->{i}")
