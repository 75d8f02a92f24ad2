"""C12: parents and confounded pairs found by the CAM-UV family."""
import itertools
import re

import numpy as np
import pygam
import scipy.stats

import lingam
import lingam.hsic
import lingam.utils
from symx.core import PathCut
from symx.run import harness

from .lib import dice
from .fakes import Chi2, module_env
from .lib import isnan, raises

META = {
    "bounds": "3 variables, sets of up to 3 variables, every outcome of every independence test (all p-values in [0, 1], "
              "all F-correlations), every significance level / threshold in (0, 1), every forbidden pair; two groups; also 4-5 variables "
              "and sets of up to 4 where 1-25 % of the test outcomes are open and the others fixed; fixed data in general position",
    "outside": "more variables; the numerical value of the tests and of the additive regression",
    "assumptions": ["each test returns an arbitrary value determined by the residuals it is given; the chi-squared "
                    "distribution function is strictly increasing; the additive regression is replaced by a linear one "
                    "(replays also use the real one)"],
}
HSIC, FCORR, CHI2, GAM = lingam.hsic.hsic_test_gamma, lingam.utils.f_correlation, scipy.stats.chi2, pygam.LinearGAM
CUR = {}


def data(n, g, seed=None):
    if seed is None:
        return np.random.RandomState(60 + g).uniform(-1, 1, (12, n)) ** 3 + np.arange(n)
    rng = np.random.RandomState(seed)
    order = list(rng.permutation(n))
    rng = np.random.RandomState(2000 + seed + 50 * g)
    X = np.zeros((100 + 10 * g, n))
    for a, i in enumerate(order):
        X[:, i] = rng.normal(size=len(X)) * 0.5
        for b in order[:a]:
            if (seed + a + b) % 3:
                X[:, i] += np.sin(X[:, b] * 2) + 0.5 * X[:, b] ** 2
    if seed % 3 == 0:
        h = rng.normal(size=len(X))
        X[:, order[0]] += h
        X[:, order[min(n - 1, (seed % 2) + 1)]] += np.cos(h) * 2 + h
    return X


def resid(X, j, S, real):
    y = X[:, j]
    if not S:
        return y
    if real:
        return y - GAM().fit(X[:, S], y).predict(X[:, S])
    A = np.column_stack([np.ones(len(y))] + [X[:, s] for s in S])
    return y - A @ np.linalg.lstsq(A, y, rcond=None)[0]


_SETUP, _INDEX = {}, {}


def setup(Xs, real):
    n = Xs[0].shape[1]
    tag = (real,) + tuple(X.tobytes() for X in Xs)
    if tag in _SETUP:
        CUR["r"] = _SETUP[tag]
        return
    _SETUP.clear()
    _INDEX.clear()
    CUR["r"] = _SETUP[tag] = [{(j, S): resid(X, j, list(S), real) for j in range(n) for k in range(n)
                 for S in itertools.combinations([i for i in range(n) if i != j], k)} for X in Xs]


def find(v):
    v = np.asarray(v, dtype=float).ravel()
    v = v - v.mean()
    for g, R in enumerate(CUR["r"]):
        if g not in _INDEX or _INDEX[g][0] is not R:
            _INDEX[g] = R, list(R), np.array([w - w.mean() for w in R.values()])
        W = _INDEX[g][2]
        if len(v) == W.shape[1]:
            d = np.abs(W - v).max(axis=1)
            k = int(d.argmin())
            if d[k] < 1e-6:
                return g, _INDEX[g][1][k]
    return None


def key(kind, X, Y):
    ks = []
    for v in (X, Y):
        v = np.asarray(v)
        cols = [v] if v.ndim == 1 else [v[:, a] for a in range(v.shape[1])]
        f = [find(w) for w in cols]
        if None in f or len({a[0] for a in f}) > 1:
            if not CUR["c"].symbolic:
                raise PathCut("a test of something else")
            CUR["k"] = CUR.get("k", 0) + 1
            return f"{kind}?{CUR['k']}"
        ks.append(sorted(f))
    return name(kind, ks[0][0][0], [a[1] for a in ks[0]], [a[1] for a in ks[1]])


def name(kind, g, a, b):
    r = sorted(repr(sorted(x)).replace(" ", "") for x in (a, b))
    return f"{kind}{g}:" + "~".join(r)


def env(c, cfg):
    CUR.clear()
    CUR["c"] = c
    if not c.symbolic and "real" in c.model:
        return []

    class LGAM:
        def __init__(self, *a, **k):
            pass

        def fit(self, X, y):
            A = np.column_stack([np.ones(len(y)), np.asarray(X, dtype=float)])
            self.b = np.linalg.lstsq(A, np.asarray(y, dtype=float), rcond=None)[0]
            return self

        def predict(self, X):
            return np.column_stack([np.ones(len(X)), np.asarray(X, dtype=float)]) @ self.b

    def hsic(X, Y, *a, **k):
        return 0.0, value(c, cfg, key("p", X, Y))

    def fcorr(X, Y, *a, **k):
        return value(c, cfg, key("f", X, Y))
    return (module_env(scipy.stats, chi2=Chi2) + module_env(pygam, LinearGAM=LGAM)
            + [(HSIC, hsic), (FCORR, fcorr)])


def value(c, cfg, k):
    if cfg.get("one") and k[1] == "1":
        return 1.0 if k[0] == "p" else 0.0
    if cfg.get("near") and re.fullmatch(r"..:\[\(\d,\(\)\)\]~\[\(\d,\(\)\)\]", k):
        return 0.0 if k[0] == "p" else 1.0
    dep = 0.0 if k[0] == "p" else 1.0
    if "seed" in cfg and "?" not in k:
        # a fixed arbitrary outcome for most tests, the others open
        u, v = dice(cfg["seed"], k)
        if u < cfg["frac"]:
            return c.real(k, lo=0, hi=1)
        return dep if v < 0.6 else 1.0 - dep - 0.001 * (1 - 2 * dep) * int(1000 * v)
    if "vary" in cfg:
        return c.real(k, lo=0, hi=1) if k[3:] in cfg["vary"] else dep
    if cfg.get("trio") and re.search(r",\(\d,\)\)", k) and k.count("()") == 1:
        return dep
    if cfg.get("late") and k.count("()") == 0:
        return dep
    return c.real(k, lo=0, hi=1)


class Ref:
    """The documented procedure, with the tests as an oracle."""

    def __init__(self, c, cfg, n, k, real, thr):
        self.c, self.cfg, self.n, self.k, self.real, self.thr = c, cfg, n, k, real, thr
        self.fc = cfg.get("ind") == "fcorr"

    def res(self, i, S):
        return (i, tuple(sorted(S)))

    def test(self, a, B):
        """a: residual; B: list of residuals."""
        if self.fc and len(B) > 1:
            v = self.test(a, B[:1])
            for b in B[1:]:
                w = self.test(a, [b])
                v = w if bool(w > v) else v
            return v
        vals = []
        for g in range(self.k):
            if self.real:
                x = CUR["r"][g][a].reshape(-1, 1)
                y = np.column_stack([CUR["r"][g][b] for b in B])
                vals.append(FCORR(x, y) if self.fc else HSIC(x, y)[1])
            else:
                vals.append(value(self.c, self.cfg, name("f" if self.fc else "p", g, [a], B)))
        if self.fc:
            v = vals[0]
            for w in vals[1:]:
                v = w if bool(w > v) else v
            return v
        if self.k == 1:
            return vals[0]
        stat = 0.0
        for p in vals:
            if bool(p == 0):
                stat = np.inf
                break
            stat = stat + -2 * (p.log() if hasattr(p, "log") and self.c.symbolic else np.log(float(p)))
        return CHI2.sf(stat, 2 * self.k) if self.real else Chi2.sf(stat, 2 * self.k)

    def better(self, v, w):
        return bool(v < w) if self.fc else bool(v > w)

    def independent(self, a, b):
        return self.better(self.test(a, [b]), self.thr)

    def run(self, forbidden):
        n = self.n
        N = {frozenset(p) for p in itertools.combinations(range(n), 2)
             if not self.independent((p[0], ()), (p[1], ()))}
        P = [set() for _ in range(n)]
        Y = [(i, ()) for i in range(n)]
        t = 2
        while True:
            changed = False
            for V in itertools.combinations(range(n), t):
                if any(b in P[a] for a in V for b in V):
                    continue
                best, child = (1.0 if self.fc else 0.0), None
                for i in V:
                    J = [j for j in V if j != i]
                    if any((j, i) in forbidden for j in J) or any(frozenset((i, j)) not in N for j in J):
                        continue
                    v = self.test(self.res(i, set(J) | P[i]), [Y[j] for j in J])
                    if self.better(v, best):
                        best, child = v, i
                if child is None or not self.better(best, self.thr):
                    continue
                J = [j for j in V if j != child]
                if any(self.independent(Y[child], Y[j]) for j in J):
                    continue
                P[child] |= set(J)
                Y[child] = self.res(child, P[child])
                changed = True
            t = 2 if changed else t + 1
            if t > self.cfg["m"]:
                break
        for i in range(n):
            P[i] = {j for j in sorted(P[i]) if not self.independent(self.res(i, P[i] - {j}), self.res(j, P[j]))}
        U = {frozenset((i, j)) for i, j in itertools.combinations(range(n), 2) if i not in P[j] and j not in P[i]
             and frozenset((i, j)) in N and not self.independent(self.res(i, P[i]), self.res(j, P[j]))}
        return P, U


def models(cfg, model):
    rng = np.random.RandomState(7)
    out = []
    for r in range(30):
        m = dict(model)
        for k in m:
            if k[0] in "pf" and ":" in k[:4]:
                m[k] = float(rng.choice([0.0, 1e-4, 0.02, 0.3, 0.49, 0.51, rng.rand()]))
        out.append(m)
    for s in range(12):
        out.append(dict(model, real=1, seed=s))
    return out


# neighbourhoods and one direction
V3 = ["[(0,())]~[(1,())]", "[(0,())]~[(2,())]", "[(1,())]~[(2,())]", "[(0,())]~[(1,(0,))]", "[(1,(0,))]~[(2,())]",
      "[(0,(1,))]~[(1,())]"]
# a cause found from the residuals of an effect with two causes
V4 = ["[(0,()),(1,())]~[(2,(0,1))]", "[(2,(0,1))]~[(3,(2,))]", "[(2,())]~[(3,(2,))]", "[(2,(0,1))]~[(3,())]",
      "[(0,())]~[(2,(1,))]", "[(1,())]~[(2,(0,))]", "[(2,(3,))]~[(3,())]"]
Q = [dict(n=3, m=2, cls="one", near=True), dict(n=3, m=2, cls="one", late=True), dict(n=2, m=2, cls="one", thr=1),
     dict(n=2, m=2, cls="one", thr=1, ind="fcorr"), dict(n=3, m=2, cls="one", near=True, ind="fcorr"),
     dict(n=3, m=3, cls="one", trio=True), dict(n=3, m=3, cls="one", trio=True, ind="fcorr"),
     dict(n=3, m=2, cls="one", pk=1, near=True, late=True), dict(n=3, m=3, cls="one", pk=1, near=True, trio=True),
     dict(n=2, m=2, cls="group"), dict(n=2, m=2, cls="group", ind="fcorr"),
     dict(n=3, m=2, cls="group", one=True, near=True, late=True), dict(n=3, m=3, cls="group", one=True, trio=True, near=True),
     dict(n=2, m=2, cls="group", one=True, pk=1, near=True), dict(n=3, m=2, cls="group", one=True, vary=V3),
     dict(n=3, m=2, cls="one", pk="same", near=True, late=True), dict(n=3, m=2, cls="group", one=True, pk="same", near=True, late=True),
     dict(n=4, m=3, cls="one", vary=V4), dict(n=4, m=3, cls="group", one=True, vary=V4)]
Q += [dict(n=n, m=m, cls=cls, ind=ind, seed=s, frac=f, pk=pk) for n, m, cls, ind, s, f, pk in (
    (4, 3, "one", "hsic", 1, 0.15, 0), (4, 4, "one", "hsic", 2, 0.25, 0), (5, 2, "one", "hsic", 3, 0.15, 0),
    (4, 3, "one", "fcorr", 4, 0.1, 0), (4, 2, "group", "hsic", 5, 0.1, 0), (4, 3, "group", "hsic", 6, 0.1, 0),
    (4, 3, "group", "fcorr", 7, 0.05, 0), (5, 3, "one", "hsic", 8, 0.08, 0), (4, 3, "one", "hsic", 9, 0.02, 2),
    (4, 3, "group", "hsic", 10, 0.01, 2))]
T = Q + [dict(n=3, m=2, cls="one"), dict(n=3, m=3, cls="one", near=True, thr=1), dict(n=3, m=2, cls="one", pk=2, near=True),
         dict(n=3, m=2, cls="group", near=True), dict(n=3, m=2, cls="group", one=True, late=True), dict(n=3, m=2, cls="group", one=True, pk=1, near=True, late=True, ind="fcorr"),
         dict(n=4, m=2, cls="one", near=True, late=True)] + [
    dict(n=4, m=3, cls=k, ind=i, seed=100 + q, frac=0.15 if k == "one" else 0.06) for q in range(12)
    for k in ("one", "group") for i in ("hsic", "fcorr")]


@harness("C12", {"quick": Q, "thorough": T}, env=env, retry=models, max_decisions=6000)
def camuv(c, cfg):
    n, k = cfg["n"], 2 if cfg["cls"] == "group" else 1
    real = not c.symbolic and "real" in c.model
    Xs = [data(n, g, int(c.model["seed"]) if real else None) for g in range(k)]
    keep = [X.copy() for X in Xs]
    setup(Xs, real)
    forbidden = []
    if cfg.get("pk"):
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        if cfg["pk"] == "same":
            i = c.choose("no", n)
            forbidden = [(j, i) for j in range(n) if j != i]
        else:
            for e in range(cfg["pk"]):
                forbidden.append(pairs[c.choose(f"no{e}", len(pairs))])
    thr = c.real("thr", lo=0.001, hi=0.999) if cfg.get("thr") else 0.125
    kw = dict(num_explanatory_vals=cfg["m"], independence=cfg.get("ind", "hsic"))
    kw["ind_corr" if cfg.get("ind") == "fcorr" else "alpha"] = thr
    if cfg.get("pk"):
        kw["prior_knowledge"] = list(forbidden)
    m = (lingam.MultiGroupCAMUV if k == 2 else lingam.CAMUV)(**kw)
    c.check(m.fit(Xs if k == 2 else Xs[0]) is m, "fit returns the model")
    c.check(all(np.array_equal(a, b) for a, b in zip(Xs, keep)), "the data are not modified")
    B = m.adjacency_matrix_
    c.check(np.shape(B) == (n, n), "shape")
    P, U = Ref(c, cfg, n, k, real, thr).run(forbidden)
    for i in range(n):
        for j in range(n):
            b = float(B[i, j])
            if frozenset((i, j)) in U and i != j:
                c.check(isnan(b), f"{i}, {j} share a hidden cause or mediator: NaN, not {b}")
            else:
                c.check(b == (1.0 if j in P[i] else 0.0), f"entry [{i}, {j}] is {b}, parents {P}")
            if (j, i) in forbidden:
                c.check(not b == 1, f"{j} is declared not to cause {i}")


@harness("C12", [dict(cls="one"), dict(cls="group")], env=env)
def arguments(c, cfg):
    M = lingam.CAMUV if cfg["cls"] == "one" else lingam.MultiGroupCAMUV
    for kw in (dict(alpha=-0.1), dict(num_explanatory_vals=0), dict(independence="lingam"), dict(ind_corr=-0.5)):
        _, e = raises(lambda: M(**kw))
        c.check(isinstance(e, ValueError), f"{kw} is rejected")
    if cfg["cls"] == "group":
        X = np.random.RandomState(0).rand(9, 3)
        for bad in (X, [X], [X, X[:, :2]]):
            _, e = raises(lambda: M().fit(bad))
            c.check(isinstance(e, ValueError), "malformed data sets are rejected")
