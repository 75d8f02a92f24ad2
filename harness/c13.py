"""C13: the partial order found by BottomUpParceLiNGAM."""
import itertools

import numpy as np
import scipy.stats

import lingam
import lingam.hsic
import lingam.utils
from symx.core import PathCut
from symx.run import harness

from .c07 import ref_lasso
from .lib import dice
from .fakes import Chi2, chi2_env, sem_data
from .lib import arr, isnan

META = {
    "bounds": "3 variables (4-6 variables with 2-20 % of the test outcomes open and the others fixed; thorough: 4 with F-correlation), every outcome of every independence test (all p-values in "
              "[0, 1], all statistics / F-correlations), every significance level and threshold, every regression outcome; with and without prior knowledge",
    "outside": "more variables; the numerical value of the tests",
    "assumptions": ["the independence tests return arbitrary values per (residual, variable); the chi-squared "
                    "distribution function is a strictly increasing function"],
}
HSIC, FCORR, AL = lingam.hsic.hsic_test_gamma, lingam.utils.f_correlation, lingam.utils.predict_adaptive_lasso
CUR = {}


def data(n, seed=None, rows=8):
    if seed is None:
        return np.random.RandomState(3).uniform(-1, 1, (rows, n)) ** 3
    X = sem_data(n, list(np.random.RandomState(seed).permutation(n)), seed, 60)
    if seed % 3:
        # a hidden common cause of two variables
        h = np.random.RandomState(seed + 5).uniform(-1, 1, len(X)) ** 3 * 3
        X[:, seed % n] += h
        X[:, (seed + 1) % n] += h
    return X


def resid(X, j, S):
    Z = X - X.mean(0)
    if not S:
        return Z[:, j]
    return Z[:, j] - Z[:, S] @ np.linalg.lstsq(Z[:, S], Z[:, j], rcond=None)[0]


_SETUP = {}


def setup(X):
    n = X.shape[1]
    if X.tobytes() in _SETUP:
        CUR["x"], CUR["r"] = _SETUP[X.tobytes()]
        return
    Z = X - X.mean(0)
    CUR["x"] = {i: Z[:, i] for i in range(n)}
    CUR["r"] = {(j, S): resid(X, j, list(S)) for j in range(n) for k in range(1, n)
                for S in itertools.combinations([i for i in range(n) if i != j], k)}
    _SETUP.clear()
    _SETUP[X.tobytes()] = CUR["x"], CUR["r"]


def find(v, kind):
    v = np.asarray(v, dtype=float).ravel()
    v = v - v.mean()
    for k, w in CUR[kind].items():
        if len(v) == len(w) and np.allclose(v, w, atol=1e-9):
            return k
    return None


def env(c, cfg):
    CUR.clear()
    CUR["c"] = c
    if not c.symbolic and "real" in c.model:
        return []

    def names(X, Y):
        for a, b in ((X, Y), (Y, X)):
            i, r = find(a, "x"), find(b, "r")
            if i is not None and r is not None:
                return f"{r[0]}|{''.join(map(str, r[1]))}~{i}"
        if not c.symbolic:
            raise PathCut("a test of something else")
        CUR["k"] = CUR.get("k", 0) + 1
        return f"?{CUR['k']}"

    def hsic(X, Y, *a, **kw):
        s = names(X, Y)
        return value(c, cfg, "stat" + s), value(c, cfg, "p" + s)

    def fcorr(X, Y, *a, **kw):
        return value(c, cfg, "f" + names(X, Y))

    def al(X, predictors, target, gamma=1.0):
        P = [find(X[:, p], "x") for p in predictors]
        t = find(X[:, target], "x")
        return arr(c, [c.real(f"al{t}<{p}") for p in P])
    out = chi2_env(c) + [(HSIC, hsic), (FCORR, fcorr)]
    return out + [(AL, al)]


def value(c, cfg, k):
    if "seed" in cfg and "?" not in k:
        # a fixed arbitrary outcome for most tests, the others open
        u, v = dice(cfg["seed"], k)
        if u >= cfg["frac"]:
            return np.float64(round(0.01 + 0.9 * v, 6))
    return c.real(k, lo=0) if k[0] == "s" else c.real(k, lo=0, hi=1)


def models(cfg, model):
    rng = np.random.RandomState(7)
    out = []
    for _ in range(40):
        m = dict(model)
        for k in m:
            if k[0] in "psf" and k != "seed":
                m[k] = float(rng.choice([1e-3, 0.04, 0.2, 0.5, 0.9, rng.rand()]))
        out.append(m)
    for s in range(40):
        for a in (0.0, 0.01, 0.1, 0.4):
            out.append(dict(model, real=1, seed=s, alpha=a, thr=[0.2, 0.3, 0.5, 0.7][s % 4]))
    return out


Q = [dict(n=3, ind="hsic"), dict(n=3, ind="fcorr"), dict(n=2, ind="hsic"), dict(n=2, ind="fcorr"),
     dict(n=4, ind="fcorr", seed=1, frac=0.15), dict(n=5, ind="fcorr", seed=2, frac=0.07), dict(n=6, ind="fcorr", seed=3, frac=0.02),
     dict(n=4, ind="hsic", seed=4, frac=0.2), dict(n=5, ind="hsic", seed=5, frac=0.06),
     dict(n=3, ind="hsic", before=[[0, 1], [0, 2]]), dict(n=3, ind="fcorr", before=[[2, 0]], no=[[0, 1]]),
     dict(n=3, ind="hsic", before=[[0, 1], [1, 2]]), dict(n=3, ind="fcorr", no=[[0, 1], [1, 0], [2, 1]]),
     dict(n=4, ind="hsic", seed=6, frac=0.2, before=[[1, 3], [1, 0]]), dict(n=4, ind="fcorr", seed=7, frac=0.15, before=[[3, 0]], no=[[1, 2]]),
     dict(n=5, ind="fcorr", seed=8, frac=0.07, before=[[4, 1], [3, 1], [4, 0]], no=[[2, 0], [0, 2]]),
     dict(n=5, ind="hsic", seed=9, frac=0.06, before=[[0, 4], [1, 3], [2, 3]])]


@harness("C13", {"quick": Q, "thorough": Q + [dict(n=4, ind="fcorr")]},
         env=env, retry=models, max_decisions=4000)
def bottom_up(c, cfg):
    n = cfg["n"]
    real = not c.symbolic and "real" in c.model
    X = data(n, int(c.model["seed"]) if real else None)
    setup(X)
    alpha = c.real("alpha", lo=0, hi=1)
    thr = c.real("thr", lo=0, hi=1)
    if not c.symbolic:
        alpha, thr = float(alpha), float(thr)
    pk, first, out = None, [tuple(p) for p in cfg.get("before", [])], set()
    if "before" in cfg or "no" in cfg:
        pk = -np.ones((n, n), dtype=int)
        for a, b in first:
            pk[b, a] = 1
        for a, b in cfg.get("no", []):
            pk[b, a] = 0
            out.add((b, a))
            if [b, a] not in cfg["no"]:
                # an absent path one way only means: if anything, the other way round
                first.append((b, a))
    m = lingam.BottomUpParceLiNGAM(alpha=alpha, independence=cfg["ind"], ind_corr=thr, prior_knowledge=pk).fit(X)
    order, B = m.causal_order_, m.adjacency_matrix_
    blk, seq = [], [v for v in order]
    if seq and hasattr(seq[0], "__iter__"):
        blk, seq = [int(v) for v in seq[0]], seq[1:]
        c.check(len(blk) > 1, "an unordered block has at least two variables")
    c.check(not any(hasattr(v, "__iter__") for v in seq), "only the top of the order is undecided")
    seq = [int(v) for v in seq]
    c.check(sorted(blk + seq) == list(range(n)), "every variable occurs once")

    # the matrix
    flat = blk + seq
    for i in range(n):
        preds = [j for j in flat[:flat.index(i)] if (i, j) not in out] if i in seq else []
        if real:
            cols = {k: list(v) for k, v in CUR["x"].items()}
            ref = ref_lasso(cols, i, preds) if preds else {}
        for j in range(n):
            if i != j and i in blk and j in blk:
                c.check(isnan(B[i, j]), f"unknown direction {i}, {j} is NaN")
            elif j in preds:
                c.check_eq(B[i, j], ref[j] if real else c.real(f"al{i}<{j}"), f"coefficient {j}->{i}")
            else:
                c.check_eq(B[i, j], 0.0, f"no coefficient {j}->{i}")

    # the search, from the bottom upwards
    U = list(range(n))
    down = seq[::-1]
    while len(U) > 1:
        may = [k for k in U if not any(a == k and b in U for a, b in first)]
        score = {j: measure(c, cfg, U, j, real) for j in may}
        if down and len(U) > len(blk):
            j = down.pop(0)
        else:
            j = None
        if j is None:
            # stopped: the best candidate fails the test
            c.check(any(all(bool(score[k][0] <= score[i][0]) for i in may) and
                        not bool(accepted(cfg, score[k], alpha, thr, n)) for k in may),
                    f"the search stops at {U} only when the most independent one is not independent")
            break
        c.check(j in may, f"{j} may come last of {U}")
        for k in may:
            c.check(j in may and score[j][0] <= score[k][0] if not real else score[j][0] <= score[k][0] + 1e-9,
                    f"{j} is the most independent of {U} ({k})")
        c.check(j in may and accepted(cfg, score[j], alpha, thr, n), f"{j} passes the test in {U}")
        U = [k for k in U if k != j]


def measure(c, cfg, U, j, real):
    """(value to be minimised, test value) of candidate sink j."""
    S = tuple(k for k in U if k != j)
    if real:
        R = CUR["r"][(j, S)].reshape(-1, 1)
        get = {i: (HSIC if cfg["ind"] == "hsic" else FCORR)(CUR["x"][i].reshape(-1, 1), R) for i in S}
    else:
        s = f"{j}|{''.join(map(str, S))}~"
        get = {i: (value(c, cfg, f"stat{s}{i}"), value(c, cfg, f"p{s}{i}")) if cfg["ind"] == "hsic"
               else value(c, cfg, f"f{s}{i}") for i in S}
    if cfg["ind"] == "fcorr":
        v = get[S[0]]
        for i in S[1:]:
            v = get[i] if bool(get[i] > v) else v
        return v, v
    if len(S) == 1:
        return get[S[0]]
    stat = 0.0
    for i in S:
        p = get[i][1]
        if bool(p == 0):
            stat = np.inf
            break
        stat = stat + -2 * (p.log() if hasattr(p, "log") and c.symbolic else np.log(float(p)))
    cdf = scipy.stats.chi2.cdf if real else Chi2.cdf
    return stat, 1 - cdf(stat, df=2 * len(S))


def accepted(cfg, score, alpha, thr, n):
    if cfg["ind"] == "fcorr":
        return score[1] < thr
    return score[1] >= alpha / (n - 1)

