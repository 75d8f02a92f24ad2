"""Augmented Lagrangian with an acyclicity constraint (LiNA, MD-LiNA, LiM): the optimiser and its oracle."""
import types

import numpy as np
import scipy.optimize

from symx.core import PathCut, S

from .fakes import vec
from .lib import zeros

CUR = {}


def flat(x):
    return np.asarray(x, dtype=object).ravel().tolist()


def expit(x):
    x = np.asarray(x, dtype=object)
    out = vec(CUR["c"], [1 / (1 + np.float64(1) / lift("exp", v)) for v in x.ravel()])
    return out.reshape(x.shape)


def lift(name, v):
    return getattr(v, name)() if isinstance(v, S) else np.float64(getattr(np, name)(float(v)))


def logaddexp(a, b):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = vec(CUR["c"], [lift("log", lift("exp", u) + lift("exp", v)) for u, v in zip(a.ravel(), b.ravel())])
    return out.reshape(a.shape)


def entry(b):
    return None if b is None or abs(float(b)) == np.inf else float(b)


def bounds_of(b, n):
    if b is None:
        return [(None, None)] * n
    if isinstance(b, scipy.optimize.Bounds):
        b = list(zip(np.broadcast_to(b.lb, n), np.broadcast_to(b.ub, n)))
    return [(entry(u), entry(v)) for u, v in b]


def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, **k):
    c, d = CUR["c"], CUR["d"]
    x0 = np.asarray(x0, dtype=object).ravel()
    if len(x0) == 2 * CUR.get("H", 0):
        restart()
        return types.SimpleNamespace(x=np.array(CUR["h"]), fun=1.0)
    if len(x0) != 2 * d * d or args:
        raise PathCut("another parametrisation")
    B = bounds_of(bounds, len(x0))
    for i in range(len(x0)):
        r, q = divmod(i % (d * d), d)
        c.check(B[i] == ((0, 0) if r == q else (0, None)), "positive and negative parts, no factor causes itself")
    k = min(CUR["calls"], len(CUR["sol"]) - 1)
    CUR["calls"] += 1
    if CUR.get("point") is not None and CUR["oracle"]["more"] and CUR["calls"] <= 8:
        w = CUR["point"]
        r = fun(w.copy())
        if jac is True:
            v, g = r
        elif callable(jac):
            v, g = r, jac(w.copy())
        else:
            raise PathCut("no gradient")
        check_objective(v, g)
    W = CUR["sol"][k]
    CUR["last"] = W
    advance(W)
    x = zeros(c, 2 * d * d)
    for i in range(d):
        for j in range(d):
            v = W[i][j]
            if isinstance(v, S):
                x[i * d + j] = v
            else:
                x[(d * d if v < 0 else 0) + i * d + j] = abs(np.float64(v))
    if not c.symbolic:
        x = x.astype(float)
    return types.SimpleNamespace(x=x, fun=0.0)


def mul(A, B):
    return [[total([A[i][k] * B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def total(v):
    s = np.float64(0)
    for x in v:
        s = s + x
    return s


def cyc(W):
    """tr((I + W*W/d)^d) - d and (I + W*W/d)^(d-1)."""
    d = len(W)
    M = [[W[i][j] * W[i][j] / np.float64(d) + (1.0 if i == j else 0.0) for j in range(d)] for i in range(d)]
    E = [[np.float64(i == j) for j in range(d)] for i in range(d)]
    for _ in range(d - 1):
        E = mul(E, M)
    P = mul(E, M)
    return total([P[i][i] for i in range(d)]) - np.float64(d), E


def check_objective(v, g):
    c, d, o = CUR["c"], CUR["d"], CUR["oracle"]
    w, f, lam, loss = CUR["point"], CUR["f"], CUR["lam1"], CUR["loss"]
    n = len(f)
    W = [[w[i * d + j] - w[d * d + i * d + j] for j in range(d)] for i in range(d)]
    M = mul(f, W)
    R = [[f[a][j] - M[a][j] for j in range(d)] for a in range(n)]
    N = np.float64(n)
    if "pieces" in CUR:
        val, T = CUR["pieces"](f, M, R)
    elif loss == "l2":
        val = total([x * x for r in R for x in r]) / (2 * N)
        T = [[-x / N for x in r] for r in R]
    elif loss == "laplace":
        val = total([lift("log", lift("cosh", x)) for r in R for x in r])
        T = [[-lift("tanh", x) for x in r] for r in R]
    elif loss == "logistic":
        one = np.float64(1)
        val = total([lift("log", one + lift("exp", M[a][j])) - f[a][j] * M[a][j] for a in range(n) for j in range(d)]) / N
        T = [[(1 / (1 + one / lift("exp", M[a][j])) - f[a][j]) / N for j in range(d)] for a in range(n)]
    else:
        val = total([lift("exp", M[a][j]) - f[a][j] * M[a][j] for a in range(n) for j in range(d)]) / N
        T = [[(lift("exp", M[a][j]) - f[a][j]) / N for j in range(d)] for a in range(n)]
    h, E = cyc(W)
    val = val + o["rho"] * h * h / np.float64(2) + o["alpha"] * h + lam * total(list(w))
    c.check_close(v, val, f"{loss}: the objective of round {CUR['calls']}")
    G = [[total([f[a][i] * T[a][j] for a in range(n)]) for j in range(d)] for i in range(d)]
    g = np.asarray(g, dtype=object).ravel().tolist()
    c.check(len(g) == 2 * d * d, "one derivative per variable")
    for i in range(d):
        for j in range(d):
            D = G[i][j] + (o["rho"] * h + o["alpha"]) * E[j][i] * W[i][j] * np.float64(2)
            c.check_close(g[i * d + j], D + lam, f"{loss}: derivative of the positive part of {i},{j}")
            c.check_close(g[d * d + i * d + j], lam - D, f"{loss}: derivative of the negative part of {i},{j}")


def restart():
    CUR.update(calls=0, oracle=dict(rho=1.0, alpha=np.float64(0), h=None, more=True, W=None, steps=0))


def advance(W):
    """The augmented Lagrangian after the solution W."""
    o, lim = CUR["oracle"], CUR.get("lim")
    if not o["more"]:
        return
    h, _ = cyc(W)
    o["W"] = W
    # LiM wants a proper decrease and goes on while the constraint is exactly met
    if o["h"] is not None and bool(h >= o["h"] * 0.25 if lim else h > o["h"] * 0.25):
        o["rho"] = o["rho"] * 10.0
        if o["rho"] < CUR["rho_max"]:
            return
    o["h"], o["alpha"] = h, o["alpha"] + o["rho"] * h
    o["steps"] += 1
    met = bool(h <= CUR["h_tol"]) and not (lim and bool(h == 0))
    if met or o["rho"] >= CUR["rho_max"] or o["steps"] >= CUR["max_iter"]:
        o["more"] = False


def sols(c, cfg):
    """The solutions of the rounds; the last one is acyclic."""
    d = cfg["d"]
    out = []
    for k, sol in enumerate(cfg["sol"]):
        W = [[np.float64(0)] * d for _ in range(d)]
        for i, j, v in sol:
            W[i][j] = c.real(f"v{k}_{i}{j}", nonzero=True) if v is None else np.float64(v)
        out.append(W)
    return out


def result(c, R, W, t):
    d = len(W)
    c.check(np.shape(R) == (d, d), "one row and column per factor")
    for i in range(d):
        for j in range(d):
            v = W[i][j]
            if bool(abs(v) < t):
                v = np.float64(0)
            c.check_eq(R[i, j], v, f"{i},{j}: the last solution, with weights below the threshold set to zero")
