"""C10: the independence matrix of the errors of a fitted model."""
import numpy as np

import lingam.hsic
from symx.core import PathCut
from symx.run import harness

from .fitted import generic, model, prepare
from .lib import arr, check_unmutated, dag, isnan, part, perms, same, snapshot, zeros

META = {
    "bounds": "3 variables (VAR/VARMA/longitudinal: 3), every causal order, all real coefficients; any subset of one "
              "unknown-direction pair or block; two groups; three time points with one lag and four with two; one fixed "
              "data set in general position; also 5-6 variables with fixed coefficients except three symbolic ones",
    "outside": "more variables; the value of the independence test itself",
    "assumptions": ["the independence test returns an arbitrary value determined by the unordered pair of samples"],
}

REAL = lingam.hsic.hsic_test_gamma
CUR = {}

prepare([("direct", 3, None), ("ica", 3, None), ("mgdirect", 3, None), ("bottomup", 3, None), ("rcd", 3, None),
         ("mgrcd", 3, None), ("var", 3, 1), ("varma", 3, (1, 1)), ("long", 3, (3, 1)), ("long", 3, (4, 2)), ("direct", 6, None), ("rcd", 6, None), ("bottomup", 6, None), ("mgdirect", 5, None),
         ("var", 5, 2)])


def env(c, cfg):
    CUR.clear()
    CUR["cols"] = []
    if not c.symbolic:
        return []

    def hsic(X, Y, bw_method="mdbs", **kw):
        a, b = find(X), find(Y)
        if a is None or b is None:
            return 0.0, c.real("p_other")
        return 0.0, c.real("p" + "_".join(sorted((a, b))))
    return [(REAL, hsic)]


def find(X):
    v = np.asarray(X, dtype=object).ravel().tolist()
    for name, col in CUR["cols"]:
        if len(col) == len(v) and all(eq(x, y) for x, y in zip(v, col)):
            return name
    return None


def eq(x, y):
    d = x - y
    if hasattr(d, "is_const"):
        return d.is_const() and abs(float(d.value())) < 1e-9
    return abs(float(d)) < 1e-9


def residuals(c, B, X, tag=""):
    """Columns of X - X B^T (reference)."""
    n = X.shape[1]
    out = []
    for i in range(n):
        col = [X[r, i] for r in range(len(X))]
        for j in range(n):
            b = B[i, j]
            if isnan(b) or (not hasattr(b, "n") and b == 0):
                continue
            col = [v - b * X[r, j] for r, v in enumerate(col)]
        out.append(col)
        CUR["cols"].append((f"{tag}e{i}", col))
    return out


def expected(c, E, i, j, tag=""):
    if c.symbolic:
        return c.real("p" + "_".join(sorted((f"{tag}e{i}", f"{tag}e{j}"))))
    return REAL(np.array(E[i]).reshape(-1, 1), np.array(E[j]).reshape(-1, 1))[1]


def matrix_ok(c, P, E, n, unknown, tag=""):
    c.check(tuple(np.shape(P)) == (n, n), "one row and column per variable")
    for i in range(n):
        c.check_eq(P[i, i], 0.0, "zero diagonal")
        for j in range(i):
            if i in unknown or j in unknown:
                c.check(isnan(P[i, j]) and isnan(P[j, i]), "not available where the causes are unknown")
                continue
            e = expected(c, E, i, j, tag)
            c.check_eq(P[i, j], e, f"{tag}[{i}, {j}] is the test of errors {i} and {j}")
            c.check_eq(P[j, i], e, f"{tag}[{j}, {i}] is the test of errors {i} and {j}")


ROWS = 9


@harness("C10", [dict(k=k, order=o) for k in ("direct", "ica") for o in perms(3)], env=env)
def plain(c, cfg):
    n = 3
    B = dag(c, "b", n, cfg["order"])
    m = model(cfg["k"], n, order=list(cfg["order"]), matrix=B)
    X = generic(ROWS, n, 5)
    E = residuals(c, B, X)
    snap = snapshot(X)
    matrix_ok(c, m.get_error_independence_p_values(X), E, n, ())
    check_unmutated(c, X, snap, "the data are not modified")


@harness("C10", [dict(k=k, order=o, unknown=u) for k in ("bottomup", "rcd") for o in ([0, 1, 2], [2, 0, 1])
                 for u in ((), (0, 1), (1, 2), (0, 2), (0, 1, 2))], env=env)
def unknown(c, cfg):
    n, u = 3, cfg["unknown"]
    B = dag(c, "b", n, cfg["order"])
    for i in u:
        for j in u:
            if i != j:
                B[i, j] = np.nan
    if cfg["k"] == "rcd":
        m = model("rcd", n, matrix=B, ancestors=[set() for _ in range(n)])
    else:
        m = model("bottomup", n, order=([list(u)] if u else []) + [x for x in cfg["order"] if x not in u], matrix=B)
    X = generic(ROWS, n, 5)
    E = residuals(c, B, X)
    matrix_ok(c, m.get_error_independence_p_values(X), E, n, u)


O6, O5 = [3, 0, 5, 1, 4, 2], [2, 4, 0, 3, 1]


@harness("C10", [dict(k="direct", u=()), dict(k="rcd", u=(1, 4)), dict(k="rcd", u=(0, 2)), dict(k="bottomup", u=(3, 0, 5)),
                 dict(k="bottomup", u=())], env=env)
def larger(c, cfg):
    n, o, u = 6, O6, cfg["u"]
    B = part(c, "b", n, o, ((2, 1), (4, 2), (5, 3)), ((1, 0), (4, 1)))
    for i in u:
        for j in u:
            if i != j:
                B[i, j] = np.nan
    if cfg["k"] == "rcd":
        m = model("rcd", n, matrix=B, ancestors=[set() for _ in range(n)])
    else:
        m = model(cfg["k"], n, order=([list(u)] if u else []) + [x for x in o if x not in u], matrix=B)
    X = generic(ROWS + 4, n, 5)
    E = residuals(c, B, X)
    matrix_ok(c, m.get_error_independence_p_values(X), E, n, u)


@harness("C10", [dict()], env=env)
def larger_groups(c, cfg):
    n = 5
    Bs = [part(c, "b", n, O5, ((2, 1), (4, 3)), ((1, 0),)), part(c, "d", n, O5, ((3, 1),), ((4, 1),))]
    m = model("mgdirect", n, order=list(O5), matrix=Bs)
    Xs = [generic(ROWS, n, 5), generic(ROWS + 2, n, 6)]
    Es = [residuals(c, B, X, f"g{g}") for g, (B, X) in enumerate(zip(Bs, Xs))]
    P = m.get_error_independence_p_values(Xs)
    for g in range(2):
        matrix_ok(c, P[g], Es[g], n, (), f"g{g}")


@harness("C10", [dict(k="mgdirect", order=o, unknown=()) for o in ([0, 1, 2], [2, 0, 1])]
         + [dict(k="mgrcd", order=[0, 1, 2], unknown=u) for u in ((), (1, 2))], env=env)
def groups(c, cfg):
    n, u = 3, cfg["unknown"]
    Bs = [dag(c, "b", n, cfg["order"]), dag(c, "d", n, cfg["order"])]
    for B in Bs:
        for i in u:
            for j in u:
                if i != j:
                    B[i, j] = np.nan
    if cfg["k"] == "mgrcd":
        m = model("mgrcd", n, matrix=Bs, ancestors=[set() for _ in range(n)])
    else:
        m = model("mgdirect", n, order=list(cfg["order"]), matrix=Bs)
    Xs = [generic(ROWS, n, 5), generic(ROWS + 2, n, 6)]
    Es = [residuals(c, B, X, f"g{g}") for g, (B, X) in enumerate(zip(Bs, Xs))]
    P = m.get_error_independence_p_values(Xs)
    c.check(len(P) == 2, "one matrix per group")
    for g in range(2):
        matrix_ok(c, P[g], Es[g], n, u, f"g{g}")


@harness("C10", [dict(k=k, order=o) for k in ("var", "varma") for o in perms(3)] + [dict(k="var", order=O5, n=5)], env=env)
def timeseries(c, cfg):
    n, k = cfg.get("n", 3), cfg["k"]
    B0 = dag(c, "b", n, cfg["order"]) if n == 3 else part(c, "b", n, O5, ((2, 1), (4, 3)), ((1, 0),))
    B1 = zeros(c, n, n)
    B1[0, 1] = c.real("m")
    mats = arr(c, np.array([B0, B1] if n == 3 else [B0, B1, B1]))
    if k == "varma":
        mats = (mats, arr(c, np.array([B1])))
    m = model(k, n, (1 if n == 3 else 2) if k == "var" else (1, 1), order=list(cfg["order"]), matrix=mats)
    R = np.asarray(m.residuals_, dtype=float)[:ROWS]
    m._residuals = R
    if m.residuals_ is not R:
        raise PathCut("the residuals are kept elsewhere")
    E = residuals(c, B0, R)
    matrix_ok(c, m.get_error_independence_p_values(), E, n, ())


@harness("C10", [dict(T=3, L=1), dict(T=4, L=2)], env=env)
def longitudinal(c, cfg):
    n, T, L = 3, cfg["T"], cfg["L"]
    A = zeros(c, T, L + 1, n, n)
    orders = [[0, 1, 2], [2, 0, 1], [1, 2, 0], [0, 2, 1]][:T]
    for t in range(T):
        if t < L:
            A[t] = np.nan
            orders[t] = [np.nan] * n
        else:
            A[t, 0] = dag(c, f"b{t}_", n, orders[t])
            for lag in range(1, L + 1):
                A[t, lag, 0, 1] = 0.3
    m = model("long", n, (T, L), order=orders, matrix=A)
    R = np.asarray(m.residuals_, dtype=float)
    Es = {t: residuals(c, A[t, 0], R[t], f"t{t}") for t in range(L, T)}
    P = m.get_error_independence_p_values()
    c.check(len(P) == T, "one matrix per time point")
    for t in range(T):
        if t < L:
            c.check(all(isnan(P[t][i, j]) for i in range(n) for j in range(n)), "not available before n_lags")
        else:
            matrix_ok(c, P[t], Es[t], n, (), f"t{t}")
