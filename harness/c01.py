"""C01: causal order and adjacency matrix are coherent."""
import itertools

import numpy as np
import scipy.optimize
import sklearn.decomposition
from sklearn.linear_model import LassoLarsCV

import lingam
import lingam.hsic
from symx.run import harness

from .fakes import any_data, data_models, module_env, opaque_regressions, opaque_scale, sem_data, vec
from .c07 import ref_lasso
from .lib import arr, check_unmutated, dag, perms, snapshot, zeros, bor

META = {
    "bounds": "2-4 variables (placement of coefficients: up to 6, the selection of one variable's causes open), arbitrary data (2-3 symbolic observations; products, divisions and elementary functions "
              "of the data are uninterpreted values), arbitrary regression and lasso coefficients including zeros",
    "outside": "more variables; which of the admissible orders is selected",
    "assumptions": ["least squares, lasso, FastICA and the independence test return arbitrary values",
                    "nonlinear arithmetic on the data is over-approximated by unconstrained values; counterexamples "
                    "are replayed on generated data of every true causal order"],
}


def order_ok(c, K, n, what):
    K = [int(k) for k in K]
    c.check(sorted(K) == list(range(n)), f"{what}: causal order {K} is not a permutation")
    return {v: i for i, v in enumerate(K)}


def coherent(c, K, B, n, what):
    pos = order_ok(c, K, n, what)
    c.check(tuple(np.shape(B)) == (n, n), f"{what}: adjacency matrix is {n} x {n}")
    for i in range(n):
        for j in range(n):
            if pos[j] >= pos[i]:
                c.check(B[i, j] == 0, f"{what}: edge x{j} -> x{i} against the causal order {list(pos)}")


def env_reg(c, cfg):
    return opaque_regressions(c) + opaque_scale(c)


RETRY = data_models(None)


@harness("C01", {"quick": [dict(n=2, m="pwling"), dict(n=3, m="pwling"), dict(n=3, m="kernel")],
                 "thorough": [dict(n=2, m="pwling"), dict(n=3, m="pwling"), dict(n=3, m="kernel"),
                              dict(n=4, m="pwling")]},
         havoc="free", env=env_reg, retry=RETRY)
def direct(c, cfg):
    n = cfg["n"]
    X = any_data(c, n, 2)
    snap = snapshot(X)
    m = lingam.DirectLiNGAM(measure=cfg["m"])
    r = m.fit(X)
    c.check(r is m, "fit returns the model")
    check_unmutated(c, X, snap, "the data are not modified")
    coherent(c, m.causal_order_, m.adjacency_matrix_, n, "DirectLiNGAM")


@harness("C01", {"quick": [dict(n=2, J=3, rows=3), dict(n=3, J=3, rows=2), dict(n=3, J=3, rows=4)],
                 "thorough": [dict(n=2, J=3, rows=3), dict(n=3, J=3, rows=2), dict(n=3, J=3, rows=4),
                              dict(n=4, J=3, rows=2), dict(n=4, J=4, rows=5)]},
         havoc="free", env=env_reg, retry=RETRY)
def highdim(c, cfg):
    n = cfg["n"]
    X = any_data(c, n, cfg["rows"])
    if not c.symbolic:
        X = X[:cfg["rows"]] if cfg["rows"] <= n else X
    snap = snapshot(X)
    m = lingam.HighDimDirectLiNGAM(J=cfg["J"], K=3)
    r = m.fit(X)
    c.check(r is m, "fit returns the model")
    check_unmutated(c, X, snap, "the data are not modified")
    coherent(c, m.causal_order_, m.adjacency_matrix_, n, "HighDimDirectLiNGAM")


@harness("C01", {"quick": [dict(n=2), dict(n=3)], "thorough": [dict(n=2), dict(n=3), dict(n=4)]},
         havoc="free", env=env_reg, retry=RETRY)
def multigroup(c, cfg):
    n = cfg["n"]
    Xs = [any_data(c, n, 2, "x", 0), any_data(c, n, 3, "y", 1)]
    snaps = [snapshot(X) for X in Xs]
    m = lingam.MultiGroupDirectLiNGAM()
    m.fit(Xs)
    for X, s in zip(Xs, snaps):
        check_unmutated(c, X, s, "the data are not modified")
    c.check(len(m.adjacency_matrices_) == 2, "one adjacency matrix per data set")
    for B in m.adjacency_matrices_:
        coherent(c, m.causal_order_, B, n, "MultiGroupDirectLiNGAM")


# ------------------------------------------------------------------ ICA-LiNGAM
def env_ica(c, cfg):
    n = cfg["n"]

    class FastICA:
        def __init__(self, *a, **k):
            pass

        def fit(self, X):
            self.components_ = ica_matrix(c, cfg)
            return self

    def lsa(cost, maximize=False):
        """An optimal assignment (symbolically: the best of all permutations)."""
        if not c.symbolic:
            return scipy.optimize.linear_sum_assignment(cost, maximize=maximize)
        best, bp = None, None
        for p in itertools.permutations(range(n)):
            vals = [cost[i, p[i]] for i in range(n)]
            if any(isinstance(v, float) and v in (np.inf, -np.inf) for v in vals):
                continue
            if cfg["kind"] == "any":
                bp = perms(n)[c.choose("assign", len(perms(n)))]
                break
            s = sum(vals[1:], vals[0])
            if best is None or (bool(s > best) if maximize else bool(s < best)):
                best, bp = s, p
        if bp is None:
            raise ValueError("cost matrix is infeasible")
        return np.arange(n), np.array(bp)
    return (opaque_regressions(c) + module_env(sklearn.decomposition, FastICA=FastICA)
            + module_env(scipy.optimize, linear_sum_assignment=lsa))


def ica_matrix(c, cfg):
    n = cfg["n"]
    W = zeros(c, n, n)
    if cfg["kind"] == "any":
        for i in range(n):
            for j in range(n):
                W[i, j] = c.real(f"w{i}_{j}", nonzero=True)
        return W
    # exact unmixing matrix of an acyclic model: rows of I - B in any order, arbitrarily scaled
    B = exact_B(c, cfg)
    p = perms(n)[c.choose("rows", len(perms(n)))]
    for r in range(n):
        s = c.real(f"s{r}", nonzero=True)
        if not c.symbolic and abs(s) < 1e-3:
            s = 1e-3
        for j in range(n):
            v = (1.0 if p[r] == j else 0.0) - B[p[r], j]
            W[r, j] = v * s if hasattr(v, "n") or v != 0 else 0.0
    return W


def exact_B(c, cfg):
    n = cfg["n"]
    B = zeros(c, n, n)
    o = cfg["order"]
    for a in range(n):
        for b in range(a):
            if (o[a], o[b]) not in [tuple(z) for z in cfg.get("zero", [])]:
                B[o[a], o[b]] = c.real(f"b{o[a]}_{o[b]}", nonzero=True)
    return B


@harness("C01", {"quick": [dict(n=2, kind="any")],
                 "thorough": [dict(n=2, kind="any"), dict(n=3, kind="any")]}, env=env_ica)
def ica_any(c, cfg):
    """Any unmixing matrix at all: the result is still coherent."""
    n = cfg["n"]
    X = np.arange(4.0 * n).reshape(4, n)
    m = lingam.ICALiNGAM()
    m.fit(X)
    coherent(c, m.causal_order_, m.adjacency_matrix_, n, "ICALiNGAM")


E3 = [dict(n=3, kind="exact", order=o, zero=z) for o in ([0, 1, 2], [2, 0, 1]) for z in ([], [(o[2], o[0])], [(o[1], o[0])])]
E2 = [dict(n=2, kind="exact", order=o) for o in ([0, 1], [1, 0])]
ET = [dict(n=3, kind="exact", order=o, zero=z) for o in perms(3) for z in ([], [(o[2], o[0])], [(o[1], o[0])])]


@harness("C01", {"quick": E2 + E3, "thorough": E2 + ET}, env=env_ica)
def ica_exact(c, cfg):
    """The unmixing matrix of an acyclic model, rows permuted and rescaled: its causal order is recovered."""
    n = cfg["n"]
    X = np.arange(5.0 * n).reshape(5, n)
    B = exact_B(c, cfg)
    m = lingam.ICALiNGAM()
    m.fit(X)
    coherent(c, m.causal_order_, m.adjacency_matrix_, n, "ICALiNGAM")
    pos = {int(v): i for i, v in enumerate(m.causal_order_)}
    for i in range(n):
        for j in range(n):
            if not (not hasattr(B[i, j], "n") and B[i, j] == 0):
                c.check(pos[j] < pos[i], f"x{j} causes x{i} in the exact model but comes later in {m.causal_order_}")


# ----------------------------------------------------------------------- RESIT
def env_resit(c, cfg):
    k = [0]

    def hsic(X, Y, *a, **kw):
        k[0] += 1
        return c.real(f"stat{k[0]}", lo=0), c.real(f"p{k[0]}", lo=0, hi=1)
    return [(lingam.hsic.hsic_test_gamma, hsic)]


class Reg:
    def __init__(self, c):
        self.c, self.k = c, 0

    def fit(self, X, y):
        if X.shape[1] == 0:
            raise ValueError("0 features")
        self.m = X.shape[1]
        return self

    def predict(self, X):
        if X.shape[1] != self.m:
            raise ValueError("number of features")
        return np.zeros(X.shape[0])


@harness("C01", {"quick": [dict(n=2), dict(n=3)], "thorough": [dict(n=2), dict(n=3), dict(n=4)]}, env=env_resit)
def resit(c, cfg):
    n = cfg["n"]
    X = np.arange(4.0 * n).reshape(4, n)
    keep = X.copy()
    m = lingam.RESIT(Reg(c), alpha=c.real("alpha", lo=0))
    m.fit(X)
    c.check(np.array_equal(X, keep), "the data are not modified")
    coherent(c, m.causal_order_, m.adjacency_matrix_, n, "RESIT")
    B = m.adjacency_matrix_
    for i in range(n):
        for j in range(n):
            c.check(bor(B[i, j] == 0, B[i, j] == 1), "RESIT entries are 0 or 1")


# ------------------------------------------------- which coefficient goes where
FITS = {}


def flt(a):
    return np.array(np.asarray(a).tolist(), dtype=float)


def column(v, cols):
    """The variable a (possibly rescaled) column shows."""
    v = flt(v)
    for name, w in cols.items():
        if len(w) == len(v):
            a, b = v - v.mean(), w - w.mean()
            if abs(abs(a @ b) / np.sqrt((a @ a) * (b @ b) + 1e-300) - 1) < 1e-9:
                return name
    return None


def env_slots(c, cfg):
    FITS.clear()
    FITS.update(cols={}, bad=[])
    if not c.symbolic:
        return []

    def make(kind):
        class Reg:
            intercept_ = 0.0

            def __init__(self, *a, **k):
                pass

            def fit(self, X, y, sample_weight=None):
                t = column(np.ravel(y), FITS["cols"])
                P = [column(X[:, k], FITS["cols"]) for k in range(np.shape(X)[1])]
                if t is None or None in P:
                    FITS["bad"].append((t, P))
                raw = t is not None and np.allclose(flt(np.ravel(y)).std(), FITS["cols"][t].std())
                if kind == "lasso":
                    self.coef_ = vec(c, [c.real(f"l{t}<{p}") if t in FITS["sym"] else 1.0 for p in P])
                elif raw:
                    self.coef_ = vec(c, [c.real(f"c{t}<{p}", nonzero=True) for p in P])
                else:
                    self.coef_ = vec(c, [1.0] * len(P))
                return self
        return Reg

    class Scaler:
        def __init__(self, *a, **k):
            pass

        def fit_transform(self, X, y=None):
            X = flt(X)
            return (X - X.mean(0)) / X.std(0)
    return (module_env(sklearn.linear_model, LinearRegression=make("ols"), LassoLarsIC=make("lasso"),
                       LassoLarsCV=make("lasso")) + module_env(sklearn.preprocessing, StandardScaler=Scaler))


CLS = ("direct", "group", "highdim", "parce")
SL = [dict(n=3, cls=k, pk=p) for k in CLS for p in ((False, True) if k != "highdim" else (False,))]


SL.append(dict(n=5, cls="highdim", pk=False, rows=5))
SL += [dict(n=6, cls=k, pk=False, open=3) for k in CLS] + [dict(n=5, cls=k, pk=True, open=2) for k in ("direct", "group", "parce")]


@harness("C01", {"quick": SL, "thorough": SL + [dict(n=4, cls=k, pk=False) for k in CLS]}, env=env_slots)
def coefficients(c, cfg):
    """Entry [i, j] is the coefficient of j in the estimation of i from the variables before it."""
    n, cls = cfg["n"], cfg["cls"]
    some = perms(n) if n < 4 else perms(n)[::7] if "open" not in cfg else perms(n)[5::len(perms(n)) // 4]
    true = some[c.choose("true", len(some))]
    pk = None
    kw = {}
    if cfg["pk"]:
        pk = np.full((n, n), -1)
        pos = [(i, j) for i in range(n) for j in range(n) if i != j]
        if "open" in cfg:
            pos = pos[::3]
        pk[pos[c.choose("at", len(pos))]] = 0
        kw["prior_knowledge"] = pk
    G = 2 if cls == "group" else 1
    Xs = [np.round(sem_data(n, true, g, 30 + 5 * g), 3) + np.arange(n) for g in range(G)]
    few = cfg.get("rows")
    if few:
        Xs = [X[:few] for X in Xs]
    FITS["sym"] = {f"g{g}x{j}" for g in range(G) for j in range(n) if (not few or j == true[-1]) and
                   ("open" not in cfg or (j == true[cfg["open"]] and g == 0))}
    for g, X in enumerate(Xs):
        for j in range(n):
            FITS["cols"][f"g{g}x{j}"] = X[:, j].copy()
    if cls == "direct":
        m = lingam.DirectLiNGAM(**kw).fit(Xs[0])
    elif cls == "group":
        m = lingam.MultiGroupDirectLiNGAM(**kw).fit(Xs)
    elif cls == "parce":
        m = lingam.BottomUpParceLiNGAM(alpha=0, **kw).fit(Xs[0])
    else:
        m = lingam.HighDimDirectLiNGAM(J=3, K=3).fit(Xs[0])
    Bs = m.adjacency_matrices_ if cls == "group" else [m.adjacency_matrix_]
    order = [int(v) for v in m.causal_order_]
    if c.symbolic:
        c.check(not FITS["bad"], "variables are estimated from other variables")
    c.check(len(Bs) == G, "one matrix per data set")
    for g, B in enumerate(Bs):
        for k, i in enumerate(order):
            P = [j for j in order[:k] if pk is None or pk[i, j] != 0]
            if c.symbolic:
                ref = {}
                for j in P:
                    t, q = f"g{g}x{i}", f"g{g}x{j}"
                    kept = t not in FITS["sym"] or bool(c.real(f"l{t}<{q}") != 0)
                    ref[j] = c.real(f"c{t}<{q}", nonzero=True) if kept else 0.0
            else:
                ref = ref_lasso(Xs[g].T, i, P, LassoLarsCV() if few else None) if P else {}
            for j in range(n):
                c.check_eq(B[i, j], ref.get(j, 0.0), f"{cls}: entry [{i}, {j}] for the order {order}")
