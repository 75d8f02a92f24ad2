"""C06: what a bootstrap run stores."""
import numpy as np
import statsmodels.tsa.statespace.varmax
import statsmodels.tsa.vector_ar.var_model

import lingam
from lingam.base import _BaseLiNGAM
from symx.core import PathCut
from symx.run import harness

from .c09 import path_sum, unrolled
from .fakes import module_env
from .fitted import generic
from .lib import arr, check_unmutated, dag, isnan, part, raises, snapshot, zeros

META = {
    "bounds": "2-3 bootstrap samples, 3 variables (lagged models: 2 variables, 1-2 lags; longitudinal: 3-4 time points), "
              "also 4-5 samples of 5 variables with two symbolic coefficients in two of them; an arbitrary model per sample (all real coefficients, several causal orders, unknown-direction pairs)",
    "outside": "the random draws themselves (fixed seed); more samples or variables",
    "assumptions": ["each fit returns an arbitrary model; VAR/VARMA estimation returns arbitrary coefficients"],
}
ORDERS = [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
ROWS = 7


def data(n, seed=0, rows=ROWS):
    return generic(rows, n, 40 + seed)


def rows_of(c, R, X, what):
    """Every row of R is a row of X; returns the row numbers."""
    R, X = np.asarray(R, dtype=float), np.asarray(X, dtype=float)
    c.check(R.shape == X.shape, what + ": a resample has the size of the data")
    out = []
    for r in R:
        k = [i for i in range(len(X)) if np.allclose(X[i], r)]
        c.check(len(k) == 1, what + ": every resampled row is a row of the data")
        out.append(k[0])
    return out


def redrawn(c, lists):
    c.check(any(len(set(r)) < len(r) for r in lists), "rows are drawn with replacement")


def effects_ok(c, TE, B, n, known, what):
    c.check(tuple(np.shape(TE)) == (n, n), f"{what}: effects between all variables")
    for i in range(n):
        for j in range(n):
            e = known(i, j)
            if e is None:
                c.check_eq(TE[i, j], 0.0, f"{what}: no effect stored for {j}->{i}")
            else:
                c.check_eq(TE[i, j], e, f"{what}: total effect {j}->{i}")


def matrix_eq(c, A, B, what):
    c.check(tuple(np.shape(A)) == tuple(np.shape(B)), what + ": shape")
    for idx in np.ndindex(*np.shape(B)):
        c.check_eq(A[idx], B[idx], f"{what} at {idx}")


# ------------------------------------------------------------------- plain
BIG = [[3, 0, 4, 1, 2], [0, 4, 2, 3, 1], [4, 3, 2, 1, 0], [1, 2, 0, 4, 3]]


def some_dags(c, n, orders):
    if n == 3:
        return [dag(c, f"b{k}_", n, o) for k, o in enumerate(orders)]
    return [part(c, f"b{k}_", n, o, ((2, 1), (4, 3)) if k in (0, len(orders) - 1) else (), ((k % 3 + 1, 0), (4, 1)))
            for k, o in enumerate(orders)]


@harness("C06", [dict(orders=(0, 1)), dict(orders=(2, 3)), dict(n=5, orders=(0, 1, 2, 3, 0))])
def plain(c, cfg):
    n = cfg.get("n", 3)
    seen = []
    orders = [(ORDERS if n == 3 else BIG)[k] for k in cfg["orders"]]
    Bs = some_dags(c, n, orders)

    class Fake(_BaseLiNGAM):
        def fit(self, X):
            k = len(seen)
            if k >= len(orders):
                raise PathCut("more fits than samples")
            seen.append(np.array(X, dtype=float))
            self._causal_order = list(orders[k])
            self._adjacency_matrix = Bs[k].copy()
            return self
    X = data(n)
    snap = snapshot(X)
    r = Fake().bootstrap(X, len(orders))
    check_unmutated(c, X, snap, "the data are not modified")
    c.check(len(r.adjacency_matrices_) == len(orders) and len(r.total_effects_) == len(orders), "one entry per sample")
    idx = r.resampled_indices_
    c.check(len(idx) == len(orders), "one index list per sample")
    for k, o in enumerate(orders):
        matrix_eq(c, r.adjacency_matrices_[k], Bs[k], f"sample {k}: matrix")
        got = rows_of(c, seen[k], X, f"sample {k}")
        c.check([int(v) for v in idx[k]] == got, f"sample {k}: the stored indices are those of the resample")
        effects_ok(c, r.total_effects_[k], Bs[k], n,
                   lambda i, j: path_sum(c, Bs[k], n, j, i) if o.index(j) < o.index(i) else None, f"sample {k}")
    redrawn(c, [rows_of(c, s, X, "resample") for s in seen])
    if len(orders) > 1:
        c.check(not np.array_equal(seen[0], seen[1]), "the samples are drawn anew")


@harness("C06", [dict(k=k) for k in ("plain", "rcd", "bottomup", "mg", "mgrcd")])
def arguments(c, cfg):
    class Fake(_BaseLiNGAM):
        def fit(self, X):
            raise PathCut("fit reached")
    m = {"plain": Fake, "rcd": lingam.RCD, "bottomup": lingam.BottomUpParceLiNGAM, "mg": lingam.MultiGroupDirectLiNGAM,
         "mgrcd": lingam.MultiGroupRCD}[cfg["k"]]()
    X = [data(3), data(3, 1)] if cfg["k"].startswith("mg") else data(3)
    for bad in (0, -1, 2.5, "3"):
        _, e = raises(lambda: m.bootstrap(X, bad))
        c.check(isinstance(e, ValueError), f"n_sampling={bad!r} is rejected")


# ------------------------------------------------------- unknown directions
def subclass(base, seen, install):
    class Fake(base):
        def fit(self, X):
            k = len(seen)
            seen.append([np.array(x, dtype=float) for x in X] if isinstance(X, list) else np.array(X, dtype=float))
            self._check_X_list(X) if isinstance(X, list) else None
            install(self, k)
            return self
    return Fake


BU = [dict(samples=(([0, 1, 2], 1), ([2, 0, 1], 2))), dict(samples=(([1, 2, 0], 3), ([1, 0, 2], 1))),
      dict(n=5, samples=((BIG[0], 1), (BIG[1], 3), (BIG[2], 2), (BIG[3], 5)))]


@harness("C06", BU)
def bottom_up(c, cfg):
    n, seen = cfg.get("n", 3), []
    Bs, orders = [], []
    for k, ((o, b), B) in enumerate(zip(cfg["samples"], some_dags(c, n, [o for o, _ in cfg["samples"]]))):
        if b > 1:
            for i in o[:b]:
                for j in o[:b]:
                    if i != j:
                        B[i, j] = np.nan
        Bs.append(B)
        orders.append(([sorted(o[:b])] if b > 1 else []) + [x for x in (o[b:] if b > 1 else o)])

    def install(m, k):
        m._causal_order, m._adjacency_matrix = list(orders[k]), Bs[k].copy()
    X = data(n)
    r = subclass(lingam.BottomUpParceLiNGAM, seen, install)().bootstrap(X, len(Bs))
    c.check(len(r.adjacency_matrices_) == len(Bs) and len(r.total_effects_) == len(Bs), "one entry per sample")
    for k, (o, b) in enumerate(cfg["samples"]):
        matrix_eq(c, r.adjacency_matrices_[k], Bs[k], f"sample {k}: matrix")
        rows_of(c, seen[k], X, f"sample {k}")
        blk = set(o[:b]) if b > 1 else set()

        def known(i, j):
            if i in blk or (j not in blk and o.index(j) >= o.index(i)):
                return None
            return np.nan if j in blk else path_sum(c, Bs[k], n, j, i)
        effects_ok(c, r.total_effects_[k], Bs[k], n, known, f"sample {k}")
    redrawn(c, [rows_of(c, s, X, "resample") for s in seen])


RC = [dict(samples=(([0, 1, 2], None), ([2, 0, 1], (0, 1)))), dict(samples=(([1, 0, 2], (0, 2)), ([0, 2, 1], (0, 2)))),
      dict(n=5, samples=((BIG[0], None), (BIG[1], (4, 2)), (BIG[2], (1, 0)), (BIG[3], (0, 3))))]


def ancestral(c, cfg, tag, n=3):
    Bs, anc = [], []
    for k, ((o, cf), B) in enumerate(zip(cfg["samples"], some_dags(c, n, [o for o, _ in cfg["samples"]]))):
        A = [set(o[:o.index(i)]) for i in range(n)]
        if cf:
            B[cf[0], cf[1]] = B[cf[1], cf[0]] = np.nan
            A[cf[0]].discard(cf[1])
            A[cf[1]].discard(cf[0])
        Bs.append(B)
        anc.append(A)
    return Bs, anc


@harness("C06", RC)
def rcd(c, cfg):
    n, seen = cfg.get("n", 3), []
    Bs, anc = ancestral(c, cfg, "b", n)

    def install(m, k):
        m._ancestors_list, m._adjacency_matrix = [set(a) for a in anc[k]], Bs[k].copy()
    X = data(n)
    r = subclass(lingam.RCD, seen, install)().bootstrap(X, len(Bs))
    c.check(len(r.adjacency_matrices_) == len(Bs) and len(r.total_effects_) == len(Bs), "one entry per sample")
    for k in range(len(Bs)):
        matrix_eq(c, r.adjacency_matrices_[k], Bs[k], f"sample {k}: matrix")
        rows_of(c, seen[k], X, f"sample {k}")

        def known(i, j):
            if j not in anc[k][i]:
                return None
            return np.nan if any(isnan(Bs[k][j, h]) for h in range(n)) else path_sum(c, Bs[k], n, j, i)
        effects_ok(c, r.total_effects_[k], Bs[k], n, known, f"sample {k}")
    redrawn(c, [rows_of(c, s, X, "resample") for s in seen])


@harness("C06", [dict(samples=(([0, 1, 2], None), ([2, 0, 1], None)), k="mgdirect"),
                 dict(samples=(([0, 1, 2], None), ([2, 0, 1], (0, 1))), k="mgrcd")], max_decisions=6000)
def groups(c, cfg):
    n, seen = 3, []
    B0, anc = ancestral(c, cfg, "b")
    B1 = []
    for k, (o, cf) in enumerate(cfg["samples"]):
        D = zeros(c, n, n)
        D[o[2], o[0]] = c.real(f"d{k}")
        D[o[1], o[0]] = 0.5
        if cf:
            D[cf[0], cf[1]] = D[cf[1], cf[0]] = np.nan
        B1.append(D)
    groups_ = [B0, B1]

    def install(m, k):
        m._adjacency_matrices = [g[k].copy() for g in groups_]
        if cfg["k"] == "mgrcd":
            m._ancestors_list = [set(a) for a in anc[k]]
        else:
            m._causal_order = list(cfg["samples"][k][0])
    Xs = [data(n), data(n, 1, ROWS + 2)]
    base = lingam.MultiGroupRCD if cfg["k"] == "mgrcd" else lingam.MultiGroupDirectLiNGAM
    rs = subclass(base, seen, install)().bootstrap(Xs, 2)
    c.check(len(rs) == 2, "one result per group")
    for g, r in enumerate(rs):
        for k in range(2):
            rows_of(c, seen[k][g], Xs[g], f"group {g} sample {k}")
            matrix_eq(c, r.adjacency_matrices_[k], groups_[g][k], f"group {g} sample {k}: matrix")
            B = groups_[g][k]

            def known(i, j):
                if j not in anc[k][i]:
                    return None
                if any(isnan(B[j, h]) for h in range(n)):
                    return None
                return path_sum(c, B, n, j, i)
            effects_ok(c, r.total_effects_[k], B, n, known, f"group {g} sample {k}")
    redrawn(c, [rows_of(c, s[g], Xs[g], "resample") for s in seen for g in range(2)])


# ------------------------------------------------------------ longitudinal
@harness("C06", [dict(T=3, L=1, start=None), dict(T=3, L=1, start=2), dict(T=4, L=2, start=None)])
def longitudinal(c, cfg):
    n, T, L, seen = 2, cfg["T"], cfg["L"], []
    As, orders = [], []
    for k in range(2):
        A = zeros(c, T, L + 1, n, n)
        od = [[np.nan] * n if t < L else ([0, 1] if (t + k) % 2 else [1, 0]) for t in range(T)]
        for t in range(T):
            if t < L:
                A[t] = np.nan
                continue
            for lag in range(L + 1):
                for i in range(n):
                    for j in range(n):
                        if lag == 0 and od[t].index(j) >= od[t].index(i):
                            continue
                        A[t, lag, i, j] = c.real(f"a{k}_{t}_{lag}_{i}_{j}") if (
                            lag == 0 or (t == T - 1 and k == 0 and i == j)) else 0.25 + 0.5 * i - 0.375 * j
        As.append(A)
        orders.append(od)

    class Fake(lingam.LongitudinalLiNGAM):
        def fit(self, X_list):
            k = len(seen)
            seen.append([np.array(x, dtype=float) for x in X_list])
            self._adjacency_matrices, self._causal_orders = As[k].copy(), [list(o) for o in orders[k]]
            return self
    Xs = [data(n, t) for t in range(T)]
    kw = {} if cfg["start"] is None else {"start_from_t": cfg["start"]}
    r = Fake(n_lags=L).bootstrap(Xs, 2, **kw)
    first = max(cfg["start"] or 1, L)
    drawn = []
    for k in range(2):
        matrix_eq(c, r.adjacency_matrices_[k], As[k], f"sample {k}: matrices")
        rows = [rows_of(c, seen[k][t], Xs[t], f"sample {k} time {t}") for t in range(T)]
        c.check(all(x == rows[0] for x in rows), "the same individuals are drawn at every time point")
        drawn.append(rows[0])
        TE = r.total_effects_[k]
        c.check(tuple(np.shape(TE)) == (T * n, T * n), "effects between all time points")
        for tt in range(T):
            for t in range(n):
                for ft in range(T):
                    for f in range(n):
                        v = TE[tt * n + t, ft * n + f]
                        ok = ft >= first and (tt > ft or (tt == ft and f != t and
                                                          orders[k][ft].index(f) < orders[k][ft].index(t)))
                        if not ok:
                            c.check_eq(v, 0.0, f"sample {k}: no effect stored for {f}({ft})->{t}({tt})")
                            continue
                        w = tt - ft
                        U = [[0.0] * (n * (w + 1)) for _ in range(n * (w + 1))]
                        for a in range(w + 1):
                            for b in range(max(0, a - L), a + 1):
                                for i in range(n):
                                    for j in range(n):
                                        U[a * n + i][b * n + j] = As[k][ft + a, a - b, i, j]
                        c.check_eq(v, path_sum(c, U, n * (w + 1), f, w * n + t), f"sample {k}: {f}({ft})->{t}({tt})")
    redrawn(c, drawn)


# -------------------------------------------------------------- time series
CUR = {}


def ts_env(c, cfg):
    CUR.clear()
    CUR.update(c=c, cfg=cfg, calls=[])
    n, L = cfg["n"], cfg["L"]

    class Res:
        pass

    def result(X, p, q):
        k = len(CUR["calls"])
        CUR["calls"].append(X)
        r = Res()
        r.coefs = coef(c, f"m{k}_", p, n, k)
        r.k_ar = p
        r.resid = np.round(generic(ROWS - p if q is None else ROWS, n, 60 + k) * 64) / 64
        r.coefficient_matrices_var = r.coefs
        r.coefficient_matrices_vma = coef(c, f"w{k}_", q or 0, n, k + 1)
        r.specification = {"order": (p, q)}
        r.aic = r.bic = r.hqic = r.fpe = 0.0
        CUR.setdefault("res", []).append(r)
        return r

    class VAR:
        def __init__(self, X, *a, **k):
            self.X = X

        def fit(self, maxlags=None, *a, **k):
            return result(self.X, maxlags, None)

    class VARMAX:
        def __init__(self, X, order=None, *a, **k):
            self.X, self.order = X, order

        def fit(self, *a, **k):
            return result(self.X, *self.order)
    return (module_env(statsmodels.tsa.vector_ar.var_model, VAR=VAR)
            + module_env(statsmodels.tsa.statespace.varmax, VARMAX=VARMAX))


def coef(c, name, lags, n, k):
    A = zeros(c, lags, n, n)
    for lag in range(lags):
        for i in range(n):
            for j in range(n):
                A[lag, i, j] = c.real(f"{name}{lag}_{i}_{j}") if i == j and (k < 2 or lag == 0) else (
                    0.25 + 0.5 * i - 0.375 * j + 0.125 * lag)
    return A


class FakeInner(_BaseLiNGAM):
    """The instantaneous model of each fit."""

    def __init__(self, c, n):
        super().__init__()
        self.c, self.n, self.k, self.B, self.orders, self.got, self.after = c, n, 0, [], [], [], None

    def fit(self, X):
        k = self.k
        self.k += 1
        self.got.append(X)
        o = [list(range(self.n)), [self.n - 1] + list(range(self.n - 1))][k % 2]
        self._causal_order, self._adjacency_matrix = o, dag(self.c, f"b{k}_", self.n, o)
        self.B.append(self._adjacency_matrix.copy())
        self.orders.append(o)
        if self.after:
            self.after(X)
        return self


def numeq(c, a, b):
    d = a - b
    if c.symbolic and hasattr(d, "is_const"):
        return d.is_const() and abs(float(d.value())) < 1e-7
    return abs(float(d)) < 1e-7


def is_row(c, v, R):
    return any(all(numeq(c, v[i], R[k, i]) for i in range(len(v))) for k in range(len(R)))


def lag_effects(c, TE, Bs, n, p, order, what):
    c.check(tuple(np.shape(TE)) == (n, n * (1 + p)), what + ": effects of every lag")
    for i in range(n):
        for j in range(n):
            if order.index(j) < order.index(i):
                c.check_eq(TE[i, j], path_sum(c, Bs[0], n, j, i), f"{what}: {j}->{i}")
            else:
                c.check_eq(TE[i, j], 0.0, f"{what}: nothing for {j}->{i}")
            for lag in range(1, p + 1):
                A = unrolled(Bs, n, lag)
                c.check_eq(TE[i, n * lag + j], path_sum(c, A, n * (lag + 1), lag * n + j, i),
                           f"{what}: {j}(t-{lag})->{i}")


def times(A, B, n):
    return [[sum((A[i][k] * B[k][j] for k in range(n)), 0.0) for j in range(n)] for i in range(n)]


def ImB(B, n):
    return [[(1.0 if i == j else 0.0) - B[i, j] for j in range(n)] for i in range(n)]


@harness("C06", [dict(n=2, L=1, given=False), dict(n=2, L=2, given=False), dict(n=2, L=1, given=True)], env=ts_env)
def var(c, cfg):
    n, L = cfg["n"], cfg["L"]
    inner = FakeInner(c, n)
    X = data(n)
    kw = {"ar_coefs": coef(c, "g", L, n, 0)} if cfg["given"] else {}
    m = lingam.VARLiNGAM(lags=L, criterion="bic", prune=False, lingam_model=inner, **kw)
    r = m.bootstrap(X, 2)
    c.check(inner.k == 3, "one fit for the data and one per sample")
    if cfg["given"]:
        Ms = [kw["ar_coefs"]] * 3
        R0 = np.asarray([[x for x in row] for row in inner.got[0]], dtype=object)
        sims = None
    else:
        res = CUR["res"]
        if len(res) != 3:
            raise PathCut("VAR estimation not called once per fit")
        Ms = [q.coefs for q in res]
        R0 = res[0].resid
        sims = CUR["calls"]
        simulated(c, sims, Ms[0], None, R0, L, n)
    for k in range(2):
        lag_sample(c, r, k, inner, Ms[k + 1], None, n, L)


def simulated(c, sims, M, W, R0, L, n):
    """The data of every sample obey the fitted equations with residuals drawn from those of the fit."""
    for k, S_ in enumerate(sims[1:]):
        c.check(np.shape(S_) == (ROWS, n), f"sample {k}: as long as the data")
        for t in range(L, ROWS):
            v = [S_[t, i] for i in range(n)]
            for lag in range(len(M)):
                for i in range(n):
                    for j in range(n):
                        v[i] = v[i] - M[lag][i, j] * S_[t - lag - 1, j]
            c.check(is_row(c, v, R0), f"sample {k}, time {t}: simulated from the fitted model and its residuals")


def lag_sample(c, r, k, inner, M, W, n, p):
    B0 = inner.B[k + 1]
    Bs = [B0]
    for lag in range(p):
        Bs.append(arr(c, times(ImB(B0, n), M[lag], n)))
    am = r.adjacency_matrices_[k]
    for lag in range(p + 1):
        matrix_eq(c, am[:, lag * n:(lag + 1) * n], Bs[lag], f"sample {k}: lag {lag}")
    lag_effects(c, r.total_effects_[k], Bs, n, p, inner.orders[k + 1], f"sample {k}")
    return Bs


@harness("C06", [dict(n=2, L=(1, 1)), dict(n=2, L=(2, 1))], env=ts_env)
def varma(c, cfg):
    n, (p, q) = cfg["n"], cfg["L"]
    inner = FakeInner(c, n)
    X = data(n)
    m = lingam.VARMALiNGAM(order=(p, q), criterion="bic", prune=False, lingam_model=inner)
    r = m.bootstrap(X, 2)
    c.check(inner.k == 3, "one fit for the data and one per sample")
    res = CUR["res"]
    if len(res) != 3:
        raise PathCut("VARMA estimation not called once per fit")
    for k in range(2):
        lag_sample(c, r, k, inner, res[k + 1].coefs, None, n, p)
        c.check(np.shape(r.adjacency_matrices_[k])[1] == n * (1 + p + q), "MA coefficients follow")
    # the simulated data: start values are residual draws, so the whole draw can be recovered
    M, W, R0 = res[0].coefs, res[0].coefficient_matrices_vma, res[0].resid
    for k, S_ in enumerate(CUR["calls"][1:]):
        e = []
        for t in range(ROWS):
            v = [S_[t, i] for i in range(n)]
            if t >= max(p, q):
                for i in range(n):
                    for j in range(n):
                        for lag in range(p):
                            v[i] = v[i] - M[lag][i, j] * S_[t - lag - 1, j]
                        for lag in range(q):
                            v[i] = v[i] - W[lag][i, j] * e[t - lag - 1][j]
            c.check(is_row(c, v, R0), f"sample {k}, time {t}: simulated from the fitted model and its residuals")
            e.append(v)
