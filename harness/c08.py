"""C08: what a fitted longitudinal model reports."""
import numpy as np
import sklearn.linear_model

import lingam
import lingam.longitudinal_lingam
from symx.core import PathCut
from symx.run import harness

from .c06 import ImB, matrix_eq, times
from .c07 import eq
from .fakes import module_env
from .fitted import generic
from .lib import arr, check_unmutated, dag, isnan, raises, snapshot, zeros

META = {
    "bounds": "2-5 variables, 3-12 time points, 1-3 lags, all real regression coefficients, instantaneous matrices with "
              "all real coefficients and varying causal orders, 81 prior-knowledge patterns per configuration; fixed data",
    "outside": "more variables or time points; the least-squares fit and the order search themselves (C01)",
    "assumptions": ["each regression returns arbitrary coefficients; the instantaneous model returns an arbitrary acyclic "
                    "matrix (replays use the real ones)"],
}
REAL_DL = lingam.DirectLiNGAM
CUR = {}


def panel(c, n, T, model=None):
    rows = 6 if c.symbolic else 50
    s = int(c.model.get("seed", 0)) if not c.symbolic else 0
    Xs = [generic(rows, n, 100 + 13 * t + s) for t in range(T)]
    if not c.symbolic:
        # effects over time, also crossed between the variables
        for t in range(1, T):
            for back in range(1, t + 1):
                Xs[t] = Xs[t] + 0.9 / back * Xs[t - back] - 0.6 / back * Xs[t - back][:, ::-1]
    return [np.round(x * 64) / 64 for x in Xs]


def env(c, cfg):
    CUR.clear()
    CUR.update(fits=[], cols={})
    if not c.symbolic:
        return []
    n = cfg["n"]

    def find(v):
        for name, w in CUR["cols"].items():
            if len(v) == len(w) and all(eq(a, b) for a, b in zip(v, w)):
                return name
        CUR["n"] = CUR.get("n", 0) + 1
        return f"?{CUR['n']}"

    class LR:
        def __init__(self, *a, **k):
            pass

        def fit(self, X, y, sample_weight=None):
            P = [find([X[r, j] for r in range(np.shape(X)[0])]) for j in range(np.shape(X)[1])]
            Y = y.reshape(-1, 1) if np.ndim(y) == 1 else y
            Q = [find([Y[r, j] for r in range(np.shape(Y)[0])]) for j in range(np.shape(Y)[1])]
            CUR["fits"].append((Q, P))
            M = arr(c, [[c.real(f"m{b}<{a}") for a in P] for b in Q])
            self.coef_ = M[0] if np.ndim(y) == 1 else M
            self.intercept_ = arr(c, [c.real(f"i{b}") for b in Q])
            if np.ndim(y) == 1:
                self.intercept_ = self.intercept_[0]
            return self

        def predict(self, X):
            return X @ self.coef_.T + self.intercept_

    class Inner(REAL_DL):
        def __init__(self, random_state=None, prior_knowledge=None, apply_prior_knowledge_softly=False,
                     measure="pwling"):
            self.pk = prior_knowledge
            CUR.setdefault('measures', []).append(measure)

        def fit(self, X):
            n_ = np.shape(X)[1]
            k = len(CUR.setdefault("inner", []))
            order = order_of(k, n_) if n_ == n else list(CUR["order"])
            B = dag(c, f"b{k}_", n_, order, zero=CUR.get("zero", ()))
            CUR["inner"].append((X, B, order, self.pk))
            self._causal_order, self._adjacency_matrix = list(order), B.copy()
            return self
    return module_env(sklearn.linear_model, LinearRegression=LR) + [(REAL_DL, Inner)]


def order_of(k, n):
    r = (k + 1) % n
    return list(range(n))[r:] + list(range(n))[:r]


def seeds(cfg, model):
    out = []
    for s in range(4):
        out.append(dict(model, seed=1000 * (s + 1)))
    return out


@harness("C08", [dict(n=2, T=3, L=1), dict(n=3, T=3, L=1), dict(n=2, T=4, L=2), dict(n=2, T=4, L=3), dict(n=3, T=3, L=1, measure='kernel'),
                 dict(n=4, T=5, L=2), dict(n=5, T=3, L=1), dict(n=2, T=12, L=1)], env=env,
         retry=seeds, tol=1e-6)
def plain(c, cfg):
    n, T, L = cfg["n"], cfg["T"], cfg["L"]
    Xs = panel(c, n, T)
    snaps = [snapshot(x) for x in Xs]
    for t in range(T):
        for j in range(n):
            CUR["cols"][f"x{j}_{t}"] = Xs[t][:, j].tolist()
    measure = cfg.get('measure', 'pwling')
    m = lingam.LongitudinalLiNGAM(n_lags=L, measure=measure)
    c.check(m.fit(list(Xs)) is m, "fit returns the model")
    for x, s in zip(Xs, snaps):
        check_unmutated(c, x, s, "the data are not modified")
    am, orders, res = m.adjacency_matrices_, m.causal_orders_, m.residuals_
    c.check(np.shape(am) == (T, L + 1, n, n) and len(orders) == T and np.shape(res) == (T, len(Xs[0]), n), "shapes")
    for t in range(L):
        c.check(all(isnan(v) for v in np.asarray(am[t], dtype=object).ravel().tolist()), f"no estimates at {t}")
        c.check(all(isnan(v) for v in orders[t]), f"no order at {t}")
    if c.symbolic:
        c.check(all(v == measure for v in CUR.get("measures", [])), "the requested measure is used")
    for t in range(L, T):
        if c.symbolic:
            M = [arr(c, [[c.real(f"mx{i}_{t}<x{j}_{t - lag}") for j in range(n)] for i in range(n)])
                 for lag in range(1, L + 1)]
        else:
            P = np.column_stack([np.ones(len(Xs[0]))] + [Xs[t - lag] for lag in range(1, L + 1)])
            co = np.linalg.lstsq(P, Xs[t], rcond=None)[0][1:].T
            M = [co[:, n * k:n * k + n] for k in range(L)]
        R = zeros(c, len(Xs[0]), n)
        for r in range(len(R)):
            for i in range(n):
                v = Xs[t][r, i]
                for lag in range(1, L + 1):
                    for j in range(n):
                        v = v - M[lag - 1][i, j] * Xs[t - lag][r, j]
                R[r, i] = v
        matrix_eq(c, res[t], R, f"residuals of time {t}")
        if c.symbolic:
            hit = [(B, o) for X, B, o, _ in CUR.get("inner", []) if np.shape(X) == np.shape(R) and all(
                eq(X[k], R[k]) for k in np.ndindex(*np.shape(R)))]
            c.check(len(hit) >= 1, f"the residuals of time {t} determine its instantaneous effects")
            B0, order = hit[-1]
        else:
            ref = REAL_DL(measure=measure).fit(R)
            B0, order = ref.adjacency_matrix_, ref.causal_order_
        c.check([int(v) for v in orders[t]] == list(order), f"causal order of time {t}")
        matrix_eq(c, am[t][0], B0, f"instantaneous effects at {t}")
        for lag in range(1, L + 1):
            matrix_eq(c, am[t][lag], arr(c, times(ImB(B0, n), M[lag - 1], n)), f"effects of {t - lag} on {t}")


PK = [dict(n=2, T=3, L=1), dict(n=2, T=4, L=2), dict(n=3, T=3, L=1), dict(n=2, T=5, L=3), dict(n=4, T=3, L=1)]


@harness("C08", PK, env=env, retry=seeds, tol=1e-6)
def prior_knowledge(c, cfg):
    n, T, L = cfg["n"], cfg["T"], cfg["L"]
    N = n * T
    Xs = panel(c, n, T)
    pk = np.full((T, L + 1, n, n), -1.0)
    spots = [(L, 0, 1, 0), (L, 1, 0, 1), (T - 1, L, n - 1, 0), (0, 0, 1, 0)]
    for k, s in enumerate(spots):
        pk[s] = [-1, 0, 1][c.choose(f"pk{k}", 3)]
    pk[T - 1, 0, 0, n - 1] = 0
    snap = snapshot(pk)
    want = np.zeros((N, N))
    for a in range(T):
        for b in range(max(0, a - L), a + 1):
            want[a * n:a * n + n, b * n:b * n + n] = pk[a, a - b]
    order = [t * n + k for t in range(T) for k in order_of(t, n)]
    CUR["order"] = order
    CUR["zero"] = [(i, j) for i in range(N) for j in range(N) if want[i, j] == 0]
    m = lingam.LongitudinalLiNGAM(n_lags=L, prior_knowledge=pk).fit(list(Xs))
    check_unmutated(c, pk, snap, "the prior knowledge is not modified")
    if c.symbolic:
        c.check(len(CUR.get("inner", [])) == 1, "one model over all time points")
        X, B, _, got = CUR["inner"][0]
        c.check(np.shape(X) == (len(Xs[0]), N) and all(eq(X[r, t * n + j], Xs[t][r, j]) for r in range(len(Xs[0]))
                                                       for t in range(T) for j in range(n)), "all time points are used")
        c.check(np.shape(got) == (N, N) and all(float(got[i, j]) == want[i, j] for i in range(N) for j in range(N)
                                                if i != j), "the prior knowledge is passed on")
    else:
        ref = REAL_DL(prior_knowledge=want).fit(np.column_stack(Xs))
        B, order = ref.adjacency_matrix_, list(ref.causal_order_)
    am, orders = m.adjacency_matrices_, m.causal_orders_
    c.check(np.shape(am) == (T, L + 1, n, n) and len(orders) == T, "shapes")
    for t in range(T):
        if t < L:
            c.check(all(isnan(v) for v in np.asarray(am[t], dtype=object).ravel().tolist()), f"no estimates at {t}")
            c.check(all(isnan(v) for v in orders[t]), f"no order at {t}")
            continue
        c.check([int(v) for v in orders[t]] == [v - t * n for v in order if t * n <= v < t * n + n],
                f"causal order of time {t}")
        for lag in range(L + 1):
            matrix_eq(c, am[t][lag], B[t * n:t * n + n, (t - lag) * n:(t - lag) * n + n], f"effects of {t - lag} on {t}")
    # (I - B0) N(t) are the errors
    res = m.residuals_
    for t in range(L, T):
        for r in range(2):
            for i in range(n):
                e = Xs[t][r, i]
                lhs = res[t][r, i]
                for lag in range(L + 1):
                    for j in range(n):
                        e = e - am[t][lag][i, j] * Xs[t - lag][r, j]
                for j in range(n):
                    lhs = lhs - am[t][0][i, j] * res[t][r, j]
                c.check_eq(lhs, e, f"residuals of time {t}")


@harness("C08", [dict(n=2)], env=env)
def arguments(c, cfg):
    A, D = generic(8, 2), generic(8, 3)
    bad = [5, [A], [A, D], [A, generic(9, 2)]]
    k = c.choose("bad", len(bad) + 2)
    if k < len(bad):
        fn = lambda: lingam.LongitudinalLiNGAM().fit(bad[k])  # noqa: E731
    elif k == len(bad):
        fn = lambda: lingam.LongitudinalLiNGAM(prior_knowledge=np.zeros((2, 2, 2)))  # noqa: E731
    else:
        fn = lambda: lingam.LongitudinalLiNGAM(n_lags=2, prior_knowledge=np.full((3, 2, 2, 2), -1)).fit([A, A, A])  # noqa: E731
    _, e = raises(fn)
    c.check(isinstance(e, ValueError), f"invalid input {k} is rejected")
