"""C07: what a fitted VAR / VARMA model reports."""
import numpy as np
import statsmodels.tsa.statespace.varmax
import statsmodels.tsa.vector_ar.var_model
from sklearn.linear_model import LassoLarsIC, LinearRegression

import lingam
import lingam.utils
from symx.core import PathCut
from symx.run import harness

from .c06 import FakeInner, ImB, matrix_eq, times
from .fakes import module_env
from .fitted import generic
from .lib import arr, check_unmutated, raises, snapshot, zeros

META = {
    "bounds": "2-4 variables, up to 5 lags (VAR) and orders up to (3, 2) (VARMA), all real AR/MA coefficients, all "
              "instantaneous matrices of two causal orders, all real criterion values, every pruning outcome; 8-14 rows "
              "of fixed data",
    "outside": "more variables or lags; the numerical estimation inside statsmodels",
    "assumptions": ["VAR/VARMA estimation returns arbitrary coefficients and criterion values; the adaptive lasso "
                    "returns arbitrary coefficients per (target, predictor)"],
}
ROWS = 9
CRITERIA = ("aic", "bic", "hqic", "fpe")
REAL_AL = lingam.utils.predict_adaptive_lasso
CUR = {}


def data(n, rows=ROWS, seed=0):
    return np.round(generic(rows, n, 80 + seed) * 64) / 64


def coefs(c, name, lags, n, few):
    A = zeros(c, lags, n, n)
    for lag in range(lags):
        for i in range(n):
            for j in range(n):
                A[lag, i, j] = (0.25 + 0.5 * i - 0.375 * j + 0.125 * lag) if few and (i + j + lag) % 2 else c.real(
                    f"{name}{lag}_{i}_{j}")
    return A


def residuals(c, X, M):
    """X_t - sum_tau M_tau X_(t-tau) (reference)."""
    rows, n = np.shape(X)
    L = len(M)
    R = zeros(c, rows - L, n)
    for t in range(L, rows):
        for i in range(n):
            v = X[t, i]
            for lag in range(L):
                for j in range(n):
                    v = v - M[lag][i, j] * X[t - lag - 1, j]
            R[t - L, i] = v
    return R


def env(c, cfg):
    CUR.clear()
    CUR.update(var={}, varma={}, al=[], cols={})
    n = cfg["n"]

    class Res:
        pass

    def values(r, name):
        for k in CRITERIA:
            if k == cfg.get("crit"):
                v = c.real(f"{k}_{name}")
                if not c.symbolic:
                    v = float(v)
            else:
                v = 0.0
            setattr(r, k, v)

    class VAR:
        def __init__(self, X, *a, **k):
            self.X = X

        def fit(self, maxlags=None, *a, **kw):
            trend = kw.get("trend", a[2] if len(a) > 2 else "c")
            r = Res()
            name = f"{maxlags}" + ("" if trend == "n" else trend)
            r.coefs = r.params = coefs(c, f"m{name}_", maxlags, n, cfg.get("few", True))
            r.k_ar = maxlags
            R = residuals(c, self.X, r.coefs)
            if trend != "n":
                R = R - c.real("const")
            r.resid = R
            values(r, name)
            CUR["var"][maxlags] = r
            return r

    class VARMAX:
        def __init__(self, X, order=None, *a, **k):
            self.X, self.order = X, order

        def fit(self, *a, **k):
            p, q = self.order
            r = Res()
            name = f"{p}{q}"
            r.coefficient_matrices_var = coefs(c, f"m{name}_", p, n, True) if p else None
            r.coefficient_matrices_vma = coefs(c, f"w{name}_", q, n, True) if q else None
            r.specification = {"order": (p, q)}
            r.resid = np.round(generic(len(self.X), n, 7 * p + q) * 64) / 64
            values(r, name)
            CUR["varma"][(p, q)] = r
            return r

    def al(X, predictors, target, gamma=1.0):
        pr = [column(X, j) for j in predictors]
        ta = column(X, target)
        if ta is None or any(p is None for p in pr):
            CUR["unknown"] = True
            return arr(c, [c.real(f"al?{len(CUR['al'])}_{k}") for k in range(len(pr))])
        CUR["al"].append((ta, pr))
        return arr(c, [c.real(f"al{ta}<{p}") for p in pr])
    out = (module_env(statsmodels.tsa.vector_ar.var_model, VAR=VAR)
           + module_env(statsmodels.tsa.statespace.varmax, VARMAX=VARMAX))
    return out + [(REAL_AL, al)] if c.symbolic else out


def column(X, j):
    v = [X[r, j] for r in range(np.shape(X)[0])]
    for name, w in CUR["cols"].items():
        k = min(len(v), len(w))
        for u in (v, v[::-1]):
            # rows whose history is available, in either order of time
            if all(eq(a, b) for a, b in zip(u[-k:], w[-k:])):
                return name
    return None


def eq(a, b):
    d = a - b
    if hasattr(d, "is_const"):
        return d.is_const() and abs(float(d.value())) < 1e-9
    return abs(float(d)) < 1e-9


# ------------------------------------------------------------------- VAR
@harness("C07", [dict(n=2, L=3, crit=k) for k in CRITERIA] + [dict(n=2, L=2, crit=None), dict(n=3, L=1, crit="bic"),
         dict(n=4, L=4, crit="bic"), dict(n=3, L=5, crit=None), dict(n=3, L=4, crit="aic")], env=env)
def var(c, cfg):
    n, L = cfg["n"], cfg["L"]
    X = data(n)
    snap = snapshot(X)
    inner = FakeInner(c, n)
    if c.choose("order", 2):
        inner.k = 1
        inner.B, inner.orders = [None], [None]
    m = lingam.VARLiNGAM(lags=L, criterion=cfg["crit"], prune=False, lingam_model=inner)
    c.check(m.fit(X) is m, "fit returns the model")
    check_unmutated(c, X, snap, "the data are not modified")
    am = m.adjacency_matrices_
    p = len(am) - 1
    c.check(1 <= p <= L, "between 1 and the maximal number of lags")
    fits = CUR["var"]
    if cfg["crit"] is None:
        c.check(p == L, "without a criterion the given lags are used")
    else:
        if set(fits) != set(range(1, L + 1)):
            raise PathCut("not every lag was fitted")
        v = {k: getattr(f, cfg["crit"]) for k, f in fits.items()}
        for k in v:
            c.check(v[p] <= v[k], f"the selected number of lags has the least {cfg['crit']} ({p} vs {k})")
    r = fits[p]
    finish(c, m, inner, X, r.coefs, None, residuals(c, X, r.coefs))


def finish(c, m, inner, X, M, W, resid):
    n = X.shape[1]
    B0, order = inner.B[-1], inner.orders[-1]
    c.check([int(v) for v in m.causal_order_] == order, "the causal order is that of the residuals' model")
    am = m.adjacency_matrices_ if W is None else m.adjacency_matrices_[0]
    matrix_eq(c, am[0], B0, "instantaneous effects")
    c.check(len(am) == 1 + (len(M) if M is not None else 0), "one matrix per lag")
    for lag in range(len(am) - 1):
        matrix_eq(c, am[lag + 1], arr(c, times(ImB(B0, n), M[lag], n)), f"lag {lag + 1}")
    if resid is not None:
        matrix_eq(c, m.residuals_, resid, "residuals")
        matrix_eq(c, inner.got[-1], resid, "the residuals' model is fitted to the residuals")
    return B0


@harness("C07", [dict(n=2, L=1), dict(n=2, L=2), dict(n=3, L=1), dict(n=4, L=3), dict(n=2, L=4)], env=env)
def var_given(c, cfg):
    n, L = cfg["n"], cfg["L"]
    X = data(n, 6)
    M = coefs(c, "g", L, n, False)
    inner = FakeInner(c, n)
    m = lingam.VARLiNGAM(lags=5, criterion="bic", prune=False, ar_coefs=M, lingam_model=inner).fit(X)
    c.check(not CUR["var"], "given AR coefficients are not estimated")
    finish(c, m, inner, X, M, None, residuals(c, X, M))


def lagcols(c, X, n, p, rows, E=None, q=0, EX=None):
    """The columns X_j(t - lag), e_j(t - lag) over the rows with a full history."""
    cols = {}
    T = len(X)
    for lag in range(p + 1):
        for j in range(n):
            cols[f"x{j}_{lag}"] = [X[t - lag, j] for t in range(rows, T)]
    for lag in range(1, q + 1):
        for j in range(n):
            cols[f"e{j}_{lag}"] = [E[len(E) - T + t - lag, j] for t in range(rows, T)]
    return cols


def ref_lasso(cols, target, preds, lasso=None):
    """Adaptive lasso by BIC on standardised columns, refitted by least squares (reference)."""
    P = np.array([cols[p] for p in preds], dtype=float).T
    y = np.array(cols[target], dtype=float)
    Z = (P - P.mean(0)) / P.std(0)
    s = (y - y.mean()) / y.std()
    w = np.abs(LinearRegression().fit(Z, s).coef_)
    keep = (lasso or LassoLarsIC(criterion="bic")).fit(Z * w, s).coef_ * w != 0
    out = np.zeros(len(preds))
    if keep.any():
        out[keep] = LinearRegression().fit(P[:, keep], y).coef_
    return dict(zip(preds, out))


def pruned(c, am, names, order, refs, what):
    """names[k][j]: the column of matrix k, source j."""
    n = len(order)
    for i in range(n):
        allowed = [f"x{j}_0" for j in order[:order.index(i)]] + [v for row in names[1:] for v in row]
        if c.symbolic:
            got = [pr for ta, pr in CUR["al"] if ta == f"x{i}_0"]
            c.check(bool(got), f"{what}: coefficients of {i} are estimated from its possible causes")
            c.check(sorted(got[-1]) == sorted(allowed), f"{what}: {i} is regressed on all its possible causes")
            val = {p: c.real(f"alx{i}_0<{p}") for p in allowed}
            vals = [val]
        else:
            vals = [ref_lasso(cols, f"x{i}_0", allowed) for cols in refs]
        best = None
        for val in vals:
            diffs = [(k, j, am[k][i, j], val.get(names[k][j], 0.0)) for k in range(len(names)) for j in range(n)]
            if c.symbolic or all(abs(float(a) - float(b)) <= 1e-6 * (1 + abs(float(b))) for _, _, a, b in diffs):
                best = diffs
                break
        for k, j, a, b in best or diffs:
            c.check_eq(a, b, f"{what}: coefficient of {names[k][j]} for {i}")


@harness("C07", [dict(n=2, L=1, o=0, given=False), dict(n=3, L=1, o=1, given=False), dict(n=2, L=2, o=1, given=False),
                 dict(n=2, L=2, o=0, given=True), dict(n=3, L=3, o=1, given=False), dict(n=4, L=2, o=1, given=True),
                 dict(n=2, L=3, o=1, given=False, crit="bic"), dict(n=3, L=2, o=0, given=False, crit="aic")],
         env=env, tol=1e-5)
def var_pruned(c, cfg):
    n, L = cfg["n"], cfg["L"]
    X = data(n, 9 if c.symbolic else 60)
    inner = FakeInner(c, n)
    if cfg["o"]:
        inner.k, inner.B, inner.orders = 1, [None], [None]
    CUR["cols"] = lagcols(c, X, n, L, L)
    kw = dict(ar_coefs=coefs(c, "g", L, n, True)) if cfg["given"] else {}
    m = lingam.VARLiNGAM(lags=L, criterion=cfg.get("crit"), prune=True, lingam_model=inner, **kw).fit(X)
    am = m.adjacency_matrices_
    if cfg.get("crit"):
        L = len(am) - 1
        v = {k: getattr(f, cfg["crit"]) for k, f in CUR["var"].items()}
        for k in v:
            c.check(v[L] <= v[k], f"the selected number of lags has the least {cfg['crit']} ({L} vs {k})")
        if not c.symbolic:
            CUR["cols"] = lagcols(c, X, n, L, L)
    c.check(np.shape(am) == (L + 1, n, n), "one matrix per lag")
    names = [[f"x{j}_{lag}" for j in range(n)] for lag in range(L + 1)]
    pruned(c, am, names, inner.orders[-1], [CUR["cols"]], "pruned")
    c.check([int(v) for v in m.causal_order_] == inner.orders[-1], "the causal order is that of the residuals' model")


# ------------------------------------------------------------------- VARMA
@harness("C07", [dict(n=2, L=(1, 1), crit="bic"), dict(n=2, L=(2, 1), crit="aic"), dict(n=2, L=(1, 2), crit="hqic"),
                 dict(n=2, L=(2, 2), crit=None), dict(n=3, L=(1, 1), crit=None), dict(n=3, L=(3, 2), crit=None),
                 dict(n=2, L=(2, 3), crit="bic")], env=env)
def varma(c, cfg):
    n = cfg["n"]
    X = data(n)
    inner = FakeInner(c, n)
    if c.choose("order", 2):
        inner.k, inner.B, inner.orders = 1, [None], [None]
    m = lingam.VARMALiNGAM(order=cfg["L"], criterion=cfg["crit"], prune=False, lingam_model=inner)
    m.fit(X)
    psi, omega = m.adjacency_matrices_
    p, q = len(psi) - 1, len(omega)
    fits = CUR["varma"]
    if cfg["crit"] is None:
        c.check((p, q) == tuple(cfg["L"]), "without a criterion the given order is used")
    else:
        want = {(a, b) for a in range(cfg["L"][0] + 1) for b in range(cfg["L"][1] + 1)} - {(0, 0)}
        if set(fits) != want:
            c.check(not (want - set(fits)), "every order up to the given one is a candidate")
            raise PathCut("more orders than expected")
        v = {k: getattr(f, cfg["crit"]) for k, f in fits.items()}
        for k in v:
            c.check(v[(p, q)] <= v[k], f"the selected order has the least {cfg['crit']} ({(p, q)} vs {k})")
    r = fits[(p, q)]
    B0 = finish(c, m, inner, X, r.coefficient_matrices_var, 1, r.resid)
    ma(c, omega, B0, r.coefficient_matrices_vma, n)


def ma(c, omega, B0, W, n):
    """omega_j (I - B0) = (I - B0) theta_j."""
    A = ImB(B0, n)
    for k in range(len(omega)):
        matrix_eq(c, arr(c, times(omega[k], A, n)), arr(c, times(A, W[k], n)), f"moving-average matrix {k + 1}")


@harness("C07", [dict(n=2, L=(1, 1)), dict(n=2, L=(2, 1)), dict(n=2, L=(1, 2)), dict(n=2, L=(3, 1))], env=env)
def varma_given(c, cfg):
    n, (p, q) = cfg["n"], cfg["L"]
    X = data(n, 7)
    inner = FakeInner(c, n)
    M, W = coefs(c, "g", p, n, False), coefs(c, "h", q, n, False)
    m = lingam.VARMALiNGAM(order=(p, q), criterion="bic", prune=False, ar_coefs=M, ma_coefs=W, lingam_model=inner)
    m.fit(X)
    c.check(not CUR["varma"], "given coefficients are not estimated")
    psi, omega = m.adjacency_matrices_
    B0 = finish(c, m, inner, X, M, 1, None)
    c.check(len(omega) == q, "one moving-average matrix per lag")
    ma(c, omega, B0, W, n)
    R = m.residuals_
    matrix_eq(c, inner.got[-1], R, "the residuals' model is fitted to the residuals")
    rows = len(R)
    c.check(rows == len(X) - max(p, q), "one residual per time point with a history")
    off = len(X) - rows
    for s in range(q, rows):
        for i in range(n):
            v = X[s + off, i]
            for j in range(n):
                for lag in range(p):
                    v = v - M[lag][i, j] * X[s + off - lag - 1, j]
                for lag in range(q):
                    v = v - W[lag][i, j] * R[s - lag - 1, j]
            c.check_eq(R[s, i], v, f"residual {s}, variable {i}")


@harness("C07", [dict(n=2, L=(1, 1), o=0, given=False), dict(n=2, L=(2, 1), o=1, given=False),
                 dict(n=2, L=(1, 2), o=1, given=True), dict(n=3, L=(1, 1), o=1, given=False), dict(n=3, L=(3, 2), o=1, given=False),
                 dict(n=2, L=(1, 3), o=0, given=False)], env=env, tol=1e-5)
def varma_pruned(c, cfg):
    n, (p, q) = cfg["n"], cfg["L"]
    X = data(n, 10 if c.symbolic else 60)
    inner = FakeInner(c, n)
    if cfg["o"]:
        inner.k, inner.B, inner.orders = 1, [None], [None]
    kw = dict(ar_coefs=coefs(c, "g", p, n, True), ma_coefs=coefs(c, "h", q, n, True)) if cfg["given"] else {}
    seen = []

    def late(Y):
        """The errors are known only after the residuals' model is fitted."""
        B0 = inner.B[-1]
        E = [[Y[t, i] - sum((B0[i, j] * Y[t, j] for j in range(n)), 0.0) for i in range(n)] for t in range(len(Y))]
        E = np.array(E, dtype=object)
        seen.append(E)
        CUR["cols"] = lagcols(c, X, n, p, len(X) - len(E) + max(p, q), E, q)
    inner.after = late
    m = lingam.VARMALiNGAM(order=(p, q), criterion=None, prune=True, lingam_model=inner, **kw).fit(X)
    if not seen:
        raise PathCut("the residuals' model was not fitted")
    psi, omega = m.adjacency_matrices_
    c.check(np.shape(psi) == (p + 1, n, n) and np.shape(omega) == (q, n, n), "one matrix per lag")
    names = [[f"x{j}_{lag}" for j in range(n)] for lag in range(p + 1)]
    names += [[f"e{j}_{lag}" for j in range(n)] for lag in range(1, q + 1)]
    refs = []
    if not c.symbolic:
        E = np.array(seen[-1], dtype=float)
        refs = [CUR["cols"], lagcols(c, X, n, p, len(X) - len(E), E, q) if len(E) > p else {}]
        Xs = X[len(X) - len(E):]
        roll = {f"x{j}_{lag}": np.roll(Xs, lag, axis=0)[:, j] for j in range(n) for lag in range(p + 1)}
        roll.update({f"e{j}_{lag}": np.roll(E, lag, axis=0)[:, j] for j in range(n) for lag in range(1, q + 1)})
        refs = [roll, CUR["cols"]]
    am = [psi[k] for k in range(p + 1)] + [omega[k] for k in range(q)]
    pruned(c, am, names, inner.orders[-1], refs, "pruned")


@harness("C07", [dict(n=2, k=k) for k in ("var", "varma")], env=env)
def arguments(c, cfg):
    M = lingam.VARLiNGAM if cfg["k"] == "var" else lingam.VARMALiNGAM
    _, e = raises(lambda: M(lingam_model=object()).fit(data(2)))
    c.check(isinstance(e, ValueError), "a model of another kind is rejected")
