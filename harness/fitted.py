"""Fitted models whose estimates are then replaced by symbolic ones.

The models are fitted for real (outside the symbolic run), copied, and their order / matrices overwritten; a guard
through the public attributes makes a path inconclusive (never an alarm) if the replacement is not what the model
reports."""
import copy
import warnings

import numpy as np

import lingam
from symx.core import PathCut

from .lib import same

_CACHE = {}


def generic(rows, n, seed=0):
    rng = np.random.RandomState(31 + seed)
    X = rng.uniform(-1, 1, (rows, n)) ** 3 + 0.3 * rng.rand(rows, n)
    for i in range(1, n):
        X[:, i] += 0.8 * X[:, i - 1] + 0.1 * i
    return X + np.arange(1, n + 1) * 0.5


def _make(kind, n, lags):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "direct":
            return lingam.DirectLiNGAM().fit(generic(40, n))
        if kind == "ica":
            return lingam.ICALiNGAM(random_state=0).fit(generic(60, n))
        if kind == "mgdirect":
            return lingam.MultiGroupDirectLiNGAM().fit([generic(40, n), generic(30, n, 1)])
        if kind == "bottomup":
            return lingam.BottomUpParceLiNGAM().fit(generic(40, n))
        if kind == "rcd":
            return lingam.RCD().fit(generic(40, n))
        if kind == "mgrcd":
            return lingam.MultiGroupRCD().fit([generic(40, n), generic(30, n, 1)])
        if kind == "var":
            return lingam.VARLiNGAM(lags=lags, criterion=None, prune=False).fit(generic(40, n))
        if kind == "varma":
            rng = np.random.RandomState(3)
            p, q = lags
            return lingam.VARMALiNGAM(order=(p, q), criterion=None, prune=False, ar_coefs=0.1 * rng.rand(p, n, n),
                                      ma_coefs=0.1 * rng.rand(q, n, n)).fit(generic(40, n))
        if kind == "long":
            T, L = lags
            return lingam.LongitudinalLiNGAM(n_lags=L).fit([generic(40, n, t) for t in range(T)])
    raise KeyError(kind)


def prepare(keys):
    """Fit the models for real; called at import time of a harness, before numpy is replaced."""
    for k in keys:
        if k not in _CACHE:
            try:
                _CACHE[k] = _make(*k)
            except Exception as e:  # noqa: BLE001 - a broken fit is the business of other properties
                _CACHE[k] = e


def model(kind, n, lags=None, order=None, matrix=None, ancestors=None):
    m = _CACHE[(kind, n, lags)]
    if isinstance(m, Exception):
        raise PathCut("the model cannot be fitted: " + repr(m))
    m = copy.deepcopy(m)
    if kind == "mgdirect" or kind == "mgrcd":
        _put(m, "_adjacency_matrices", "adjacency_matrices_", matrix)
    elif kind in ("var", "long", "varma"):
        _put(m, "_adjacency_matrices", "adjacency_matrices_", matrix)
    else:
        _put(m, "_adjacency_matrix", "adjacency_matrix_", matrix)
    if kind == "long":
        _put(m, "_causal_orders", "causal_orders_", order)
    elif kind in ("rcd", "mgrcd"):
        _put(m, "_ancestors_list", "ancestors_list_", ancestors)
    else:
        _put(m, "_causal_order", "causal_order_", order)
    return m


def _put(m, private, public, value):
    setattr(m, private, value)
    if getattr(m, public) is not value and not _eq(getattr(m, public), value):
        raise PathCut("the estimates are kept elsewhere")


def _eq(a, b):
    try:
        a, b = np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    except Exception:  # noqa: BLE001
        return False


def ols(X, preds, y):
    """Coefficients of a least-squares regression with intercept (reference)."""
    A = np.column_stack([np.ones(len(y))] + [X[:, p] for p in preds])
    return np.linalg.lstsq(A, y, rcond=None)[0][1:]
