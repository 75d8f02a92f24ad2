"""numpy on symbolic reals: an object-dtype ndarray subclass that intercepts
ufuncs and array functions, and a facade standing in for the module `numpy`
inside lingam so that freshly created arrays can hold symbolic values."""
import functools
import math
import types

import numpy as np

from . import core
from .core import S, SymBool, Poly, PathCut, ctx


class SymArray(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.get("out")
        if out is not None:
            kw["out"] = tuple(plain(o) if isinstance(o, SymArray) else o for o in out)
        ins = [plain(i) if isinstance(i, SymArray) else i for i in inputs]
        name = ufunc.__name__
        if method == "__call__" and name in ELEM:
            kw.pop("casting", None)
            where = kw.pop("where", True)
            kw.pop("dtype", None)
            f = np.frompyfunc(ELEM[name], ufunc.nin, 1)
            if where is True and kw.get("out") is None:
                res = f(*ins)
            else:
                res = f(*ins, **({"out": kw["out"]} if kw.get("out") else {}), where=where)
            if name in BOOL_UF and out is None:
                res = np.asarray(res, dtype=bool) if isinstance(res, np.ndarray) else bool(res)
                return res if isinstance(res, np.ndarray) else np.bool_(res)
        else:
            if kw.get("dtype") is not None:
                kw["dtype"] = object
            if name == "matmul" and method == "__call__":
                res = _matmul(*ins)
                if kw.get("out"):
                    kw["out"][0][...] = res
            else:
                res = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = out[0]
            return o
        return wrap(res)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__module__.replace("numpy", "np", 1) + "." + func.__name__
        f = FUNCS.get(func)
        if f is not None:
            return f(*args, **kwargs)
        return wrap(super().__array_function__(func, types_, args, kwargs))

    # methods that do not go through the protocols
    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, fixidx(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(k, SymIdx) or (isinstance(k, tuple) and any(isinstance(x, SymIdx) for x in k)):
            if _merge_store(self, k, v):
                return
        np.ndarray.__setitem__(self, fixidx(k), v)

    def __contains__(self, v):
        return any(bool(x == v) for x in self.ravel().tolist())

    def dot(self, o, out=None):
        return sym_dot(self, o)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return sym_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return sym_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return sym_std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def argmax(self, axis=None, out=None, **kw):
        return sym_arg(self, axis, True)

    def argmin(self, axis=None, out=None, **kw):
        return sym_arg(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return sym_argsort(self, axis)

    def astype(self, dtype, *a, **k):
        d = np.dtype(dtype) if dtype is not None else None
        if d is not None and d.kind == "f":
            return self if k.get("copy") is False else self.copy()
        if d == np.dtype(object):
            return self.copy()
        return np.ndarray.astype(np.asarray(plain(self)), dtype)

    def copy(self, order="C"):
        return wrap(np.array(plain(self), dtype=object, copy=True))

    def any(self, axis=None, out=None, keepdims=False, **kw):
        b = tobool(self)
        return b.any(axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        b = tobool(self)
        return b.all(axis=axis, keepdims=keepdims)

    def nonzero(self):
        return tobool(self).nonzero()

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        return float(self.reshape(-1)[0])

    def __reduce__(self):
        return (_rebuild, (self.tolist(), self.shape))


def _rebuild(lst, shape):
    a = np.empty(shape, dtype=object)
    flat = np.array(lst, dtype=object).reshape(-1)
    a.reshape(-1)[...] = flat
    return a.view(SymArray)


def plain(a):
    return a.view(np.ndarray) if isinstance(a, SymArray) else a


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype == object:
        return r.view(SymArray)
    return r


class SymIdx:
    """A symbolic index in 0..n-1. Writes through it are merged (no fork); any
    other use as an integer forks over its values."""
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v, self.n = v, n

    def __index__(self):
        for k in range(self.n - 1):
            if bool(self.v == k):
                return k
        return self.n - 1

    __int__ = __index__

    def _val(self, o):
        return o.v if isinstance(o, SymIdx) else o

    def __eq__(self, o):
        return self.v == self._val(o)

    def __ne__(self, o):
        return self.v != self._val(o)

    def __lt__(self, o):
        return self.v < self._val(o)

    def __le__(self, o):
        return self.v <= self._val(o)

    def __gt__(self, o):
        return self.v > self._val(o)

    def __ge__(self, o):
        return self.v >= self._val(o)

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - int(self)

    def __hash__(self):
        return hash(int(self))

    def __repr__(self):
        return f"idx({self.v!r})"


def _merge_store(a, k, v):
    """a[k] = v for a scalar v and keys made of symbolic indices, integers and slices."""
    k = k if isinstance(k, tuple) else (k,)
    if isinstance(v, (np.ndarray, list, tuple)) or len(k) > a.ndim:
        return False
    axes = []
    for ax in range(a.ndim):
        x = k[ax] if ax < len(k) else slice(None)
        n = a.shape[ax]
        if isinstance(x, SymIdx):
            axes.append([(i, x.v == i) for i in range(n)])
        elif isinstance(x, slice):
            axes.append([(i, True) for i in range(*x.indices(n))])
        elif isinstance(x, (int, np.integer)):
            axes.append([(int(x) % n, True)])
        else:
            return False
    import itertools
    for combo in itertools.product(*axes):
        cond = core.ball([cc for _, cc in combo])
        pos = tuple(i for i, _ in combo)
        np.ndarray.__setitem__(a, pos, ctx().ite(cond, v, np.ndarray.__getitem__(a, pos)))
    return True


def fixidx(k):
    if isinstance(k, SymArray):
        return _idx_array(k)
    if isinstance(k, tuple):
        return tuple(_idx_array(x) if isinstance(x, SymArray) else (
            int(x) if isinstance(x, S) else x) for x in k)
    if isinstance(k, S):
        return int(k)
    return k


def _idx_array(a):
    p = plain(a)
    flat = p.reshape(-1)
    if len(flat) and all(isinstance(x, (bool, np.bool_, SymBool)) for x in flat):
        return np.array([bool(x) for x in flat]).reshape(p.shape)
    return np.array([int(x) for x in flat], dtype=int).reshape(p.shape)


def tobool(a):
    p = plain(a)
    return np.array([bool(x) for x in p.reshape(-1)], dtype=bool).reshape(p.shape)


def sym(a):
    """Object-dtype copy of anything array-like."""
    if isinstance(a, SymArray):
        return a
    a = np.asarray(a)
    if a.dtype != object:
        b = np.empty(a.shape, dtype=object)
        if a.dtype.kind == "f":
            for i, v in np.ndenumerate(a):
                b[i] = np.float64(v)
        else:
            b[...] = a
        a = b
    return a.view(SymArray)


def _sc(v):
    """Scalars leave the facade as numpy scalars, as they would from numpy."""
    return np.float64(v) if type(v) is float else v


def has_sym(x, depth=0):
    if isinstance(x, (S, SymBool, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (S, SymBool)) for v in x.reshape(-1))
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(has_sym(v, depth + 1) for v in x)
    return False


# ------------------------------------------------------- elementwise functions
def _isnan(v):
    return False if isinstance(v, (S, SymBool)) else bool(np.isnan(v))


def _isfinite(v):
    return True if isinstance(v, (S, SymBool)) else bool(np.isfinite(v))


def _isinf(v):
    return False if isinstance(v, (S, SymBool)) else bool(np.isinf(v))


def _method(name):
    f = getattr(np, name)

    def g(v):
        if isinstance(v, S):
            return getattr(v, name)()
        with np.errstate(all="ignore"):
            return float(f(float(v)))
    return g


def _max(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    c = a >= b
    if isinstance(c, SymBool) and ctx().havoc:
        return ctx().ite(c, a, b)
    return a if bool(c) else b


def _min(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    c = a <= b
    if isinstance(c, SymBool) and ctx().havoc:
        return ctx().ite(c, a, b)
    return a if bool(c) else b


def _fmax(a, b):
    return b if _isnan(a) else (a if _isnan(b) else _max(a, b))


def _fmin(a, b):
    return b if _isnan(a) else (a if _isnan(b) else _min(a, b))


def _pow(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return (a if isinstance(a, S) else S.lift(a)) ** b
    with np.errstate(all="ignore"):
        return float(np.power(float(a), float(b)))


def _tdiv(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return a / b
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def _abs(v):
    return abs(v)


ELEM = {
    "isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf,
    "absolute": _abs, "fabs": _abs,
    "maximum": _max, "minimum": _min, "fmax": _fmax, "fmin": _fmin,
    "power": _pow, "float_power": _pow, "true_divide": _tdiv, "divide": _tdiv,
    "square": lambda v: v * v,
    "sign": lambda v: (v.sign() if isinstance(v, S) else float(np.sign(v))),
    "conjugate": lambda v: v, "positive": lambda v: v,
    "greater": lambda a, b: bool(a > b), "less": lambda a, b: bool(a < b),
    "greater_equal": lambda a, b: bool(a >= b), "less_equal": lambda a, b: bool(a <= b),
    "equal": lambda a, b: bool(a == b), "not_equal": lambda a, b: bool(a != b),
    "logical_and": lambda a, b: bool(a) and bool(b),
    "logical_or": lambda a, b: bool(a) or bool(b),
    "logical_not": lambda a: not bool(a),
    "logical_xor": lambda a, b: bool(a) != bool(b),
    "signbit": lambda v: bool(v < 0),
}
for _n in ("sqrt", "log", "log10", "log2", "log1p", "exp", "expm1", "sin", "cos", "tan", "tanh",
           "sinh", "cosh", "arctan", "arctanh", "arcsin", "arccos", "cbrt", "rint", "floor",
           "ceil", "trunc"):
    ELEM[_n] = _method(_n)
BOOL_UF = {"isnan", "isfinite", "isinf", "greater", "less", "greater_equal", "less_equal",
           "equal", "not_equal", "logical_and", "logical_or", "logical_not", "logical_xor",
           "signbit"}


# ----------------------------------------------------------- array functions
def _mm2(a, b):
    n, k = a.shape
    m = b.shape[1]
    r = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = np.float64(0.0)
            for t in range(k):
                x, y = a[i, t], b[t, j]
                # 0 * finite is dropped so that sparse matrices stay small
                if not isinstance(x, (S, SymBool)) and x == 0 and (isinstance(y, S) or np.isfinite(y)):
                    continue
                if not isinstance(y, (S, SymBool)) and y == 0 and (isinstance(x, S) or np.isfinite(x)):
                    continue
                s = s + x * y
            r[i, j] = s
    return r


def _matmul(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    if a.ndim > 2 or b.ndim > 2:
        return np.matmul(a.astype(object), b.astype(object))
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    b2 = b.reshape(-1, 1) if b.ndim == 1 else b
    if a2.shape[1] != b2.shape[0]:
        raise ValueError(f"matmul: mismatch {a.shape} {b.shape}")
    r = _mm2(a2, b2)
    if a.ndim == 1 and b.ndim == 1:
        return r[0, 0]
    if a.ndim == 1:
        return r[0]
    if b.ndim == 1:
        return r[:, 0]
    return r


def sym_dot(a, b, out=None):
    a, b = plain(np.asarray(a)) if not isinstance(a, S) else a, plain(np.asarray(b)) if not isinstance(b, S) else b
    if isinstance(a, S) or isinstance(b, S) or np.ndim(a) == 0 or np.ndim(b) == 0:
        r = wrap(a * b)
    else:
        r = wrap(_matmul(plain(a), plain(b)))
    if out is not None:
        if getattr(out, "shape", None) != getattr(r, "shape", None):
            raise ValueError("output array is not acceptable")
        out[...] = r
        return out
    return r


def sym_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return wrap(np.add.reduce(plain(sym(a)), axis=axis, keepdims=keepdims)) if axis is not None \
        else (lambda t: wrap(np.array(t, dtype=object).reshape((1,) * sym(a).ndim)) if keepdims else t)(
            functools.reduce(lambda x, y: x + y, plain(sym(a)).reshape(-1).tolist(), np.float64(0.0)))


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def sym_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = sym(a)
    n = _count(a, axis)
    if n == 0:
        return math.nan
    return sym_sum(a, axis=axis, keepdims=keepdims) / float(n)


def sym_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = sym(a)
    n = _count(a, axis)
    m = sym_mean(a, axis=axis, keepdims=True)
    d = a - m
    s = sym_sum(d * d, axis=axis, keepdims=keepdims)
    if n - ddof <= 0:
        return s / 0.0
    return s / float(n - ddof)


def sym_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    v = sym_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return np.sqrt(v) if isinstance(v, np.ndarray) else (v.sqrt() if isinstance(v, S) else math.sqrt(v))


def sym_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **kw):
    m = sym(m)
    X = m.reshape(1, -1) if m.ndim == 1 else (m if rowvar else m.T)
    if y is not None:
        y = sym(y)
        Y = y.reshape(1, -1) if y.ndim == 1 else (y if rowvar else y.T)
        X = np.concatenate([plain(X), plain(Y)], axis=0).view(SymArray)
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    X = X - sym_mean(X, axis=1, keepdims=True)
    fact = n - ddof
    if fact <= 0:
        raise PathCut("covariance with too few samples")
    r = sym_dot(X, X.T) / float(fact)
    return r.reshape(()) [()] if r.size == 1 else r


def sym_corrcoef(x, y=None, rowvar=True, **kw):
    c = sym_cov(x, y, rowvar)
    if not isinstance(c, np.ndarray):
        return 1.0
    d = [c[i, i].sqrt() if isinstance(c[i, i], S) else math.sqrt(c[i, i]) for i in range(len(c))]
    r = c.copy()
    for i in range(len(c)):
        for j in range(len(c)):
            r[i, j] = c[i, j] / (d[i] * d[j])
    return r


def _along(a, axis, f):
    """Apply f to every 1-d slice along axis."""
    a = plain(sym(a))
    if axis is None:
        return f(a.reshape(-1).tolist())
    b = np.moveaxis(a, axis, -1)
    shp = b.shape[:-1]
    flat = b.reshape(-1, b.shape[-1])
    res = [f(row.tolist()) for row in flat]
    if len(res) and isinstance(res[0], list):
        out = np.empty((len(res), len(res[0])), dtype=object)
        for i, r in enumerate(res):
            for j, v in enumerate(r):
                out[i, j] = v
        out = out.reshape(shp + (len(res[0]),))
        return np.moveaxis(out, -1, axis)
    out = np.empty(len(res), dtype=object)
    for i, r in enumerate(res):
        out[i] = r
    return out.reshape(shp)


def _sorted(vals):
    """Stable merge sort with Python comparisons (NaN last)."""
    nan = [v for v in vals if _isnan(v)]
    xs = [v for v in vals if not _isnan(v)]

    def ms(l):
        if len(l) <= 1:
            return l
        m = len(l) // 2
        a, b = ms(l[:m]), ms(l[m:])
        out = []
        while a and b:
            out.append(b.pop(0) if bool(b[0] < a[0]) else a.pop(0))
        return out + a + b
    return ms(xs) + nan


def _argsort_list(vals):
    idx = list(range(len(vals)))
    nan = [i for i in idx if _isnan(vals[i])]
    xs = [i for i in idx if not _isnan(vals[i])]

    def ms(l):
        if len(l) <= 1:
            return l
        m = len(l) // 2
        a, b = ms(l[:m]), ms(l[m:])
        out = []
        while a and b:
            out.append(b.pop(0) if bool(vals[b[0]] < vals[a[0]]) else a.pop(0))
        return out + a + b
    return ms(xs) + nan


def sym_argsort(a, axis=-1, kind=None, order=None, **kw):
    r = _along(a, axis, _argsort_list)
    return np.array(r, dtype=int)


def sym_sort(a, axis=-1, kind=None, order=None, **kw):
    r = _along(a, axis, _sorted)
    return wrap(np.array(r, dtype=object))


def sym_arg(a, axis=None, largest=True, **kw):
    def f(vals):
        if not vals:
            raise ValueError("attempt to get argmax of an empty sequence")
        best = 0
        for i in range(len(vals)):
            if _isnan(vals[i]):
                return i
        for i in range(1, len(vals)):
            if (bool(vals[i] > vals[best]) if largest else bool(vals[i] < vals[best])):
                best = i
        return best
    r = _along(a, axis, f)
    return np.array(r, dtype=int) if isinstance(r, np.ndarray) and r.ndim else np.int64(r)


def _nanarg(a, axis, largest):
    def f(vals):
        idx = [i for i, v in enumerate(vals) if not _isnan(v)]
        if not idx:
            raise ValueError("All-NaN slice encountered")
        best = idx[0]
        for i in idx[1:]:
            if (bool(vals[i] > vals[best]) if largest else bool(vals[i] < vals[best])):
                best = i
        return best
    r = _along(a, axis, f)
    return np.array(r, dtype=int) if isinstance(r, np.ndarray) and r.ndim else np.int64(r)


def _med(vals):
    if any(_isnan(v) for v in vals) or not vals:
        return math.nan
    s = _sorted(vals)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def sym_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return wrap(_along(a, axis, _med))


def sym_nanmedian(a, axis=None, **kw):
    return wrap(_along(a, axis, lambda v: _med([x for x in v if not _isnan(x)])))


def _pct(vals, q):
    if any(_isnan(v) for v in vals) or not vals:
        return math.nan
    s = _sorted(vals)
    pos = (len(s) - 1) * q
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(s) - 1)
    w = pos - lo
    return s[lo] * (1 - w) + s[hi] * w if w else s[lo]


def sym_percentile(a, q, axis=None, **kw):
    if np.ndim(q):
        return wrap(np.array([sym_percentile(a, x, axis) for x in q], dtype=object))
    return wrap(_along(a, axis, lambda v: _pct(v, float(q) / 100.0)))


def sym_quantile(a, q, axis=None, **kw):
    return sym_percentile(a, np.asarray(q) * 100.0, axis)


def _fold(f):
    def g(a, axis=None, out=None, keepdims=False, **kw):
        def h(vals):
            if not vals:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return functools.reduce(f, vals)
        r = wrap(_along(a, axis, h))
        if keepdims and axis is not None:
            r = np.expand_dims(r, axis)
        return r
    return g


def _nanfold(f):
    def g(a, axis=None, **kw):
        def h(vals):
            vals = [v for v in vals if not _isnan(v)]
            return f(vals)
        return wrap(_along(a, axis, h))
    return g


def sym_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if _isnan(x) or _isnan(y):
            return equal_nan and _isnan(x) and _isnan(y)
        if not isinstance(x, S) and not isinstance(y, S):
            return bool(np.isclose(x, y, rtol=rtol, atol=atol))
        d = x - y
        if not isinstance(d, S):
            return bool(abs(d) <= atol + rtol * abs(y))
        # closeness of symbolic values is decided as equality up to atol+rtol*|y|
        lim = atol + rtol * abs(y)
        return bool(d <= lim) and bool(-d <= lim)
    r = np.frompyfunc(f, 2, 1)(plain(sym(a)) if isinstance(a, (np.ndarray, list)) else a,
                               plain(sym(b)) if isinstance(b, (np.ndarray, list)) else b)
    return np.asarray(r, dtype=bool) if isinstance(r, np.ndarray) else bool(r)


def sym_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = sym(a), sym(b)
    for x, y in zip(*[plain(t).reshape(-1) for t in np.broadcast_arrays(plain(a), plain(b))]):
        if not sym_isclose(x, y, rtol, atol, equal_nan):
            return False
    return True


def sym_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if isinstance(v, S):
            return v
        return float(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    if not isinstance(x, np.ndarray):
        return f(x)
    r = np.frompyfunc(f, 1, 1)(plain(x))
    if not copy:
        x[...] = r
        return x
    return wrap(r)


def sym_where(cond, *xy):
    c = tobool(cond) if isinstance(cond, SymArray) or (isinstance(cond, np.ndarray) and cond.dtype == object) else (
        bool(cond) if isinstance(cond, SymBool) else np.asarray(cond))
    if not xy:
        return np.nonzero(c)
    x, y = [plain(v) if isinstance(v, SymArray) else v for v in xy]
    c, x, y = np.broadcast_arrays(c, np.asarray(x, dtype=object), np.asarray(y, dtype=object))
    r = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        r[i] = x[i] if c[i] else y[i]
    return wrap(r)


def sym_array_equal(a, b, equal_nan=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(plain(a).reshape(-1).tolist(), plain(b).reshape(-1).tolist()):
        if equal_nan and _isnan(x) and _isnan(y):
            continue
        if not bool(x == y):
            return False
    return True


def _like(val):
    def f(a, *args, dtype=None, shape=None, **kw):
        v = val
        if val is None:
            v = args[0] if args else kw["fill_value"]
        d = np.dtype(dtype) if dtype is not None else None
        shp = np.shape(a) if shape is None else shape
        if d is not None and d.kind not in "fO":
            return np.full(shp, v, dtype=d)
        r = np.empty(shp, dtype=object)
        r.fill(_sc(v))
        return wrap(r)
    return f


# -- linear algebra
def _lu_det(M):
    n = len(M)
    if n == 0:
        return 1.0
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    # Laplace expansion along the row with most zeros
    z = [sum(1 for v in row if not isinstance(v, S) and v == 0) for row in M]
    i = max(range(n), key=lambda k: z[k])
    tot = 0.0
    for j in range(n):
        v = M[i][j]
        if not isinstance(v, S) and v == 0:
            continue
        sub = [[M[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
        t = v * _lu_det(sub)
        tot = tot + (t if (i + j) % 2 == 0 else -t)
    return tot


def sym_det(a):
    a = sym(a)
    return _lu_det(a.tolist())


def sym_inv(a):
    a = sym(a)
    n = len(a)
    M = a.tolist()
    # block permutation: identity-like rows handled by the adjugate formula
    if n > 6:
        return _gauss_inv(M)
    d = _lu_det(M)
    if (not isinstance(d, S) and d == 0) or (isinstance(d, S) and not bool(d != 0)):
        raise np.linalg.LinAlgError("Singular matrix")
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = [[M[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
            c = _lu_det(sub)
            r[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return wrap(r)


def _gauss_inv(M):
    n = len(M)
    A = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        piv = None
        for r in range(c, n):
            v = A[r][c]
            if not isinstance(v, S) and v == 1:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                v = A[r][c]
                if (isinstance(v, S) and bool(v != 0)) or (not isinstance(v, S) and v != 0):
                    piv = r
                    break
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[c], A[piv] = A[piv], A[c]
        p = A[c][c]
        A[c] = [x / p if (isinstance(x, S) or x != 0) else 0.0 for x in A[c]]
        for r in range(n):
            if r == c:
                continue
            f = A[r][c]
            if not isinstance(f, S) and f == 0:
                continue
            A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            R[i, j] = A[i][n + j]
    return wrap(R)


def sym_solve(a, b):
    return sym_dot(sym_inv(a), b)


def _opaque_mat(name, a, shape):
    key = (name,) + tuple((v.n, v.q) if isinstance(v, S) else repr(float(v)) for v in plain(a).reshape(-1))
    r = ctx().memo.get(key)
    if r is None:
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            r[i] = ctx().fresh(name)
        ctx().memo[key] = r
    return wrap(r.copy())


def sym_pinv(a, *args, **kw):
    a = sym(a)
    if ctx().havoc:
        return _opaque_mat("pinv", a, a.shape[::-1])
    if a.shape[0] == a.shape[1]:
        return sym_inv(a)
    if a.shape[0] > a.shape[1]:
        return sym_dot(sym_inv(sym_dot(a.T, a)), a.T)
    return sym_dot(a.T, sym_inv(sym_dot(a, a.T)))


def sym_lstsq(a, b, rcond=None):
    return sym_dot(sym_pinv(a), b), np.array([]), np.shape(a)[1], np.array([])


def sym_norm(x, ord=None, axis=None, keepdims=False):
    x = sym(x)
    if ord == 1 and x.ndim == 1:
        return sym_sum(abs(x))
    s = sym_sum(x * x, axis=axis)
    return s.sqrt() if isinstance(s, S) else np.sqrt(s)


def sym_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = sym(a)
    items = [x for x in (plain(a).reshape(-1).tolist() if axis is None else list(np.moveaxis(plain(a), axis, 0)))]
    if axis is not None:
        def lt(x, y):
            for p, q in zip(x.reshape(-1).tolist(), y.reshape(-1).tolist()):
                if bool(p < q):
                    return True
                if bool(q < p):
                    return False
            return False
    else:
        def lt(x, y):
            return bool(x < y)
    order = []
    reps, cnt, first, inv = [], [], [], [0] * len(items)
    for i, x in enumerate(items):
        # insertion into a sorted list of representatives
        pos = 0
        done = False
        while pos < len(reps):
            if lt(reps[pos], x):
                pos += 1
                continue
            if not lt(x, reps[pos]):
                cnt[pos] += 1
                order[pos].append(i)
                done = True
            break
        if not done:
            reps.insert(pos, x)
            cnt.insert(pos, 1)
            order.insert(pos, [i])
    for k, l in enumerate(order):
        for i in l:
            inv[i] = k
    if axis is None:
        vals = np.empty(len(reps), dtype=object)
        for i, x in enumerate(reps):
            vals[i] = x
        vals = wrap(vals)
    else:
        vals = wrap(np.moveaxis(np.stack([np.asarray(r) for r in reps]), 0, axis)) if reps else a
    out = [vals]
    if return_index:
        out.append(np.array([l[0] for l in order], dtype=int))
    if return_inverse:
        out.append(np.array(inv, dtype=int))
    if return_counts:
        out.append(np.array(cnt, dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def sym_count_nonzero(a, axis=None, **kw):
    return np.count_nonzero(tobool(a), axis=axis)


def sym_any(a, axis=None, **kw):
    return tobool(sym(a)).any(axis=axis)


def sym_all(a, axis=None, **kw):
    return tobool(sym(a)).all(axis=axis)


def sym_nonzero(a):
    return tobool(sym(a)).nonzero()


def sym_argwhere(a):
    return np.argwhere(tobool(sym(a)))


def sym_flatnonzero(a):
    return np.flatnonzero(tobool(sym(a)))


def sym_outer(a, b, out=None):
    a, b = sym(a).reshape(-1, 1), sym(b).reshape(1, -1)
    return a * b


def sym_round(a, decimals=0, out=None):
    return wrap(np.frompyfunc(lambda v: round(v, decimals) if isinstance(v, S) else float(np.round(v, decimals)), 1, 1)(plain(sym(a))))


def sym_clip(a, a_min=None, a_max=None, out=None, **kw):
    def f(v):
        if a_min is not None:
            v = _max(v, a_min)
        if a_max is not None:
            v = _min(v, a_max)
        return v
    return wrap(np.frompyfunc(f, 1, 1)(plain(sym(a))))


def sym_copy(a, *args, **kw):
    return sym(a).copy()


def sym_iscomplexobj(x):
    return False


def sym_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """Singular values as unconstrained nonnegative numbers (decreasing order not assumed)."""
    a = sym(a)
    if not ctx().havoc:
        raise NotImplementedError("symbolic svd")
    k = min(a.shape)
    key = ("svd",) + tuple((v.n, v.q) if isinstance(v, S) else repr(float(v)) for v in plain(a).reshape(-1))
    s = ctx().memo.get(key)
    if s is None:
        s = [ctx().fresh("sv") for _ in range(k)]
        for v in s:
            ctx().assume(v >= 0)
        ctx().memo[key] = s
    r = np.empty(k, dtype=object)
    for i, v in enumerate(s):
        r[i] = v
    if compute_uv:
        raise NotImplementedError("symbolic svd with vectors")
    return wrap(r)


class _Cat:
    """np.r_ / np.c_ with symbolic arrays."""

    def __init__(self, real, cols):
        self.real, self.cols = real, cols

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if not any(has_sym(x) or isinstance(x, SymArray) for x in ks):
            return self.real[k]
        parts = [plain(sym(f_array(x) if not isinstance(x, np.ndarray) else x)) for x in ks]
        if self.cols:
            parts = [p.reshape(-1, 1) if p.ndim < 2 else p for p in parts]
            return wrap(np.concatenate(parts, axis=-1))
        parts = [p.reshape(-1) if p.ndim == 0 else p for p in parts]
        return wrap(np.concatenate(parts, axis=0))


FUNCS = {
    np.linalg.svd: sym_svd,
    np.zeros_like: _like(0.0), np.ones_like: _like(1.0), np.empty_like: _like(0.0), np.full_like: _like(None),
    np.dot: sym_dot, np.sum: sym_sum, np.mean: sym_mean, np.var: sym_var, np.std: sym_std,
    np.cov: sym_cov, np.corrcoef: sym_corrcoef, np.median: sym_median, np.nanmedian: sym_nanmedian,
    np.percentile: sym_percentile, np.quantile: sym_quantile,
    np.argmax: lambda a, axis=None, **k: sym_arg(a, axis, True),
    np.argmin: lambda a, axis=None, **k: sym_arg(a, axis, False),
    np.nanargmax: lambda a, axis=None, **k: _nanarg(a, axis, True),
    np.nanargmin: lambda a, axis=None, **k: _nanarg(a, axis, False),
    np.argsort: sym_argsort, np.sort: sym_sort,
    np.max: _fold(_max), np.min: _fold(_min), np.amax: _fold(_max), np.amin: _fold(_min),
    np.nanmax: _nanfold(lambda v: functools.reduce(_max, v) if v else math.nan),
    np.nanmin: _nanfold(lambda v: functools.reduce(_min, v) if v else math.nan),
    np.nansum: _nanfold(lambda v: functools.reduce(lambda a, b: a + b, v, 0.0)),
    np.nanmean: _nanfold(lambda v: functools.reduce(lambda a, b: a + b, v, 0.0) / float(len(v)) if v else math.nan),
    np.isclose: sym_isclose, np.allclose: sym_allclose, np.nan_to_num: sym_nan_to_num,
    np.where: sym_where, np.array_equal: sym_array_equal,
    np.linalg.inv: sym_inv, np.linalg.det: sym_det, np.linalg.solve: sym_solve,
    np.linalg.pinv: sym_pinv, np.linalg.lstsq: sym_lstsq, np.linalg.norm: sym_norm,
    np.unique: sym_unique, np.count_nonzero: sym_count_nonzero, np.any: sym_any, np.all: sym_all,
    np.nonzero: sym_nonzero, np.argwhere: sym_argwhere, np.flatnonzero: sym_flatnonzero,
    np.outer: sym_outer, np.round: sym_round, np.around: sym_round, np.clip: sym_clip, np.copy: sym_copy,
    np.iscomplexobj: sym_iscomplexobj,
}


# ------------------------------------------------------------------- facade
def _creator(real, val):
    def f(shape, *args, dtype=None, **kw):
        if val is None:
            fill = args[0] if args else kw.pop("fill_value")
            rest = args[1:]
        else:
            fill, rest = val, args
        if rest and dtype is None:
            dtype = rest[0]
        if dtype is not None and np.dtype(dtype).kind not in "fO":
            return real(shape, *( (fill,) if val is None else ()), dtype=dtype)
        if val is None and dtype is None and isinstance(fill, (bool, np.bool_, int, np.integer, str)):
            return real(shape, fill)
        if isinstance(shape, S):
            shape = int(shape)
        r = np.empty(shape, dtype=object)
        if val is None and isinstance(fill, np.ndarray):
            r[...] = plain(fill)
        else:
            r.fill(_sc(fill))
        return r.view(SymArray)
    return f


def f_eye(N, M=None, k=0, dtype=None, **kw):
    r = np.eye(N, M, k)
    if dtype is not None and np.dtype(dtype).kind not in "fO":
        return r.astype(dtype)
    return sym(r)


def f_array(obj, dtype=None, copy=True, ndmin=0, **kw):
    d = np.dtype(dtype) if dtype is not None else None
    if hasattr(obj, "to_numpy") and hasattr(obj, "index"):
        obj = obj.to_numpy()
    if has_sym(obj):
        if d is not None and d.kind not in "fO":
            return np.array(plain(np.asarray(obj, dtype=object)), dtype=dtype)
        if isinstance(obj, np.ndarray):
            return wrap(np.array(plain(obj), dtype=object, copy=True, ndmin=ndmin))
        # nested lists that contain symbolic values
        def conv(o):
            if isinstance(o, np.ndarray):
                return plain(o).tolist() if o.ndim else o.item()
            if isinstance(o, (list, tuple)):
                return [conv(x) for x in o]
            if hasattr(o, "to_numpy"):
                return o.to_numpy().tolist()
            return o
        return wrap(np.array(conv(obj), dtype=object, ndmin=ndmin))
    r = np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin, **kw)
    if r.dtype.kind == "f":
        return sym(r)
    return wrap(r) if isinstance(obj, SymArray) else r


def f_asarray(obj, dtype=None, **kw):
    if isinstance(obj, SymArray) and (dtype is None or np.dtype(dtype).kind in "fO"):
        return obj
    if isinstance(obj, np.ndarray) and dtype is None:
        return obj
    return f_array(obj, dtype=dtype)


def _lin(real):
    def f(*a, **k):
        return sym(real(*a, **k))
    return f


def _dispatch(func, over):
    """Send calls with symbolic scalars/lists (not dispatched by numpy) to `over`."""
    @functools.wraps(func)
    def f(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return over(*a, **k)
        return func(*a, **k)
    return f


def _dispatch_uf(uf):
    el = ELEM.get(uf.__name__)

    class UF:
        __name__ = uf.__name__

        def __call__(self, *a, **k):
            if any(has_sym(x) for x in a):
                if all(np.ndim(x) == 0 and not isinstance(x, np.ndarray) for x in a) and el is not None and not k:
                    return _sc(el(*a))
                a = [wrap(np.asarray(f_array(x))) if isinstance(x, (list, tuple)) else wrap(x) for x in a]
                if not any(isinstance(x, SymArray) for x in a):
                    if el is not None and not k:
                        return _sc(el(*a))
                return uf(*a, **k)
            return uf(*a, **k)

        def __getattr__(self, n):
            return getattr(uf, n)
    return UF()


class Facade(types.ModuleType):
    """Stands in for a numpy module inside lingam."""

    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        if name in self._cache:
            return self._cache[name]
        v = getattr(self._real, name)
        if isinstance(v, np.ufunc):
            v = _dispatch_uf(v)
        elif callable(v) and not isinstance(v, type):
            try:
                f = FUNCS.get(v)
            except TypeError:
                f = None
            if f is not None:
                v = _dispatch(v, f)
        self._cache[name] = v
        return v

    def __setattr__(self, name, v):
        raise AttributeError("facade is read-only")


def sym_random_guard(name):
    def f(*a, **k):
        raise NotImplementedError("np.random." + name)
    return f


def make_facade(random=None):
    lin = Facade(np.linalg, {})
    over = {
        "zeros": _creator(np.zeros, 0.0), "ones": _creator(np.ones, 1.0),
        "empty": _creator(np.empty, 0.0), "full": _creator(np.full, None),
        "eye": f_eye, "identity": f_eye, "array": f_array, "asarray": f_asarray,
        "asanyarray": f_asarray, "ascontiguousarray": f_asarray,
        "linspace": _lin(np.linspace), "linalg": lin,
        "r_": _Cat(np.r_, False), "c_": _Cat(np.c_, True),
        "matmul": lambda a, b, **k: sym_dot(a, b) if has_sym(a) or has_sym(b) else np.matmul(a, b, **k),
    }
    if random is not None:
        over["random"] = random
    return Facade(np, over)
