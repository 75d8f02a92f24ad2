"""Stand-ins for external code inside lingam during symbolic execution."""
import numpy as np
import sklearn.utils
import sklearn.utils.validation

from .arr import SymArray, f_array, has_sym, make_facade, sym

_FAC = {}


def facade():
    if "np" not in _FAC:
        _FAC["np"] = make_facade()
    return _FAC["np"]


def check_array(array, *args, copy=False, ensure_2d=True, allow_nd=False, dtype="numeric", **kw):
    """Shape contract of sklearn.utils.check_array; like the original it returns
    the caller's own array when no conversion is needed."""
    a = array
    if hasattr(a, "to_numpy") and hasattr(a, "columns"):
        a = f_array(a.to_numpy())
        copied = True
    if isinstance(a, SymArray):
        r = a
    elif isinstance(a, np.ndarray) and not has_sym(a):
        return sklearn.utils.check_array(a, *args, copy=copy, ensure_2d=ensure_2d, allow_nd=allow_nd,
                                         dtype=dtype, **kw)
    else:
        r = sym(f_array(a))
    if ensure_2d and (r.ndim < 2 or (r.ndim > 2 and not allow_nd)):
        raise ValueError(f"Expected 2D array, got {r.ndim}D array instead")
    if not allow_nd and r.ndim > 2:
        raise ValueError("Found array with dim > 2")
    if r.ndim and r.shape[0] < kw.get("ensure_min_samples", 1):
        raise ValueError(f"Found array with {r.shape[0]} sample(s)")
    if ensure_2d and r.shape[1] < kw.get("ensure_min_features", 1):
        raise ValueError(f"Found array with {r.shape[1]} feature(s)")
    finite = kw.get("force_all_finite", kw.get("ensure_all_finite", True))
    if finite is not False:
        bad = [v for v in np.ndarray.ravel(r).tolist() if isinstance(v, float) and v != v]
        if bad and finite is True:
            raise ValueError("Input contains NaN.")
    return r.copy() if copy else r


def check_scalar(x, name, target_type=None, *, min_val=None, max_val=None, include_boundaries="both"):
    """sklearn.utils.check_scalar for symbolic numbers (type test waived)."""
    from .core import S
    if not isinstance(x, S):
        return sklearn.utils.check_scalar(x, name, target_type, min_val=min_val, max_val=max_val,
                                          include_boundaries=include_boundaries)
    left = include_boundaries in ("left", "both")
    right = include_boundaries in ("right", "both")
    if min_val is not None and bool(x < min_val if left else x <= min_val):
        raise ValueError(f"{name} is out of range")
    if max_val is not None and bool(x > max_val if right else x >= max_val):
        raise ValueError(f"{name} is out of range")
    return x


def check_consistent_length(*arrays):
    n = {len(a) for a in arrays if a is not None}
    if len(n) > 1:
        raise ValueError("inconsistent numbers of samples")


def base_mapping(c):
    return [
        (np, facade()),
        (np.linalg, facade().linalg),
        (sklearn.utils.check_array, check_array),
        (sklearn.utils.check_scalar, check_scalar),
    ] + [(getattr(np, n), getattr(facade(), n)) for n in
         ("zeros", "ones", "empty", "full", "eye", "array", "asarray", "identity", "isnan", "dot")]
