"""Observations: canonical, picklable descriptions of what a caller sees, and
tolerant comparison of two of them."""
import datetime
import math
import numbers

import numpy as np

RTOL, ATOL = 1e-9, 1e-9


def canon(x, depth=0):
    """Plain nested data: dict / list / np.ndarray / scalars / tagged strings."""
    if depth > 12:
        return "<deep>"
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [canon(v, depth + 1) for v in x.tolist()]
        return np.array(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (numbers.Integral,)):
        return int(x)
    if isinstance(x, (numbers.Real,)):
        return float(x)
    if isinstance(x, dict):
        return {str(canon(k)): canon(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v, depth + 1) for v in x), key=repr)
    if isinstance(x, (datetime.datetime, datetime.date)):
        return x.isoformat()
    return f"<{type(x).__name__}>"


def _arr(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, list):
        try:
            a = np.array(x, dtype=float)
            return a
        except (ValueError, TypeError):
            return None
    return None


def diff(a, b, path="", rtol=RTOL, atol=ATOL):
    """First difference between two canonical values, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k}: only on one side"
            d = diff(a[k], b[k], f"{path}.{k}", rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = _arr(a), _arr(b)
        if x is None or y is None:
            return f"{path}: {type(a).__name__} vs {type(b).__name__}"
        if x.shape != y.shape:
            return f"{path}: shape {x.shape} vs {y.shape}"
        if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
            ok = np.isclose(x.astype(float), y.astype(float), rtol=rtol, atol=atol, equal_nan=True)
            if ok.all():
                return None
            i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
            return (f"{path}{list(i)}: {np.atleast_1d(x)[i]!r} vs {np.atleast_1d(y)[i]!r}"
                    f" ({int((~ok).sum())} of {ok.size} differ)")
        return None if np.array_equal(x, y) else f"{path}: arrays differ"
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (u, v) in enumerate(zip(a, b)):
            d = diff(u, v, f"{path}[{i}]", rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        if math.isnan(a) and math.isnan(b):
            return None
        if a == b or abs(a - b) <= atol + rtol * abs(b):
            return None
        return f"{path}: {a!r} vs {b!r}"
    if a == b:
        return None
    return f"{path}: {str(a)[:120]!r} vs {str(b)[:120]!r}"


def exc_obs(e):
    return {"__raised__": type(e).__name__}
