"""Arguments an operation makes for itself and hands to the library: they too
must come back as they were."""
import threading

import numpy as np

T = threading.local()


class ArgumentChanged(Exception):
    pass


def snap(x, depth=0):
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, (list, tuple)) and depth < 4:
        return (type(x).__name__, tuple(snap(v, depth + 1) for v in x))
    if isinstance(x, dict) and depth < 4:
        return tuple((repr(k), snap(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return repr(x)
    return id(x)


def own(x, what="argument"):
    """Hand `x` to the library and watch it until the operation ends."""
    held = getattr(T, "held", None)
    if held is not None:
        held.append((what, x, snap(x)))
    return x


def guard(fn):
    T.held = held = []
    try:
        r = fn()
    except Exception:
        T.held = None
        check(held)
        raise
    except BaseException:
        T.held = None
        raise
    T.held = None
    check(held)
    return r


def check(held):
    for what, x, was in held:
        if snap(x) != was:
            raise ArgumentChanged(f"the {what} passed by the caller was changed")
