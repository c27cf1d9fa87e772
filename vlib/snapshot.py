"""Canonical deep content of objects, to tell whether anything changed."""

import numpy as np


def freeze(x, depth=0, seen=None):
    """Nested plain data describing x completely (arrays by dtype, shape, bytes)."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "OUS":
            return ("arr", x.shape, tuple(str(v) for v in x.ravel().tolist()))
        return ("arr", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, (str, bytes, bool, type(None), int, float, complex, np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, dict):
        return ("dict", tuple((str(k), freeze(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v, depth + 1) for v in x))
    if callable(x) and not hasattr(x, "__dict__"):
        return ("callable", repr(x))
    if hasattr(x, "__dict__") and depth < 12:
        return (
            type(x).__name__,
            tuple((k, freeze(v, depth + 1)) for k, v in sorted(vars(x).items()) if content(x, k)),
        )
    return ("other", type(x).__name__)


def content(x, k):
    """Private attributes without a public name (caches, flags) are not content."""
    if k == "parent" or k.endswith("logger_name"):
        return False
    return not k.startswith("_") or hasattr(type(x), k[1:]) or k.startswith("_function_")


def difference(a, b, path=""):
    """First place where two frozen contents differ, or None."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                if isinstance(x, tuple) and isinstance(y, tuple):
                    name = x[0] if x and isinstance(x[0], str) else str(i)
                    return difference(x, y, path + "." + name)
                return "%s: %r became %r" % (path, short(x), short(y))
    return "%s: %s became %s" % (path, short(a), short(b))


def short(x):
    return repr(x)[:200]
