"""Uninitialised-memory sanitizer: np.empty* return filled buffers."""
import contextlib

import numpy as np

_REAL = {k: getattr(np, k) for k in ("empty", "empty_like")}
HITS = {"n": 0}


def _fill(a, value):
    HITS["n"] += 1
    k = a.dtype.kind
    if k == "f":
        a.fill(value if abs(value) < 1e38 or a.dtype.itemsize > 4 or
               value != value else np.sign(value) * 1e38)
    elif k == "c":
        a.fill(value)
    elif k in "iu":
        with np.errstate(all="ignore"):
            a.fill(np.iinfo(a.dtype).max // 3)
    elif k == "b":
        a.fill(True)
    elif a.dtype.names:
        for n in a.dtype.names:
            _fill(a[n], value)
    return a


@contextlib.contextmanager
def poison(value):
    """value: a float (NaN, 1e300, ...) put in every uninitialised buffer."""
    def empty(*a, **k):
        return _fill(_REAL["empty"](*a, **k), value)

    def empty_like(*a, **k):
        return _fill(_REAL["empty_like"](*a, **k), value)
    np.empty, np.empty_like = empty, empty_like
    try:
        yield HITS
    finally:
        np.empty, np.empty_like = _REAL["empty"], _REAL["empty_like"]
