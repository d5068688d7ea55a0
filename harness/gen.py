"""Shared strategies and numeric helpers."""

import numpy as np
from hypothesis import strategies as st
from hypothesis.extra import numpy as hnp


def quarter(draw, shape, lo=-12, hi=12, dtype=float):
    """Array of small multiples of 1/4: exactly representable, sums are exact."""
    a = draw(hnp.arrays(np.int16, shape, elements=st.integers(lo, hi)))
    return (a / 4).astype(dtype)


def close(actual, expected, rtol, scale=None):
    """max |actual - expected| <= rtol * scale, NaN and infinities matched by place."""
    actual = np.asarray(actual)
    expected = np.asarray(expected)
    if actual.shape != expected.shape:
        return False
    if actual.size == 0:
        return True
    if scale is None:
        with np.errstate(all='ignore'):
            fin = np.abs(expected[np.isfinite(expected)])
        scale = fin.max() if fin.size else 0.0
    nonfinite = ~np.isfinite(expected)
    if np.any(nonfinite):
        a, e = actual[nonfinite], expected[nonfinite]
        if not np.array_equal(a, e, equal_nan=True):
            return False
    ok = np.isfinite(actual) | nonfinite
    if not np.all(ok):
        return False
    d = np.abs(actual[~nonfinite] - expected[~nonfinite])
    return d.size == 0 or bool(np.all(d <= rtol * scale))


def eps(*dtypes):
    out = 0.0
    for d in dtypes:
        d = np.dtype(d)
        if d.kind in 'fc':
            out = max(out, float(np.finfo(d).eps))
    return out or float(np.finfo(float).eps)


def rarely():
    """True once in a while: for the larger and slower cases."""
    return st.integers(0, 11).map(lambda i: i == 7)


def seeds():
    return st.integers(0, 2**31 - 1)


def rng(seed):
    return np.random.default_rng(seed)
