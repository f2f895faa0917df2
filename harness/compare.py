"""Comparisons that turn any disagreement into a Violation."""

import numpy as np

from .core import HarnessError, Violation


def as_array(value, what="result"):
    try:
        arr = np.asarray(value)
        if arr.dtype == object:
            raise Violation(f"{what}: not numeric: {value!r:.200}")
        if arr.dtype == bool:
            arr = arr.astype(float)
        return arr
    except Violation:
        raise
    except Exception as exc:
        raise Violation(f"{what}: not an array ({exc!r})")


def close(actual, expected, what, rtol=1e-8, atol=0.0, where=None):
    """Elementwise |a - e| <= atol + rtol * |e|, shapes equal, NaN never allowed in actual
    unless expected is NaN too."""
    act = as_array(actual, what)
    exp = np.asarray(expected)
    if act.shape != exp.shape:
        raise Violation(f"{what}: shape {act.shape} instead of {exp.shape}")
    act = act.astype(float) if act.dtype.kind in "iub" else act
    exp = exp.astype(float) if exp.dtype.kind in "iub" else exp
    tol = np.broadcast_to(atol + rtol * np.abs(exp), exp.shape)
    with np.errstate(all="ignore"):
        bad = ~(np.abs(act - exp) <= tol)
        bad &= ~(act == exp)  # infinities
        bad &= ~(np.isnan(act) & np.isnan(exp))
    if where is not None:
        bad &= np.broadcast_to(where, bad.shape)
    if bad.any():
        idx = tuple(int(i) for i in np.argwhere(bad)[0]) if bad.ndim else ()
        raise Violation(
            f"{what}: got {act[idx]!r}, expected {exp[idx]!r}"
            f" (index {idx}, {int(bad.sum())} of {bad.size} differ)"
        )


def nonnegative(value, what):
    arr = as_array(value, what)
    bad = ~(arr >= 0)
    if bad.any():
        idx = tuple(int(i) for i in np.argwhere(bad)[0]) if bad.ndim else ()
        raise Violation(f"{what}: negative or NaN value {arr[idx]!r} at index {idx}")


def zero(value, mask, what):
    arr = as_array(value, what)
    if arr.shape != np.shape(mask):
        raise Violation(f"{what}: shape {arr.shape} instead of {np.shape(mask)}")
    bad = np.asarray(mask) & ~(arr == 0)
    if bad.any():
        idx = tuple(int(i) for i in np.argwhere(bad)[0]) if bad.ndim else ()
        raise Violation(f"{what}: {arr[idx]!r} outside the support (index {idx})")


def is_true(cond, what):
    if not cond:
        raise Violation(what)


def scalar(value, what):
    arr = as_array(value, what)
    if arr.shape != ():
        raise Violation(f"{what}: expected a number, got shape {arr.shape}")
    return float(arr)


def raises(exc_types, func, what):
    try:
        result = func()
    except exc_types:
        return
    except Exception as exc:
        raise Violation(f"{what}: raised {type(exc).__name__} ({exc}) instead")
    raise Violation(f"{what}: accepted, returned {str(result)[:100]}")


def snapshot(obj):
    """A deep copy for later comparison with `unchanged`."""
    import copy

    import pandas as pd

    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return type(obj)(snapshot(v) for v in obj)
    if isinstance(obj, np.ndarray):
        return obj.copy()
    if isinstance(obj, (pd.DataFrame, pd.Series)):
        return obj.copy(deep=True)
    if isinstance(obj, (int, float, str, bool, type(None), np.generic, set)):
        return copy.copy(obj)
    if "jax" in type(obj).__module__:
        return np.array(obj)
    return obj


def unchanged(before, now, what):
    """`now` must be exactly what the snapshot recorded."""
    import pandas as pd

    if isinstance(before, dict):
        if not isinstance(now, dict) or list(before) != list(now):
            raise Violation(f"{what}: keys changed from {list(before)} to {list(now)}")
        for key in before:
            unchanged(before[key], now[key], f"{what}[{key!r}]")
        return
    if isinstance(before, (list, tuple)):
        if type(before) is not type(now) or len(before) != len(now):
            raise Violation(f"{what}: modified")
        for ii, (a, b) in enumerate(zip(before, now)):
            unchanged(a, b, f"{what}[{ii}]")
        return
    if isinstance(before, (pd.DataFrame, pd.Series)):
        if not before.equals(now) or not before.index.equals(now.index):
            raise Violation(f"{what}: table modified")
        return
    if isinstance(before, (np.ndarray, np.generic)) or "jax" in type(now).__module__:
        a, b = np.asarray(before), np.asarray(now)
        if a.shape != b.shape or a.dtype != b.dtype:
            raise Violation(f"{what}: array type or shape modified")
        same = (a == b) | ((a != a) & (b != b))
        if not np.all(same):
            raise Violation(f"{what}: array modified in place")
        return
    if before is now:
        return
    if isinstance(before, (int, float, str, bool, type(None), set)):
        if type(before) is not type(now):
            raise Violation(f"{what}: changed from {before!r} to {now!r}")
        if before != now and not (before != before and now != now):
            raise Violation(f"{what}: changed from {before!r} to {now!r}")
        return
    raise Violation(f"{what}: replaced")


__all__ = [
    "HarnessError",
    "Violation",
    "as_array",
    "close",
    "is_true",
    "nonnegative",
    "raises",
    "scalar",
    "snapshot",
    "unchanged",
    "zero",
]
