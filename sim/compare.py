"""Observations: what a caller can see of a model, and when two are the same."""
import numpy as np

RTOL = 1e-6


class Raised:
    """The observation raised.  Only the fact counts, not the type: which
    exception an unavailable answer raises is not part of any property."""

    def __init__(self, exc):
        self.name = type(exc).__name__
        self.msg = str(exc)[:120]

    def __repr__(self):
        return f"<raised {self.name}: {self.msg}>"


def freeze(v):
    """A private copy of an observed value."""
    if isinstance(v, np.ma.MaskedArray):
        return np.array(v.filled(np.nan))
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    return v


def same(a, b, rtol=RTOL, scale=0.0):
    """None if equal, else a short description of the difference."""
    if isinstance(a, Raised) or isinstance(b, Raised):
        if isinstance(a, Raised) and isinstance(b, Raised):
            return None
        return f"{_short(a)} vs {_short(b)}"
    if a is None or b is None:
        return None if a is b else f"{_short(a)} vs {_short(b)}"
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"keys {sorted(map(str, a))} vs {sorted(map(str, b))}"
        for k in a:
            d = same(a[k], b[k], rtol, scale)
            if d:
                return f"{k}: {d}"
        return None
    if isinstance(a, (str, bool, bytes)) or isinstance(b, (str, bool, bytes)):
        return None if a == b else f"{_short(a)} vs {_short(b)}"
    if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
        return None if a == b else f"{_short(a)} vs {_short(b)}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"length {len(a)} vs {len(b)}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, rtol, scale)
            if d:
                return f"[{k}]: {d}"
        return None
    try:
        x, y = np.asarray(a), np.asarray(b)
    except Exception as e:  # pragma: no cover
        return f"incomparable: {e}"
    if x.dtype == object or y.dtype == object:
        return None if repr(a) == repr(b) else f"{_short(a)} vs {_short(b)}"
    if x.shape != y.shape:
        return f"shape {x.shape} vs {y.shape}"
    if x.size == 0:
        return None
    if x.dtype == bool or y.dtype == bool:
        return None if np.array_equal(x, y) else f"{_short(a)} vs {_short(b)}"
    fx, fy = np.isfinite(x), np.isfinite(y)
    if not np.array_equal(fx, fy):
        return "finite in different places"
    if not fx.any():
        return None
    s = max(np.abs(x[fx]).max(), np.abs(y[fy]).max(), scale)
    err = np.abs(x[fx] - y[fy]).max()
    if err <= rtol * s + 1e-13:
        return None
    return f"differ by {err:.3g} at scale {s:.3g}"


def _short(v):
    if isinstance(v, np.ndarray):
        return f"array{v.shape}"
    s = repr(v)
    return s if len(s) < 90 else s[:87] + "..."


def diff_obs(a, b, rtol=RTOL, ignore=()):
    """First difference between two observation dictionaries, or None."""
    for k in a:
        if k in ignore:
            continue
        if k not in b:
            return f"{k} missing"
        d = same(a[k], b[k], rtol)
        if d:
            return f"{k}: {d}"
    for k in b:
        if k not in a and k not in ignore:
            return f"{k} extra"
    return None
