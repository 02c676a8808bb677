"""Reference binning, straight-line fits and best-fit comparison, written from the definitions."""
import numpy as np
from .core import fail, need


def num_bins(x, n):
    """Bins holding equal numbers of the sorted values: edges at every (n-th part)-th value, empty ones merged.
    Returns (lower, mean, upper, count); a value belongs to [lower, upper), the largest to the last bin."""
    s = np.sort(np.asarray(x, float))
    e = [s[(i * len(s)) // n] for i in range(n)] + [s[-1]]
    lo = [a for a, b in zip(e[:-1], e[1:]) if a != b]
    up = [b for a, b in zip(e[:-1], e[1:]) if a != b]
    which = place(s, np.array(up))
    cnt = np.array([np.sum(which == i) for i in range(len(lo))])
    mean = np.array([np.mean(s[which == i]) if np.any(which == i) else np.nan for i in range(len(lo))])
    return np.array(lo), mean, np.array(up), cnt


def fix_bins(x, n, log=False):
    s = np.asarray(x, float)
    if log:
        e = np.logspace(np.log10(s.min()), np.log10(s.max()), n + 1)
    else:
        e = np.linspace(s.min(), s.max(), n + 1)
    lo, up = e[:-1], e[1:]
    cnt = np.array([np.sum((s >= a) & ((s < b) if i < n - 1 else (s <= b))) for i, (a, b) in enumerate(zip(lo, up))])
    return lo, (lo + up) / 2, up, cnt


def place(x, up):
    """Bin of each value for contiguous bins: the first whose upper edge is above it, else the last."""
    x = np.asarray(x, float)
    return np.array([min(int(np.sum(up <= v)), len(up) - 1) for v in x], int)


def line(x, y):
    """Least-squares slope, intercept and their standard errors (residual variance over n - 2)."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    n, xm, ym = len(x), np.mean(x), np.mean(y)
    sxx = np.sum((x - xm) ** 2)
    a = np.sum((x - xm) * (y - ym)) / sxx
    b = ym - a * xm
    s2 = np.sum((y - a * x - b) ** 2) / (n - 2) if n > 2 else np.nan
    return a, b, np.sqrt(s2 / sxx), np.sqrt(s2 * (1.0 / n + xm ** 2 / sxx))


def edge_ok(x, edges, scale, tol=1e-9):
    """No value sits within rounding of an edge without being the star that defines it is required only when coordinates
    go through a frame change; used to skip ambiguous examples."""
    x = np.asarray(x, float)
    for e in edges:
        d = np.abs(x - e)
        if np.sum((d < tol * scale)) > 1:
            return False
    return True
