"""Random centre lines and what a track over them is."""
import numpy as np


def trapz(y, x):
    r = [0.0]
    for k in range(1, len(x)):
        r.append(r[-1] + (y[k - 1] + y[k]) / 2 * (x[k] - x[k - 1]))
    return np.array(r)


def diff2(f, s):
    """Second-order differences inside, one-sided at the ends (the finite-difference contract)."""
    n = len(s)
    r = np.zeros(n)
    r[0] = (f[1] - f[0]) / (s[1] - s[0])
    r[-1] = (f[-1] - f[-2]) / (s[-1] - s[-2])
    for k in range(1, n - 1):
        a, b = s[k] - s[k - 1], s[k + 1] - s[k]
        r[k] = (a * a * f[k + 1] + (b * b - a * a) * f[k] - b * b * f[k - 1]) / (a * b * (a + b))
    return r


def line(rng):
    """A random smooth centre line."""
    n = int(rng.integers(4, 40))
    if rng.integers(2):
        g = rng.uniform(0.01, 1, n)      # points are not arbitrarily close: differences must be well conditioned
        t = rng.uniform(0, 0.5) + np.cumsum(g) / np.sum(g) * rng.uniform(3, 5.5)
        R = 50 + 10 * rng.normal() * np.cos(2 * t)
        x, y = R * np.cos(t), R * np.sin(t)
        if rng.integers(2):
            x, y = x[::-1].copy(), y[::-1].copy()
        if rng.integers(3) == 0:
            x, y = np.append(x, x[0]), np.append(y, y[0])
    else:
        t = np.cumsum(rng.uniform(0.5, 2, n))
        a = rng.normal(size=4)
        x, y = 10 * t, a[0] * t + a[1] * t ** 2 / 5 + 5 * np.sin(a[2] + t)
    d = np.hypot(np.diff(x), np.diff(y))
    keep = np.r_[True, d > 1e-6]
    th = rng.uniform(0, 2 * np.pi)
    x, y = x[keep], y[keep]
    return np.cos(th) * x - np.sin(th) * y + rng.normal() * 100, np.sin(th) * x + np.cos(th) * y + rng.normal() * 100


def expected(x, y):
    s = np.r_[0.0, np.cumsum(np.hypot(np.diff(x), np.diff(y)))]
    dx, dy = diff2(x, s), diff2(y, s)
    ddx, ddy = diff2(dx, s), diff2(dy, s)
    k = (dx * ddy - dy * ddx) / (dx ** 2 + dy ** 2) ** 1.5
    return s, k, np.arctan2(dy[0], dx[0]) + trapz(k, s)


def interp(q, s, v):
    if q <= s[0]:
        return v[0]
    if q >= s[-1]:
        return v[-1]
    k = int(np.searchsorted(s, q, side="right")) - 1
    return v[k] + (q - s[k]) / (s[k + 1] - s[k]) * (v[k + 1] - v[k])


def widths(rng, n):
    if rng.integers(3) == 0:
        return None, None
    return rng.uniform(1, 5, n), rng.uniform(1, 5, n)
