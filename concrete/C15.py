"""Runtime contract: tracks are consistent in arc length."""
import os

import numpy as np
import pandas as pd

from concrete.base import case, require, close, equal, relaid, twice
from concrete.lines import trapz, diff2, line, expected, interp, widths
from lumos.models import tracks
from lumos.models.tracks import ConstCurvTrack, RaceTrack


def query(rng, t, s, curv, head, left, right):
    L = s[-1]
    close(t.total_distance, L, "total distance")
    q = np.concatenate([s, rng.uniform(0, L, 20), [0.0, L]])
    for name, v in (("curvature", curv), ("heading", head), ("left_distance", left), ("right_distance", right)):
        f = getattr(t, f"{name}_at")
        want = np.array([interp(z, s, v) for z in q])
        close(twice(rng, f, q), want, name, rtol=1e-9, atol=1e-9)
        grid = q[:len(q) // 2 * 2].reshape(2, -1)
        close(f(grid), want[:grid.size].reshape(2, -1), f"{name} on a grid", rtol=1e-9, atol=1e-9)
        k = int(rng.integers(len(q)))
        close(f(float(q[k])), want[k], f"{name} at one distance", rtol=1e-9, atol=1e-9)


@case(quick=150)
def cartesian(rng):
    x, y = (relaid(rng, v) for v in line(rng))
    n = len(x)
    left, right = widths(rng, n)
    if left is not None:
        left, right = relaid(rng, left), relaid(rng, right)
    x0, y0 = x.copy(), y.copy()
    if rng.integers(4) == 0:
        f = "track.csv"
        lw, rw = (left, right) if left is not None else (np.full(n, 3.0), np.full(n, 4.0))
        if rng.integers(2):             # very narrow or very wide tracks
            w = [1e-3, 0.05, 0.2, 20.0][int(rng.integers(4))]
            lw, rw = lw * w, rw * w
        cols = {"# x_m": x, "y_m": y, "w_tr_right_m": rw, "w_tr_left_m": lw}
        pd.DataFrame(cols).to_csv(f, index=False)
        t = RaceTrack.from_tum_csv(f)
        os.remove(f)
    else:
        kw = {} if left is None and rng.integers(2) else dict(left_distance=left, right_distance=right)
        t = RaceTrack.from_cartesian(x, y, **kw)
        lw, rw = (left, right) if left is not None else (np.full(n, 5.0), np.full(n, 5.0))
    s, k, h = expected(x, y)
    query(rng, t, s, k, h, lw, rw)
    s2, k2, h2 = tracks.cartesian_to_curvilinear(x, y)
    close(s2, s, "arc length")
    close(k2, k, "curvature", atol=1e-9)
    close(h2, h, "heading")
    equal(x, x0, "the centre line was changed")
    equal(y, y0, "the centre line was changed")
    # turning, moving and mirroring the line
    th = rng.uniform(-3, 3)
    c, d = np.cos(th), np.sin(th)
    s3, k3, h3 = tracks.cartesian_to_curvilinear(c * x - d * y + 7, d * x + c * y - 3)
    close(s3, s, "arc length of the turned line")
    close(k3, k, "curvature of the turned line", rtol=1e-6, atol=1e-9)
    close(np.exp(1j * (h3 - h)).real, np.full(n, c), "heading of the turned line", rtol=1e-6)
    close(np.exp(1j * (h3 - h)).imag, np.full(n, d), "heading of the turned line", rtol=1e-6)
    _, k4, _ = tracks.cartesian_to_curvilinear(x, -y)
    close(k4, -k, "curvature of the mirrored line")
    # the unit of length is free
    f = 2.0 ** int(rng.integers(-14, 15))
    s5, k5, h5 = tracks.cartesian_to_curvilinear(f * x, f * y)
    close(np.asarray(s5) / f, s, f"arc length of the line scaled by {f}", rtol=1e-9)
    close(np.asarray(k5) * f, k, f"curvature of the line scaled by {f}", rtol=1e-6, atol=1e-9)
    close(h5, h, f"heading of the line scaled by {f}", rtol=1e-9)
    return dict(n=n, w=left is not None)


@case(quick=20)
def circle(rng):
    R = float(np.exp(rng.uniform(1, 5)))
    sign = [-1, 1][int(rng.integers(2))]
    n = 400
    a = rng.uniform(0, 6) + sign * np.linspace(0, 2 * np.pi * rng.uniform(0.3, 1.0), n)
    t = RaceTrack.from_cartesian(R * np.cos(a), R * np.sin(a))
    s = np.linspace(0.05, 0.95, 50) * t.total_distance
    close(t.curvature_at(s) * R, np.full(50, sign * 1.0), "curvature of a circle", rtol=1e-3)
    close(t.total_distance, R * abs(a[-1] - a[0]), "length of an arc", rtol=1e-4)
    h = t.heading_at(s)
    ang = a[0] + sign * s / R + sign * np.pi / 2
    close(np.cos(h - ang), np.ones(50), "heading of a circle", rtol=1e-2)
    return dict(R=round(R, 2), sign=sign)


@case(quick=150)
def curvilinear(rng):
    n = int(rng.integers(2, 30))
    s = np.cumsum(rng.uniform(0.1, 3, n)) + rng.normal() * 10 * rng.integers(2)
    k = rng.normal(size=n) * 0.2
    h0, x0, y0 = rng.normal(size=3)
    h = trapz(k, s) + h0
    X, Y = trapz(np.cos(h), s), trapz(np.sin(h), s)
    x, y, hh = tracks.curvilinear_to_cartesian(s, k, x0, y0, h0)
    close(hh, h, "heading")
    close(x, X + x0, "x")
    close(y, Y + y0, "y")
    x, y, hh = tracks.curvilinear_to_cartesian(s, k)
    close(hh, h - h0, "heading from zero")
    left, right = widths(rng, n)
    kw = dict(heading0=h0) if rng.integers(2) else {}
    t = RaceTrack.from_curvilinear(s, k, left_distance=left, right_distance=right, **kw)
    lw, rw = (left, right) if left is not None else (np.full(n, 5.0), np.full(n, 5.0))
    query(rng, t, s - s[0], k, h if kw else h - h0, lw, rw)
    return dict(n=n)


@case(quick=100)
def samples(rng):
    """A track built from its samples answers with them."""
    n = int(rng.integers(2, 20))
    s = np.cumsum(rng.uniform(0.1, 3, n)) + rng.normal() * 10 * rng.integers(2)
    d = [rng.normal(size=n) for _ in range(4)]
    left, right = widths(rng, n)
    kw = {}
    if left is not None:
        kw = [dict(left_distance=left, right_distance=right), dict(left_distance=left),
              dict(right_distance=right)][int(rng.integers(3))]
    s0 = s.copy()
    t = RaceTrack(x=d[0], y=d[1], s=s, curvature=d[2], heading=d[3], **kw)
    query(rng, t, s0 - s0[0], d[2], d[3], kw.get("left_distance", np.full(n, 5.0)),
          kw.get("right_distance", np.full(n, 5.0)))
    equal(s, s0, "the samples were changed")
    return dict(n=n, kw=sorted(kw))


@case(quick=30)
def constant(rng):
    k, h = rng.normal(size=2)
    w = float(rng.uniform(1, 5))
    t = ConstCurvTrack(k, h, w)
    s = rng.normal() * 50
    close(t.curvature_at(s), k, "curvature")
    close(t.heading_at(s), h + k * s, "heading")
    close(t.half_width_at(s), w, "half width")
    return dict(k=round(k, 3))
