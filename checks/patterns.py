"""Images of line patterns and chessboards with known geometry."""
import numpy as np
from vlib import rng


def warp(y, x, dist):
    """Positions in the undistorted scene seen at image positions; dist is
    None or (xc, yc, k): r_scene = r (1 + k r^2)."""
    if not dist:
        return y, x
    xc, yc, k = dist
    r2 = (x - xc) ** 2 + (y - yc) ** 2
    f = 1 + k * r2
    return yc + (y - yc) * f, xc + (x - xc) * f


def coords(y, x, s):
    """(across horizontal lines, across vertical lines) coordinates: the
    horizontal line number i is where the first is i*pitch."""
    a, b = np.deg2rad(s["th"]), np.deg2rad(s["tv"])
    y, x = warp(y, x, s.get("dist"))
    uh = (y - s["cy"]) * np.cos(a) - (x - s["cx"]) * np.sin(a)
    uv = (x - s["cx"]) * np.cos(b) - (y - s["cy"]) * np.sin(b)
    return uh, uv


def lines(h, w, s, bg=200.0, fg=40.0):
    """Both families of lines: horizontal ones at angle th (y grows with x),
    vertical ones at tv (x grows with y), pitches ph and pv, Gaussian
    cross-section sig."""
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    uh, uv = coords(y, x, s)
    f = np.zeros((h, w))
    for u, p in ((uh, s["ph"]), (uv, s["pv"])):
        d = u - p * np.round(u / p)
        f = np.maximum(f, np.exp(-0.5 * (d / s["sig"]) ** 2))
    return bg + (fg - bg) * f


def board(h, w, s, lo=30.0, hi=220.0, soft=0.7):
    """Chessboard with edges on the lines of the pattern."""
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    uh, uv = coords(y, x, s)
    f = np.ones((h, w))
    for u, p in ((uh, s["ph"]), (uv, s["pv"])):
        k = np.round(u / p)
        f *= np.tanh((u - p * k) / soft) * np.where(k % 2 == 0, 1.0, -1.0)
    return lo + (hi - lo) * 0.5 * (1 + f)


def shade(m, gy, gx, noise, seed):
    h, w = m.shape
    s = 1 + gy * (np.arange(h) / h - 0.5)[:, None] \
        + gx * (np.arange(w) / w - 0.5)[None, :]
    m = m * s
    if noise:
        m = m + noise * (rng(seed).random(m.shape) - 0.5)
    return m
