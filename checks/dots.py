"""Synthetic dot patterns (shared by C15-C17, C30)."""
from checks.common import *
from vlib import np


def disc_field(h, w, centers, radius):
    """Coverage (0..1) of anti-aliased discs."""
    out = np.zeros((h, w))
    radius = np.broadcast_to(radius, (len(centers),))
    for (cy, cx), r in zip(centers, radius):
        k = int(np.ceil(r)) + 2
        y0, y1 = max(0, int(cy) - k), min(h, int(cy) + k + 2)
        x0, x1 = max(0, int(cx) - k), min(w, int(cx) + k + 2)
        if y0 >= y1 or x0 >= x1:
            continue
        y, x = np.mgrid[y0:y1, x0:x1]
        cov = np.clip(r + 0.5 - np.hypot(y - cy, x - cx), 0, 1)
        out[y0:y1, x0:x1] = np.maximum(out[y0:y1, x0:x1], cov)
    return out


def grid_in_image(nh, nv, d, tilt, margin, asp=1.0, jx=0.0, jy=0.0):
    """(centers array (nh, nv, 2), height, width): tilted grid fitted into an
    image with the given margin."""
    hor, _ = grid(nh, nv, d, d * asp, 0.0, 0.0, tilt)
    g = np.asarray(hor)
    g = g - g.reshape(-1, 2).min(0) + margin + [jy, jx]
    h, w = (int(np.ceil(v)) + 1 for v in g.reshape(-1, 2).max(0) + margin)
    return g, h, w


def lit(field, bg, fg, gy, gx, noise, seed):
    """Background bg, dots fg, uneven illumination, noise."""
    h, w = field.shape
    y, x = np.mgrid[0:h, 0:w]
    m = bg + (fg - bg) * field
    m = m * (1 + gy * (y / max(h - 1, 1) - 0.5) + gx * (x / max(w - 1, 1)
                                                        - 0.5))
    if noise:
        m = m + noise * abs(fg - bg) * rng(seed).standard_normal((h, w))
    return np.clip(m, 0, None)


def match(points, truth):
    """Offsets of points from the nearest true ones; Violation unless the two
    sets correspond one to one."""
    points, truth = np.float64(points), np.float64(truth)
    need(points.ndim == 2 and points.shape[1] == 2, "points have shape %s",
         points.shape)
    need(len(points) == len(truth), "%d points found for %d dots",
         len(points), len(truth))
    d2 = ((points[:, None] - truth[None]) ** 2).sum(-1)
    j = d2.argmin(1)
    need(len(set(j.tolist())) == len(truth), "several points belong to the "
         "same dot")
    return points - truth[j]
