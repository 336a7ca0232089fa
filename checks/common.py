"""Shared generators and independent oracles (numpy only, none of discorpy)."""
import numpy as np
from vlib import st, q, seeds, fixed, rng, need, arr, close, Violation  # noqa

DTYPES = ["float32", "float64", "uint8", "uint16", "int16", "int32"]


# ------------------------------------------------------------------ models

def factor(r, fact):
    """F(r) = sum_i fact[i] r^i, Horner."""
    out = np.zeros_like(np.float64(r))
    for c in reversed(list(fact)):
        out = out * r + c
    return out


def corner_radius(h, w, xc, yc):
    ys, xs = np.array([0, h - 1.0]), np.array([0, w - 1.0])
    return float(max(np.hypot(x - xc, y - yc) for x in xs for y in ys))


def model(rel, radius, k0=1.0):
    """Coefficients from relative terms: F(r)=k0+sum rel[i]*(r/radius)^(i+1)."""
    radius = max(radius, 1.0)
    return [float(k0)] + [float(e) / radius ** (i + 1)
                          for i, e in enumerate(rel)]


def rel_terms(lo=0, hi=4, mag=0.12):
    return st.lists(q(-mag, mag, 0.005), min_size=lo, max_size=hi)


def monotone(rel, k0):
    """r F(r) increases on [0, radius] for sure."""
    return k0 - sum((i + 2) * abs(e) for i, e in enumerate(rel)) > 0.15


def mono_terms(lo=0, hi=4, budget=0.7):
    """Relative terms with sum (i+2)|e_i| <= budget (by construction)."""
    def build(t):
        s, ws = t
        tot = sum((i + 2) * abs(w) for i, w in enumerate(ws))
        if tot <= 1e-12:
            return [0.0 for _ in ws]
        k = s * budget / max(tot, 1e-9)
        return [round(w * k, 9) for w in ws]
    return st.tuples(q(0.02, 1.0, 0.02),
                     st.lists(st.integers(-5, 5), min_size=lo,
                              max_size=hi)).map(build)


def distort(pts, xc, yc, fact):
    """Apply the polynomial mapping to (y, x) points."""
    p = np.float64(pts)
    y, x = p[..., 0] - yc, p[..., 1] - xc
    f = factor(np.hypot(x, y), fact)
    return np.stack((yc + f * y, xc + f * x), axis=-1)


def invert_radius(rd, fact, rmax):
    """Solve r F(r) = rd on [0, rmax] by bisection (rF increasing there)."""
    rd = np.float64(rd)
    lo, hi = np.zeros_like(rd), np.full_like(rd, rmax)
    for _ in range(80):
        mid = 0.5 * (lo + hi)
        up = mid * factor(mid, fact) < rd
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    return 0.5 * (lo + hi)


centers = st.one_of(q(0.3, 0.7, 0.01), q(0.3, 0.7, 0.01), q(-0.6, 1.6, 0.01))


# ------------------------------------------------------------------ images

IMG_KINDS = ["noise", "smooth", "ramp", "checker", "spike", "const"]


def image(kind, h, w, seed, dtype="float64", lo=0.0, hi=200.0):
    g = rng(seed)
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    if kind == "noise":
        m = g.random((h, w))
    elif kind == "smooth":
        a, b, c = g.random(3)
        m = 0.5 + 0.25 * np.sin(0.3 * a * x + 0.2 * y + c) \
            + 0.25 * np.cos(0.25 * b * y - 0.1 * x)
    elif kind == "ramp":
        a, b = g.random(2)
        m = (a * x / max(w - 1, 1) + b * y / max(h - 1, 1)) / 2
    elif kind == "checker":
        m = ((x // 3 + y // 3) % 2)
    elif kind == "spike":
        m = np.zeros((h, w))
        k = max(1, (h * w) // 50)
        m[g.integers(0, h, k), g.integers(0, w, k)] = g.random(k)
    else:
        m = np.full((h, w), g.random())
    m = lo + (hi - lo) * m
    dt = np.dtype(dtype)
    if dt.kind in "ui":
        m = np.round(m)
        if dt == np.uint8:
            m = np.clip(m, 0, 255)
    return m.astype(dt)


def span(mat):
    m = np.float64(mat)
    return float(m.max() - m.min()) if m.size else 0.0


def backward_coords(h, w, xc, yc, fact, rows=None):
    """Source coordinates (clipped to the image) of output pixels."""
    ys = np.arange(h, dtype=np.float64) if rows is None else np.float64(rows)
    yu = (ys - yc)[:, None]
    xu = (np.arange(w, dtype=np.float64) - xc)[None, :]
    f = factor(np.hypot(xu, yu), fact)
    xd, yd = xc + f * xu, yc + f * yu
    return np.clip(yd, 0, h - 1), np.clip(xd, 0, w - 1)


def bilinear(mat, yd, xd):
    m = np.float64(mat)
    h, w = m.shape
    y0 = np.clip(np.floor(yd), 0, max(h - 2, 0)).astype(np.int64)
    x0 = np.clip(np.floor(xd), 0, max(w - 2, 0)).astype(np.int64)
    y1, x1 = np.minimum(y0 + 1, h - 1), np.minimum(x0 + 1, w - 1)
    fy, fx = yd - y0, xd - x0
    return ((m[y0, x0] * (1 - fx) + m[y0, x1] * fx) * (1 - fy)
            + (m[y1, x0] * (1 - fx) + m[y1, x1] * fx) * fy)


def coord_tol(mat, h, w):
    """Effect of single-precision source coordinates on the interpolation."""
    return span(mat) * max(h, w) * 6e-7 + 1e-6 * (1 + span(mat))


# ------------------------------------------------------------------ grids

def grid(nh, nv, dy, dx=None, x0=0.0, y0=0.0, tilt=0.0, shear=0.0):
    """nh horizontal and nv vertical straight lines of points (y, x), rotated
    about the grid's own centre. Returns (hor, ver) as lists of arrays."""
    dx = dy if dx is None else dx
    xs = (np.arange(nv) - (nv - 1) / 2.0) * dx
    ys = (np.arange(nh) - (nh - 1) / 2.0) * dy
    c, s = np.cos(tilt), np.sin(tilt)

    def place(y, x):
        return np.stack((y0 + s * x + c * y, x0 + c * x - s * y), axis=-1)
    hor = [place(np.full(nv, y), xs) for y in ys]
    ver = [place(ys, np.full(nh, x)) for x in xs]
    return hor, ver


def homography(coef, pts):
    """Eight coefficients applied to (y, x) points."""
    c1, c2, c3, c4, c5, c6, c7, c8 = [float(c) for c in coef]
    p = np.float64(pts)
    y, x = p[..., 0], p[..., 1]
    d = c7 * x + c8 * y + 1.0
    return np.stack(((c4 * x + c5 * y + c6) / d, (c1 * x + c2 * y + c3) / d),
                    axis=-1)


def straightness(pts):
    """Largest distance of the points from their total-least-squares line."""
    p = np.float64(pts)
    p = p - p.mean(axis=0)
    _, _, vt = np.linalg.svd(p, full_matrices=False)
    return float(np.max(np.abs(p @ vt[1])))


def sort_rows(p):
    p = np.asarray(p)
    return p[np.lexsort((p[:, 1], p[:, 0]))]


def parabolic_grid(nh, nv, dy, dx, xc, yc, fx, fy, k):
    """Grid whose lines are exact parabolas about (xc, yc): horizontal lines
    y = c(1 + k x^2), vertical lines x = c(1 + k y^2), c evenly spaced. The
    centre sits at the fraction (fx, fy) of the grid from its middle. Returns
    an (nh, nv, 2) array of (y, x)."""
    c_y = (np.arange(nh) - (nh - 1) / 2.0 - fy * (nh - 1)) * dy
    c_x = (np.arange(nv) - (nv - 1) / 2.0 - fx * (nv - 1)) * dx
    x0, y0 = np.meshgrid(c_x, c_y)
    x, y = x0.copy(), y0.copy()
    for _ in range(200):
        x, y = x0 * (1 + k * y * y), y0 * (1 + k * x * x)
    return np.stack((y + yc, x + xc), axis=-1)


def lines_of(p, drop=0, seed=0, shuffle=False):
    """(hor, ver) lists of lines of an (nh, nv, 2) array, optionally with a
    few points missing (not the same ones in both) and in random order."""
    g = rng(seed)
    hor = [np.array(r) for r in p]
    ver = [np.array(r) for r in p.transpose(1, 0, 2)]
    out = []
    for lines in (hor, ver):
        new = []
        for ln in lines:
            keep = np.arange(len(ln))
            if drop and len(ln) - drop >= 5:
                keep = np.sort(g.permutation(len(ln))[:len(ln) - drop])
            if shuffle:
                keep = g.permutation(keep)
            new.append(ln[keep])
        out.append(new)
    return out


grid_params = dict(
    nh=st.integers(5, 14), nv=st.integers(5, 14), d=q(5, 120, 0.25),
    asp=st.sampled_from([1.0, 1.0, 0.8, 1.25]),
    fx=q(-0.2, 0.2, 0.01), fy=q(-0.2, 0.2, 0.01),
    mx=q(0.5, 3, 0.1), my=q(0.5, 3, 0.1))


def place(c):
    """Middle of the grid, line spacings, and centre of distortion."""
    dy, dx = c["d"], c["d"] * c["asp"]
    x0 = (c["nv"] - 1) / 2.0 * dx + c["mx"] * dx
    y0 = (c["nh"] - 1) / 2.0 * dy + c["my"] * dy
    fx, fy = c["fx"], c["fy"]
    if c.get("on_line"):            # centre exactly on a grid line
        ix = np.round((c["nv"] - 1) * (0.5 + fx))
        iy = np.round((c["nh"] - 1) * (0.5 + fy))
        fx = ix / (c["nv"] - 1.0) - 0.5
        fy = iy / (c["nh"] - 1.0) - 0.5
    xc = x0 + fx * (c["nv"] - 1) * dx
    yc = y0 + fy * (c["nh"] - 1) * dy
    return dy, dx, x0, y0, xc, yc, fx, fy


def radial_grid(c):
    """Straight grid distorted radially: (nh, nv, 2) array, its undistorted
    original, centre and coefficients."""
    dy, dx, x0, y0, xc, yc, fx, fy = place(c)
    hor, _ = grid(c["nh"], c["nv"], dy, dx, x0, y0, c["tilt"])
    p = np.asarray(hor)
    r = max(1.0, float(np.hypot(p[..., 0] - yc, p[..., 1] - xc).max()))
    fact = [1.0] + [c["e"] * w / r ** (i + 1) for i, w in enumerate(c["w"])]
    return distort(p, xc, yc, fact), p, xc, yc, fact, r
