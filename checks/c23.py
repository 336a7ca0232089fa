"""C23 cross points of line patterns."""
from vlib import *
from checks.common import *
from checks.patterns import *
import discorpy.prep.linepattern as lp
import discorpy.prep.preprocessing as prep

P = Prop("C23")
ASSUMPTIONS = ["pitch at least 24 pixels and 7 widths of a (smoothed) line; "
               "with norm=False (profile-wise normalization) at least 20",
               "judged where the scan line is more than 0.28 pitch away from "
               "lines parallel to it"]

pat = dict(h=st.integers(130, 330), w=st.integers(130, 330),
           p=q(24, 46, 0.1), asp=q(0.85, 1.2), th=q(-12, 12, 0.1),
           sig=q(1.0, 2.2, 0.1), ox=q(0, 1), oy=q(0, 1),
           bright=st.booleans(), k=q(-0.08, 0.08, 0.01), seed=seeds,
           fx=q(0.35, 0.65), fy=q(0.35, 0.65), ratio=q(0.2, 0.6, 0.01),
           offset=st.integers(0, 16))


def build(c, scale=1.0):
    h, w = int(c["h"] * scale), int(c["w"] * scale)
    s = {"th": c["th"], "tv": -c["th"], "ph": c["p"] * scale,
         "pv": c["p"] * c["asp"] * scale, "sig": c["sig"],
         "cx": c["ox"] * w, "cy": c["oy"] * h}
    if c["k"]:
        rm = 0.5 * np.hypot(h, w)
        s["dist"] = (c["fx"] * w, c["fy"] * h, c["k"] / rm ** 2)
    return h, w, s


def judge(pts, hor, h, w, s, c, tol, ev, deg, step, edge, find=True):
    """pts: found on horizontal lines (hor) by vertical scans, or vice versa.
    deg: angle of the scan lines, step between them."""
    name = "horizontal" if hor else "vertical"
    pts = np.float64(arr(pts, None, "points of %s lines" % name))
    need(pts.ndim == 2 and pts.shape[1] == 2 and len(pts) > 0,
         "points of %s lines have shape %s", name, pts.shape)
    y, x = pts[:, 0], pts[:, 1]
    # (scan lines may leave the image by less than a pixel)
    need(y.min() > -1.01 and y.max() < h + 0.01 and x.min() > -1.01
         and x.max() < w + 0.01, "points outside the image")
    uh, uv = coords(y, x, s)
    u, pu, v, pv = (uh, s["ph"], uv, s["pv"]) if hor else (uv, s["pv"], uh,
                                                           s["ph"])
    e = np.abs(u - pu * np.round(u / pu))
    far = np.abs(v - pv * np.round(v / pv)) > 0.28 * pv
    if far.any() and not find:
        need(np.mean(e[far] <= tol) >= 0.7, "only %d of %d points of %s lines "
             "are on a line", np.sum(e[far] <= tol), np.sum(far), name)
    elif far.any():
        i = int(np.argmax(np.where(far, e, -1)))
        need(e[i] <= tol, "point (y=%.2f, x=%.2f) of %s lines is %.2f pixels "
             "from the nearest line", y[i], x[i], name, e[i])
    # scan lines: even steps, in the range asked for
    t = np.tan(np.deg2rad(deg))
    i0 = x - y * t if hor else y - x * t
    n, k = (h, w) if hor else (w, h)
    lo, hi = max(0.0, -n * t), k - 1 - max(0.0, n * t)
    off = c["offset"]
    need(i0.min() >= lo + off - 1.01 and i0.max() <= hi - off + 1.01,
         "scan lines from %.2f to %.2f, asked for %.2f to %.2f", i0.min(),
         i0.max(), lo + off, hi - off)
    j = (i0 - i0.min()) / step
    need(np.abs(j - np.round(j)).max() * step < 1e-3, "scan lines are not "
         "%.3f pixels apart", step)
    if not find:
        return
    # every crossing
    need(i0.min() - (lo + off) <= 1.01 or not far_scan(
        lo + off + 1, t, hor, h, w, s), "the first scan line %.2f is not at "
        "the start %.2f of the range", i0.min(), lo + off)
    start = i0.min() - step * np.floor((i0.min() - lo - off) / step + 1e-6)
    ncross = 0
    for a in np.arange(start, hi - off - 1.01, step):
        r = np.arange(edge, n - edge, 0.25)
        yy, xx = (r, a + r * t) if hor else (a + r * t, r)
        if min(yy.min(), xx.min()) < 0:
            continue
        ch, cv = coords(yy, xx, s)
        cu, cw = (ch, cv) if hor else (cv, ch)
        m = cu / pu
        for z in np.flatnonzero(np.diff(np.floor(m)) != 0):
            ok = np.abs(cw[z] - pv * np.round(cw[z] / pv)) > 0.3 * pv
            if not ok:
                continue
            ncross += 1
            d = np.hypot(y - yy[z], x - xx[z])
            need(d.min() <= 1.5, "the crossing at (y=%.2f, x=%.2f) of scan "
                 "line %.2f with a %s line is not found (nearest point %.1f "
                 "pixels off)", yy[z], xx[z], a, name, d.min())
    ev.label("crossings judged", ncross > 10)


def far_scan(a, t, hor, h, w, s):
    n = h if hor else w
    r = np.arange(12, n - 12.0)
    yy, xx = (r, a + r * t) if hor else (a + r * t, r)
    ch, cv = coords(yy, xx, s)
    cw, pv = (cv, s["pv"]) if hor else (ch, s["ph"])
    return bool(np.any(np.abs(cw - pv * np.round(cw / pv)) > 0.3 * pv))


def points(m, s, c, **kw):
    kw = dict(ratio=c["ratio"], offset=c["offset"], **kw)
    dv, dh = np.tan(np.deg2rad(s["tv"])), np.tan(np.deg2rad(s["th"]))
    return (lp.get_cross_points_hor_lines(m, dv, s["pv"], **kw),
            lp.get_cross_points_ver_lines(m, dh, s["ph"], **kw))


@P.sub(fixed(**pat, denoise=st.booleans(), sub=st.booleans(),
             radius=st.integers(8, 13), noise=q(0, 3, 1),
             dtype=st.sampled_from(["float64", "float32", "uint8"])),
       quick=400, shards=8, rule="tilted by more than half a degree")
def pattern(c, ev):
    h, w, s = build(c)
    wide = np.hypot(c["sig"], 3.0)
    pm = min(s["ph"], s["pv"])
    if min(h, w) < 4.2 * max(s["ph"], s["pv"]) or pm < 7 * wide:
        return
    m = lines(h, w, s, *((200.0, 40.0) if c["bright"] else (40.0, 200.0)))
    m = shade(m, 0, 0, c["noise"], c["seed"]).astype(c["dtype"])
    radius = int(min(c["radius"], 0.4 * pm))
    a, b = points(m, s, c, bgr="bright" if c["bright"] else "dark",
                  denoise=c["denoise"], subpixel=c["sub"], radius=radius)
    tol = (0.6 if c["sub"] else 1.1) + 0.1 * c["noise"] * (
        not c["denoise"]) + (0.3 if c["dtype"] == "uint8" else 0)
    judge(a, True, h, w, s, c, tol, ev, s["tv"], c["ratio"] * s["pv"],
          radius + 4)
    judge(b, False, h, w, s, c, tol, ev, s["th"], c["ratio"] * s["ph"],
          radius + 4)
    ev.nontrivial(abs(c["th"]) > 0.5)
    ev.label("distorted", c["k"] != 0)


@P.sub(fixed(**pat), quick=48, shards=8,
       rule="tilted by more than half a degree")
def profile_norm(c, ev):
    """norm=False: the (rank-based) normalization of each profile takes over;
    it may add points between lines."""
    h, w, s = build(c, 2.6)
    if min(h, w) < 4.2 * max(s["ph"], s["pv"]) or \
            min(s["ph"], s["pv"]) < 20 * np.hypot(c["sig"], 3.0):
        return
    m = lines(h, w, s, *((200.0, 40.0) if c["bright"] else (40.0, 200.0)))
    a, b = points(m, s, c, bgr="bright" if c["bright"] else "dark",
                  norm=False)
    judge(a, True, h, w, s, c, 1.3, ev, s["tv"], c["ratio"] * s["pv"], 15,
          find=False)
    judge(b, False, h, w, s, c, 1.3, ev, s["th"], c["ratio"] * s["ph"], 15,
          find=False)
    ev.nontrivial(abs(c["th"]) > 0.5)


@P.sub(fixed(**pat, soft=q(0.6, 1.5, 0.1)), quick=100, shards=8,
       rule="tilted by more than half a degree")
def chessboard(c, ev):
    h, w, s = build(c)
    if min(h, w) < 4.2 * max(s["ph"], s["pv"]):
        return
    m = board(h, w, s, soft=c["soft"])
    a, b = points(m, s, c, chessboard=True, radius=9)
    judge(a, True, h, w, s, c, 1.0, ev, s["tv"], c["ratio"] * s["pv"], 16)
    judge(b, False, h, w, s, c, 1.0, ev, s["th"], c["ratio"] * s["ph"], 16)
    ev.nontrivial(abs(c["th"]) > 0.5)


@P.sub(fixed(**pat, lo=logq(0.005, 0.2), more=q(1.0, 5.0, 0.1), noise=q(0, 3, 1),
             tol=logq(0.05, 1.0), radius=st.integers(6, 12),
             offs=st.booleans()),
       quick=48, shards=8, rule="an option takes points away")
def options(c, ev):
    """Less sensitive, or only good peaks: some of the points, no others."""
    h, w, s = build(c)
    m = lines(h, w, s, *((200.0, 40.0) if c["bright"] else (40.0, 200.0)))
    m = shade(m, 0, 0, c["noise"], c["seed"])
    kw = dict(bgr="bright" if c["bright"] else "dark", radius=c["radius"])
    key = lambda t: set(map(tuple, np.round(np.reshape(t, (-1, 2)), 6)))
    less = 0
    full = points(m, s, c, sensitive=c["lo"], **kw)
    some = points(m, s, c, sensitive=c["lo"] * c["more"], **kw)
    good = points(m, s, c, sensitive=c["lo"], select_peaks=True,
                  tol=c["tol"], use_offset=c["offs"], **kw)
    best = points(m, s, c, sensitive=c["lo"], select_peaks=True,
                  tol=0.5 * c["tol"], use_offset=c["offs"], **kw)
    for f, a, g, b in zip(full, some, good, best):
        f, a, g, b = key(f), key(a), key(g), key(b)
        need(a <= f, "a sensitivity of %g gives %d points that %g does not",
             c["lo"] * c["more"], len(a - f), c["lo"])
        need(g <= f, "%d good points are not among all points", len(g - f))
        need(b <= g, "a tolerance of %g gives %d points that %g does not",
             0.5 * c["tol"], len(b - g), c["tol"])
        less += len(f) - len(a) + len(f) - len(g) + len(g) - len(b)
    ev.nontrivial(less > 0)


@P.sub(fixed(**pat), quick=40, shards=4, rule="always")
def transposed(c, ev):
    """Transposing the image exchanges the two functions."""
    h, w, s = build(c)
    if min(h, w) < 4.2 * max(s["ph"], s["pv"]):
        return
    m = lines(h, w, s)
    dv = np.tan(np.deg2rad(s["tv"]))
    off = min(c["offset"], min(h, w) // 8)
    a = np.float64(lp.get_cross_points_hor_lines(
        m, dv, s["pv"], ratio=c["ratio"], offset=off))
    b = np.float64(lp.get_cross_points_ver_lines(
        np.ascontiguousarray(m.T), dv, s["pv"], ratio=c["ratio"],
        offset=off))[:, ::-1]
    # (the two round their index range differently by up to one pixel)
    t = a[:, 1] - a[:, 0] * dv
    if abs(t.min() - (b[:, 1] - b[:, 0] * dv).min()) > 1e-6:
        return
    n = min(len(a), len(b))
    need(abs(len(a) - len(b)) <= 2 * h / s["ph"] + 2, "%d and %d points",
         len(a), len(b))
    from scipy.spatial import cKDTree
    d = cKDTree(a).query(b)[0]
    need(np.mean(d < 1e-3) > 0.85, "points of the transposed image differ: "
         "%d of %d", int(np.sum(d >= 1e-3)), len(b))
    ev.nontrivial(n > 20)


@P.sub(fixed(**pat), quick=60, shards=4, rule="at least five lines each way")
def grouped(c, ev):
    """The points group into the lines of the pattern."""
    c = dict(c, k=0.3 * c["k"], offset=0, ratio=min(c["ratio"], 0.4),
             th=0.6 * c["th"])
    h, w, s = build(c)
    if min(h, w) < 6.5 * max(s["ph"], s["pv"]):
        return
    m = lines(h, w, s)
    pts = points(m, s, c)
    sh, sv = np.tan(np.deg2rad(s["th"])), np.tan(np.deg2rad(s["tv"]))
    for hor in (True, False):
        p = np.float64(pts[0 if hor else 1])
        f = prep.group_dots_hor_lines if hor else prep.group_dots_ver_lines
        g = f(p, sh if hor else sv, s["ph"] if hor else s["pv"],
              ratio=0.3, num_dot_miss=8, accepted_ratio=0.5)
        seen = set()
        for line in g:
            uh, uv = coords(line[:, 0], line[:, 1], s)
            u, pu, v, pv = (uh, s["ph"], uv, s["pv"]) if hor else (
                uv, s["pv"], uh, s["ph"])
            far = np.abs(v - pv * np.round(v / pv)) > 0.28 * pv
            k = np.round(u / pu)[far]
            if len(k) < 3:
                continue
            need(np.all(k == k[0]), "points of different %s lines in one "
                 "group: lines %s", "horizontal" if hor else "vertical",
                 sorted(set(int(t) for t in k)))
            need(int(k[0]) not in seen, "a line is split")
            seen.add(int(k[0]))
        # lines that cross the whole image
        e = np.arange(0, (w if hor else h), 1.0)
        full = []
        for k in range(-40, 41):
            # position of line k along the scan
            a = np.deg2rad(s["th"] if hor else s["tv"])
            if hor:
                yy = s["cy"] + (k * s["ph"] + (e - s["cx"]) * np.sin(a)) \
                    / np.cos(a)
                ok = yy.min() > 25 and yy.max() < h - 25
            else:
                xx = s["cx"] + (k * s["pv"] + (e - s["cy"]) * np.sin(a)) \
                    / np.cos(a)
                ok = xx.min() > 25 and xx.max() < w - 25
            if ok:
                full.append(k)
        miss = [k for k in full if k not in seen]
        need(not miss, "%s lines %s of %s have no group",
             "horizontal" if hor else "vertical", miss, full)
    ev.nontrivial()
