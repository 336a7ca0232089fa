"""C11 perspective targets are regular grids placed on their sources."""
import itertools
from vlib import *
from checks.common import *
import discorpy.proc.processing as proc
import discorpy.post.postprocessing as post

P = Prop("C11")
ASSUMPTIONS = ["quadrilaterals are convex with sides tilted by less than 35 "
               "degrees and the upper two points above the lower two",
               "a numeric scale is claimed without the line-distance "
               "optimization, which replaces the distances",
               "under perspective, the intercepts of the lines with the axes "
               "(from which the targets are built) ascend with the lines, no "
               "gap less than a quarter of the widest"]

PERMS = [list(p) for p in itertools.permutations(range(4))]
scales4 = st.one_of(st.sampled_from(["mean", "min", "max"]),
                    q(0.3, 3.0, 0.1))


def call4(pts, perm, order, form, **kw):
    p = np.asarray(pts)[perm]
    if order == "xy":
        p = p[:, ::-1].copy()
    if form == "list":
        p = [[float(a), float(b)] for a, b in p]
    elif form == "tuple":
        p = tuple((float(a), float(b)) for a, b in p)
    elif form == "int":
        p = np.int64(np.round(p))
    src, dst = proc.generate_4_source_target_perspective_points(
        p, input_order=order, **kw)
    return (np.float64(arr(src, (4, 2), "source points")),
            np.float64(arr(dst, (4, 2), "target points")))


@P.sub(fixed(jit=st.lists(q(-0.12, 0.12, 0.01), min_size=8, max_size=8),
             w=q(20, 900, 1), h=q(20, 900, 1), x0=q(-100, 1500, 1),
             y0=q(-100, 1500, 1), tilt=q(-0.3, 0.3, 0.02),
             perm=st.sampled_from(PERMS), order=st.sampled_from(["yx", "xy"]),
             equal=st.booleans(), scale=scales4,
             form=st.sampled_from(["array", "list", "tuple", "int"])),
       quick=1500, shards=2, rule="a skewed quadrilateral")
def quadrilateral(c, ev):
    """Order, rectangle, sides."""
    w, h = c["w"], c["h"]
    # |tilt| limited so that the two upper points are above the lower two
    tilt = c["tilt"] * min(1.0, 0.8 * h / w, 0.8 * w / h)
    base = np.array([[-h / 2, -w / 2], [-h / 2, w / 2], [h / 2, -w / 2],
                     [h / 2, w / 2]])
    base = base + np.reshape(c["jit"], (4, 2)) * [h, w]
    cs, sn = np.cos(tilt), np.sin(tilt)
    p = np.stack((c["y0"] + cs * base[:, 0] + sn * base[:, 1],
                  c["x0"] - sn * base[:, 0] + cs * base[:, 1]), -1)
    if c["form"] == "int":
        p = np.round(p)
    p = np.float64(np.float32(p))
    ys = np.sort(p[:, 0])
    if ys[2] - ys[1] < 1e-2 * h or max(p[:2, 0]) >= min(p[2:, 0]):
        return
    if min(p[1, 1] - p[0, 1], p[3, 1] - p[2, 1]) < 0.2 * w:
        return
    src, dst = call4(p, c["perm"], c["order"], c["form"],
                     equal_dist=c["equal"], scale=c["scale"])
    mag = float(np.abs(p).max()) + 1
    close(src, p, 1e-6 * mag, "source points (upper left, upper right, lower "
          "left, lower right)")
    (a, b, d, e) = dst
    tol = 4e-6 * mag * 3 + 1e-4
    close(b - a, e - d, tol, "opposite sides of the target")
    close(d - a, e - b, tol, "opposite sides of the target")
    u, v = b - a, d - a
    need(abs(np.dot(u, v)) <= tol * (np.hypot(*u) + np.hypot(*v)),
         "target is not right-angled: sides %s and %s", u, v)
    need(u[1] > 0 and v[0] > 0, "target points are not in the order of the "
         "source points: sides %s, %s", u, v)
    dist = lambda i, j: float(np.hypot(*(p[i] - p[j])))     # noqa: E731
    hs, vs = (dist(0, 1), dist(2, 3)), (dist(0, 2), dist(1, 3))
    s = c["scale"]
    pick = {"min": min, "max": max}.get(s, lambda *t: sum(
        t[0] if len(t) == 1 else t) / 2.0)
    sh, sv = pick(hs), pick(vs)
    if isinstance(s, float):
        sh, sv = sh * s, sv * s
    if c["equal"]:
        sh = sv = pick((sh, sv))
    need(abs(np.hypot(*u) - sh) <= tol and abs(np.hypot(*v) - sv) <= tol,
         "target sides %.4f x %.4f, expected %.4f x %.4f", np.hypot(*u),
         np.hypot(*v), sh, sv)
    # direction: between the directions of the given sides
    sl = [abs(v) for v in ((p[1, 0] - p[0, 0]) / (p[1, 1] - p[0, 1]),
                           (p[3, 0] - p[2, 0]) / (p[3, 1] - p[2, 1]),
                           (p[2, 1] - p[0, 1]) / (p[2, 0] - p[0, 0]),
                           (p[3, 1] - p[1, 1]) / (p[3, 0] - p[1, 0]))]
    need(abs(u[0] / u[1]) <= max(sl) + 1e-3, "target tilted by %.4f, sides of "
         "the source by at most %.4f", u[0] / u[1], max(sl))
    ev.nontrivial(any(c["jit"]))
    ev.label("square asked", c["equal"])
    ev.label("scale %s" % (s if isinstance(s, str) else "factor"))


@P.sub(fixed(w=q(20, 900, 1), h=q(20, 900, 1), x0=q(-100, 1500, 1),
             y0=q(-100, 1500, 1), tilt=q(-0.3, 0.3, 0.02),
             perm=st.sampled_from(PERMS), order=st.sampled_from(["yx", "xy"]),
             scale=st.one_of(st.sampled_from(["mean", "min", "max"]),
                             q(0.5, 2.0, 0.1)),
             trap=q(-0.3, 0.3, 0.05), vertical=st.booleans()), quick=800,
       rule="tilted rectangle or trapezoid")
def rectangles_and_trapezoids(c, ev):
    """A rectangle is its own target (scaled about its middle); the target of a
    symmetric trapezoid is the rectangle on its axis."""
    w, h = c["w"], c["h"]
    trap = c["trap"]
    tilt = 0.0 if trap else c["tilt"] * min(1.0, 0.8 * h / w, 0.8 * w / h)
    if c["vertical"]:
        base = np.array([[-h / 2 * (1 - trap), -w / 2],
                         [-h / 2 * (1 + trap), w / 2],
                         [h / 2 * (1 - trap), -w / 2],
                         [h / 2 * (1 + trap), w / 2]])
    else:
        base = np.array([[-h / 2, -w / 2 * (1 - trap)],
                         [-h / 2, w / 2 * (1 - trap)],
                         [h / 2, -w / 2 * (1 + trap)],
                         [h / 2, w / 2 * (1 + trap)]])
    cs, sn = np.cos(tilt), np.sin(tilt)
    turn = np.array([[cs, sn], [-sn, cs]])        # (y, x) of a turned frame
    p = base @ turn.T + [c["y0"], c["x0"]]
    src, dst = call4(p, c["perm"], c["order"], "array", scale=c["scale"])
    s = c["scale"]
    if trap:
        lo, hi = 1 - abs(trap), 1 + abs(trap)
        k = {"min": lo, "max": hi}.get(s, 1.0)
        slant = (np.hypot(h, trap * w) if not c["vertical"]
                 else np.hypot(w, trap * h))
        ww, hh = (k * w, slant) if not c["vertical"] else (slant, k * h)
    else:
        ww, hh = w, h
    if isinstance(s, float):
        ww, hh = ww * s, hh * s
    want = np.array([[-hh / 2, -ww / 2], [-hh / 2, ww / 2],
                     [hh / 2, -ww / 2], [hh / 2, ww / 2]])
    want = want @ turn.T + [c["y0"], c["x0"]]
    mag = float(np.abs(p).max()) + 1
    close(dst, want, 2e-5 * mag * max(1.0, max(w / h, h / w) * 0.3) + 1e-3,
          "target of a %s" % ("trapezoid" if trap else "rectangle"))
    ev.nontrivial(trap != 0 or c["tilt"] != 0)


gridp = dict(nh=st.integers(3, 12), nv=st.integers(3, 12), d=q(10, 100, 0.5),
             asp=st.sampled_from([1.0, 1.0, 0.7, 1.3]), x0=q(0, 500, 1),
             y0=q(0, 500, 1), tilt=q(-0.2, 0.2, 0.01), equal=st.booleans())


def lattice(t, tol, what):
    """Fit t[i, j] = o + i u + j v; returns (o, u, v) or a Violation."""
    nh, nv = t.shape[:2]
    i, j = np.mgrid[0:nh, 0:nv]
    m = np.stack((np.ones(nh * nv), i.ravel(), j.ravel()), 1)
    s = np.linalg.lstsq(m, t.reshape(-1, 2), rcond=None)[0]
    close(t.reshape(-1, 2), m @ s, tol, what + ": points of an even grid")
    o, u, v = s
    need(abs(np.dot(u, v)) <= 4 * tol * (np.hypot(*u) + np.hypot(*v)),
         "%s: grid is not right-angled, steps %s and %s", what, u, v)
    return o, u, v


def extent(g):
    return float(min(np.ptp(g[..., 0]), np.ptp(g[..., 1])))


def ordered(g):
    """The intercepts with the axes, from which the targets are built, ascend
    clearly with the lines."""
    for lines, a, b in ((g, 1, 0), (g.transpose(1, 0, 2), 0, 1)):
        ic = [np.polyfit(ln[:, a], ln[:, b], 1)[1] for ln in lines]
        d = np.diff(ic)
        if d.min() <= 0.25 * d.max():
            return False
    return True


def make(c, p=0.0, r=0.0):
    dy, dx = c["d"], c["d"] * c["asp"]
    x0 = c["x0"] + (c["nv"] + 1) / 2.0 * dx
    y0 = c["y0"] + (c["nh"] + 1) / 2.0 * dy
    hor, ver = grid(c["nh"], c["nv"], dy, dx, x0, y0, c["tilt"])
    g = np.asarray(hor)
    if p or r:
        size = max(c["nh"] * dy, c["nv"] * dx)
        co = [1, 0, 0, 0, 1, 0, p / size, r / size]
        g = homography(co, g - [y0, x0]) + [y0, x0]
    return g


@P.sub(fixed(scale=st.one_of(st.sampled_from(["mean", "min", "max",
                                              "median"]), q(0.5, 2.0, 0.1)),
             opt=st.booleans(), **gridp), quick=500, shards=2,
       rule="tilted, or sides differ")
def regular_grids_stay(c, ev):
    """A grid that is already regular is its own target."""
    g = make(c)
    hor, ver = lines_of(g)
    s = c["scale"]
    opt = c["opt"] and not isinstance(s, float)
    equal = c["equal"] and c["asp"] == 1.0
    src, dst = proc.generate_source_target_perspective_points(
        hor, ver, equal_dist=equal, scale=s, optimizing=opt)
    n = c["nh"] * c["nv"]
    mag = float(np.abs(g).max()) + 1
    # single-precision slopes, extrapolated from the grid to the axes
    tol = 2e-5 * mag * max(1.0, 0.5 * mag / extent(g))
    src = np.float64(arr(src, (n, 2), "source points"))
    close(src, g.reshape(-1, 2), tol, "source points")
    t = np.float64(arr(dst, (n, 2), "target points")).reshape(g.shape)
    if not isinstance(s, float):
        close(t, g, tol, "target points of a regular grid")
    else:
        o, u, v = lattice(t, tol, "target")
        a, b = g[1, 0] - g[0, 0], g[0, 1] - g[0, 0]
        close(u, s * a, tol, "step between horizontal lines, scale %g" % s)
        close(v, s * b, tol, "step between vertical lines, scale %g" % s)
    th, tv = proc.generate_undistorted_perspective_lines(
        hor, ver, equal_dist=equal, scale=s, optimizing=opt)
    close(th, t, tol, "undistorted horizontal lines")
    close(np.asarray(tv), np.asarray(th).transpose(1, 0, 2), 1e-6 * mag,
          "undistorted vertical lines against horizontal lines")
    ev.nontrivial(c["tilt"] != 0 or c["asp"] != 1)
    ev.label("optimizing", opt)


@P.sub(fixed(p=q(-0.25, 0.25, 0.01), r=q(-0.25, 0.25, 0.01), opt=st.booleans(),
             scale=st.one_of(st.sampled_from(["mean", "min", "max", "median"]),
                             q(0.5, 2.0, 0.1)), drop=st.integers(0, 1),
             seed=seeds, **gridp), quick=500, shards=2,
       rule="real perspective")
def perspective_grids_become_regular(c, ev):
    g = make(c, c["p"], c["r"])
    if not ordered(g):
        return
    hor, ver = lines_of(g, c["drop"], c["seed"])
    s, opt = c["scale"], c["opt"]
    src, dst = proc.generate_source_target_perspective_points(
        hor, ver, equal_dist=c["equal"], scale=s, optimizing=opt)
    mag = float(np.abs(g).max()) + 1
    tol = 3e-5 * mag * max(1.0, 0.5 * mag / extent(g))
    n = c["nh"] * c["nv"]
    close(np.float64(arr(src, (n, 2), "source points")), g.reshape(-1, 2),
          tol, "source points")
    t = np.float64(arr(dst, (n, 2), "target points")).reshape(g.shape)
    o, u, v = lattice(t, tol, "target")
    need(u[0] > 0 and v[1] > 0, "target rows and columns are out of order")
    if c["equal"]:
        need(abs(np.hypot(*u) - np.hypot(*v)) <= 4 * tol, "spacings %.4f and "
             "%.4f of the target differ", np.hypot(*u), np.hypot(*v))
    # the homography built from the two sets straightens the given lines
    co = proc.calc_perspective_coefficients(src, dst, mapping="forward")
    got = post.correct_perspective_line(hor, co)
    for ln in got:
        need(straightness(ln) <= 2 * tol + 1e-3, "corrected line is not "
             "straight")
    full = homography(co, g)
    close(full, t, 3 * tol, "grid points corrected with the coefficients")
    # the middle lines of source and target meet the axes at the same place
    i, j = c["nh"] // 2, c["nv"] // 2
    a = np.polyfit(g[i, :, 1], g[i, :, 0], 1)[1]
    b = np.polyfit(t[i, :, 1], t[i, :, 0], 1)[1]
    need(abs(a - b) <= 20 * tol, "middle horizontal line: intercept %.4f of "
         "the source, %.4f of the target", a, b)
    a = np.polyfit(g[:, j, 0], g[:, j, 1], 1)[1]
    b = np.polyfit(t[:, j, 0], t[:, j, 1], 1)[1]
    need(abs(a - b) <= 20 * tol, "middle vertical line: intercept %.4f of "
         "the source, %.4f of the target", a, b)
    if not opt:
        step = {}
        for k in ("min", "mean", "median", "max", 1.7):
            _, d2 = proc.generate_source_target_perspective_points(
                hor, ver, equal_dist=c["equal"], scale=k, optimizing=False)
            _, a, b = lattice(np.float64(d2).reshape(g.shape), tol * 2,
                              "target (%s)" % k)
            step[k] = np.array([np.hypot(*a), np.hypot(*b)])
        need(np.all(step["min"] <= step["mean"] + tol) and
             np.all(step["mean"] <= step["max"] + tol) and
             np.all(step["min"] <= step["median"] + tol) and
             np.all(step["median"] <= step["max"] + tol),
             "spacings do not follow the scale option: %s", step)
        close(step[1.7], 1.7 * step["mean"], 4 * tol, "spacing for a scale "
              "of 1.7")
    ev.nontrivial(c["p"] != 0 or c["r"] != 0)
    ev.label("optimizing", opt)


@P.sub(fixed(nh=st.integers(3, 11), nv=st.integers(3, 11),
             tilt=q(-0.2, 0.2, 0.01), equal=st.booleans(), seed=seeds,
             d=q(5, 40, 0.5)), quick=400, shards=2,
       rule="mean and median differ")
def spacing_follows_the_option(c, ev):
    """Straight lines, unevenly spaced: the spacing of the target is the
    named statistic of the spacings of the given lines (over one range of
    lines for all options)."""
    g = rng(c["seed"])
    pos = []
    for n in (c["nh"], c["nv"]):
        p = np.cumsum(c["d"] * (0.4 + g.random(n) ** 3 * 2))
        pos.append(p - p[n // 2] + g.random())
    yy, xx = np.meshgrid(*pos, indexing="ij")
    cs, sn = np.cos(c["tilt"]), np.sin(c["tilt"])
    p = np.stack((cs * yy + sn * xx, cs * xx - sn * yy), -1)
    hor, ver = lines_of(p)
    size = float(np.abs(p).max())
    tol = 2e-5 * size + 1e-5
    got = {}
    for k in ("min", "mean", "median", "max", 1.6):
        th, tv = proc.generate_undistorted_perspective_lines(
            hor, ver, equal_dist=c["equal"], scale=k, optimizing=False)
        _, a, b = lattice(np.float64(th), tol, "target (%s)" % k)
        got[k] = np.array([np.hypot(*a), np.hypot(*b)])
        close(np.asarray(tv), np.asarray(th).transpose(1, 0, 2), 1e-6 * size,
              "undistorted vertical lines against horizontal lines")
    close(got[1.6], 1.6 * got["mean"], 4 * tol, "spacing for a scale of 1.6")
    opts = ("min", "mean", "median", "max")
    fs = (np.min, np.mean, np.median, np.max)
    windows = []
    for q_ in pos:
        dd = np.diff(q_)
        windows.append([[f(dd[i:j]) for f in fs] for i in range(len(dd))
                        for j in range(i + 1, len(dd) + 1)])
    mine = np.array([got[k] for k in opts])            # (4, 2)
    best = np.inf
    if not c["equal"]:
        best = max(min(np.abs(mine[:, t] - r).max() for r in windows[t])
                   for t in (0, 1))
    else:
        close(mine[:, 0], mine[:, 1], 4 * tol, "equal spacings")
        for r in windows[0]:
            for t in windows[1]:
                ref = [min(r[0], t[0]), (r[1] + t[1]) / 2,
                       (r[2] + t[2]) / 2, max(r[3], t[3])]
                best = min(best, np.abs(mine[:, 0] - ref).max())
    need(best <= 4 * tol, "spacings %s (min, mean, median, max) are not those "
         "of the given lines", mine.tolist())
    ev.nontrivial(np.abs(got["mean"] - got["median"]).max() > 20 * tol)
