"""C13 perspective effect is removed without hurting radial distortion."""
from vlib import *
from checks.common import *
import discorpy.proc.processing as proc

P = Prop("C13")
ASSUMPTIONS = ["at least 6 lines each way, center within the middle part of "
               "the grid, perspective up to 0.12 and radial distortion up to "
               "0.12 over the grid",
               "tolerances are several times the largest error of the "
               "(approximate) method over a calibration sweep"]

METHODS = ["mean", "median", "min", "max"]
gp = dict(nh=st.integers(6, 13), nv=st.integers(6, 13), d=q(8, 90, 0.5),
          fx=q(-0.12, 0.12, 0.01), fy=q(-0.12, 0.12, 0.01),
          mx=q(0.5, 4, 0.1), my=q(0.5, 4, 0.1),
          e=st.one_of(q(-0.12, -0.03, 0.005), q(0.03, 0.12, 0.005)),
          tilt=q(-0.06, 0.06, 0.01), method=st.sampled_from(METHODS))


def make(c, p=0.0, r=0.0):
    """Straight grid -> perspective -> radial distortion. (points, xc, yc)."""
    d, nh, nv = c["d"], c["nh"], c["nv"]
    hor, _ = grid(nh, nv, d, d, 0.0, 0.0, c["tilt"])
    size = max(nh, nv) * d
    g = homography([1, 0, 0, 0, 1, 0, p / size, r / size], np.asarray(hor))
    xo, yo = c["fx"] * nv * d, c["fy"] * nh * d
    rad = float(np.hypot(g[..., 0] - yo, g[..., 1] - xo).max())
    g = distort(g, xo, yo, [1.0, 0.0, c["e"] / rad ** 2])
    x0, y0 = ((nv - 1) / 2.0 + c["mx"]) * d, ((nh - 1) / 2.0 + c["my"]) * d
    return g + [y0, x0], xo + x0, yo + y0, size


def fan(lines, axis, xc, yc, size):
    """How the slopes of the lines (at the center) change across the grid."""
    b, k = [], []
    for ln in lines:
        f = np.polyfit(ln[:, axis] - (xc if axis else yc),
                       ln[:, 1 - axis] - (yc if axis else xc), 2)
        b.append(f[1])
        k.append(f[2])
    return float(np.polyfit(k, b, 1)[0]) * size


def as_lines(res, ref, what):
    need(len(res) == len(ref), "%s: %d lines became %d", what, len(ref),
         len(res))
    return [np.float64(arr(a, np.shape(b), what)) for a, b in zip(res, ref)]


def projective_residual(src, dst):
    """Largest distance after fitting a homography src -> dst (y, x)."""
    ms, md = src.mean(0), dst.mean(0)
    ks, kd = np.abs(src - ms).max(), np.abs(dst - md).max()
    s, t = (src - ms) / ks, (dst - md) / kd
    y, x, v, u = s[:, 0], s[:, 1], t[:, 0], t[:, 1]
    o, z = np.ones_like(x), np.zeros_like(x)
    m = np.concatenate((np.stack((x, y, o, z, z, z, -u * x, -u * y, -u), 1),
                        np.stack((z, z, z, x, y, o, -v * x, -v * y, -v), 1)))
    h = np.linalg.svd(m, full_matrices=False)[2][-1]
    w = h[6] * x + h[7] * y + h[8]
    pu, pv = (h[0] * x + h[1] * y + h[2]) / w, (h[3] * x + h[4] * y + h[5]) / w
    return float(np.hypot(pu - u, pv - v).max() * kd)


@P.sub(fixed(p=q(-0.12, 0.12, 0.01), r=q(-0.12, 0.12, 0.01), seed=seeds,
             drop=st.integers(0, 1), shuffle=st.booleans(),
             scale=st.sampled_from(["mean", "min", "max"]), **gp), quick=400,
       shards=3, rule="grid with perspective")
def perspective_is_removed(c, ev):
    g, xc, yc, size = make(c, c["p"], c["r"])
    hor, ver = lines_of(g, c["drop"], c["seed"], c["shuffle"])
    h2, v2 = proc.correct_perspective_effect(
        hor, ver, xc, yc, method=c["method"], scale=c["scale"])
    h2 = as_lines(h2, hor, "horizontal lines")
    v2 = as_lines(v2, ver, "vertical lines")
    lim = 0.015 if c["method"] == "mean" else 0.035
    for lines, axis, name in ((h2, 1, "horizontal"), (v2, 0, "vertical")):
        f = fan(lines, axis, xc, yc, size)
        need(abs(f) <= lim, "%s lines still fan out by %.4f (perspective "
             "%.2f, %.2f; method %s)", name, f, c["p"], c["r"], c["method"])
    src, dst = np.concatenate(hor + ver), np.concatenate(h2 + v2)
    res = projective_residual(src, dst)
    need(res <= 1e-3 * c["d"], "corrected points are not a "
         "projective image of the given ones: off by %.4f", res)
    # size and place: the corrected grid is where the given one was
    ratio = np.ptp(dst, axis=0) / np.ptp(src, axis=0)
    need(ratio.min() > 0.7 and ratio.max() < 1.4, "corrected grid is %s times "
         "as large (scale %s)", ratio, c["scale"])
    shift = (dst.mean(0) - src.mean(0)) / c["d"]
    need(np.abs(shift).max() < 1.5, "corrected grid moved by %s line "
         "spacings", shift)
    ev.nontrivial(c["p"] != 0 or c["r"] != 0)
    ev.label("method " + c["method"])


@P.sub(fixed(p=q(-0.12, 0.12, 0.01), r=q(-0.12, 0.12, 0.01),
             s=q(0.4, 2.5, 0.05), ox=q(-500, 500, 1), oy=q(-500, 500, 1),
             **gp), quick=200, shards=2, rule="scale other than 1")
def options_and_frame(c, ev):
    g, xc, yc, size = make(c, c["p"], c["r"])
    hor, ver = lines_of(g)

    def run(scale="mean", o=(0.0, 0.0)):
        a, b = proc.correct_perspective_effect(
            [ln + o for ln in hor], [ln + o for ln in ver], xc + o[1],
            yc + o[0], method=c["method"], scale=scale)
        a = np.float64(arr(a, g.shape, "lines"))
        close(np.asarray(b), a.transpose(1, 0, 2), 1e-6 * np.abs(a).max(),
              "same points of horizontal and vertical lines")
        return a
    base = run()
    tol = 1e-4 * c["d"] + 1e-5 * float(np.abs(g).max())
    o = np.array([c["oy"], c["ox"]])
    close(run(o=o) - o, base, tol + 1e-3 * c["d"],
          "corrected lines of a shifted grid")
    # a factor scales the corrected grid
    k = run(scale=c["s"])
    close(k - k.mean((0, 1)), c["s"] * (base - base.mean((0, 1))),
          tol * max(1, c["s"]), "grid corrected with a scale factor")
    sz = {m: np.ptp(run(scale=m).reshape(-1, 2), axis=0)
          for m in ("min", "max")}
    sb = np.ptp(base.reshape(-1, 2), axis=0)
    need(np.all(sz["min"] <= sb + tol) and np.all(sb <= sz["max"] + tol),
         "sizes for scale min, mean, max: %s, %s, %s", sz["min"], sb,
         sz["max"])
    # the perspective-free result needs no further correction
    again = proc.correct_perspective_effect(
        list(base), list(base.transpose(1, 0, 2)), xc, yc,
        method=c["method"])[0]
    move = float(np.abs(np.asarray(again) - base).max()) / c["d"]
    need(move <= 0.25, "correcting twice moves points by another %.3f line "
         "spacings", move)
    ev.nontrivial(c["s"] != 1)


@P.sub(fixed(**gp), quick=300, rule="any")
def nothing_to_remove(c, ev):
    g, xc, yc, size = make(c)
    hor, ver = lines_of(g)
    h2, v2 = proc.correct_perspective_effect(hor, ver, xc, yc,
                                             method=c["method"])
    move = float(np.abs(np.asarray(h2) - g).max()) / c["d"]
    need(move <= 0.06, "a grid without perspective moves by %.4f line "
         "spacings", move)
    move = float(np.abs(np.asarray(v2) - g.transpose(1, 0, 2)).max()) / c["d"]
    need(move <= 0.06, "a grid without perspective moves by %.4f line "
         "spacings", move)
    ev.nontrivial()


@P.sub(fixed(nh=st.integers(4, 13), nv=st.integers(4, 13), d=q(8, 90, 0.5),
             asp=st.sampled_from([1.0, 0.8, 1.25]), fx=q(-0.2, 0.2, 0.01),
             fy=q(-0.2, 0.2, 0.01), mx=q(0.5, 4, 0.1), my=q(0.5, 4, 0.1),
             k=st.one_of(q(-0.12, -0.02, 0.005), q(0.02, 0.12, 0.005)),
             method=st.sampled_from(METHODS),
             scale=st.one_of(st.sampled_from(["mean", "min", "max"]),
                             q(0.5, 2, 0.1)), it=st.integers(0, 4)),
       quick=300, rule="scaled, or several iterations")
def exact_parabolas(c, ev):
    """Lines that are exact parabolas about the center, no perspective: the
    correction is the identity (times the scale) and the center exact."""
    dy, dx = c["d"], c["d"] * c["asp"]
    size = max(c["nh"] * dy, c["nv"] * dx) / 2.0
    xc = ((c["nv"] - 1) * 0.7 + c["mx"]) * dx
    yc = ((c["nh"] - 1) * 0.7 + c["my"]) * dy
    g = parabolic_grid(c["nh"], c["nv"], dy, dx, xc, yc, c["fx"], c["fy"],
                       c["k"] / size ** 2)
    hor, ver = lines_of(g)
    s = c["scale"]
    h2, _ = proc.correct_perspective_effect(hor, ver, xc, yc,
                                            method=c["method"], scale=s)
    h2 = np.asarray(h2)
    tol = 1e-4 * size
    if isinstance(s, float):
        close(h2 - h2.mean((0, 1)), s * (g - g.mean((0, 1))),
              tol * max(1.0, s), "corrected grid, scale %g" % s)
    else:
        close(h2, g, tol, "corrected grid")
    x, y = proc.find_center_based_vanishing_points_iteration(
        hor, ver, iteration=c["it"], method=c["method"])
    need(abs(x - xc) <= 5e-3 * dx and abs(y - yc) <= 5e-3 * dy, "center "
         "(%.4f, %.4f) found, (%.4f, %.4f) expected", x, y, xc, yc)
    ev.nontrivial(isinstance(s, float) or c["it"] > 0)
    ev.label("barrel", c["k"] < 0)


@P.sub(fixed(p=q(-0.08, 0.08, 0.01), r=q(-0.08, 0.08, 0.01),
             it=st.integers(1, 6), **gp), quick=300, shards=4,
       rule="grid with perspective")
def center_under_perspective(c, ev):
    g, xc, yc, size = make(c, c["p"], c["r"])
    hor, ver = lines_of(g)
    x, y = proc.find_center_based_vanishing_points_iteration(
        hor, ver, iteration=c["it"], method=c["method"])
    lim = {"mean": 0.25, "median": 0.25, "min": 0.4, "max": 0.5}[c["method"]]
    need(abs(x - xc) <= lim * c["d"] and abs(y - yc) <= lim * c["d"],
         "center off by %.3f, %.3f line spacings", (x - xc) / c["d"],
         (y - yc) / c["d"])
    if c["it"] > 1:
        x2, y2 = proc.find_center_based_vanishing_points_iteration(
            hor, ver, iteration=c["it"] + 1, method=c["method"])
        need(abs(x - x2) <= 0.05 * c["d"] and abs(y - y2) <= 0.05 * c["d"],
             "iteration %d still moves the center by %.3f, %.3f line "
             "spacings", c["it"] + 1, (x2 - x) / c["d"], (y2 - y) / c["d"])
    ev.nontrivial(c["p"] != 0 or c["r"] != 0)


@P.sub(fixed(n=st.lists(st.integers(1, 5), min_size=4, max_size=4),
             d=q(8, 60, 0.5), k=q(0.02, 0.1, 0.005), barrel=st.booleans(),
             fan=q(0, 0.08, 0.01), xc=q(100, 900, 0.5), yc=q(100, 900, 0.5),
             method=st.sampled_from(METHODS), shuffle=st.booleans(),
             scale=st.one_of(st.sampled_from(["mean", "min", "max"]),
                             q(0.6, 1.8, 0.1)), seed=seeds), quick=400,
       shards=2, rule="several lines a side, with different slopes")
def representative_lines(c, ev):
    """The four straight lines standing for the curves are the mean, the
    median, the least or the most curved ones of each side; the map they
    define is applied to every point."""
    g = rng(c["seed"])
    size = 5.0 * c["d"]
    groups = []                      # (a, b, c) of up, down, right, left
    for j, n in enumerate(c["n"]):
        side = 1.0 if j % 2 == 0 else -1.0
        pos = (np.arange(n) + 0.5 + 0.2 * g.random(n)) * c["d"]
        bend = (c["k"] * (0.2 + np.arange(n)) / 5.0) / size
        bend = bend * (1 + 0.3 * g.random(n))
        if c["shuffle"]:
            bend = bend[g.permutation(n)]
        tilt = c["fan"] * (g.random(n) - 0.5)
        off = side * pos if not c["barrel"] else -side * pos
        groups.append([(side * a, b, o) for a, b, o in zip(bend, tilt, off)])

    def lines(gr, axis):
        out = []
        for a, b, o in gr:
            t = np.linspace(-size, size, int(g.integers(5, 12)))
            v = a * t * t + b * t + o
            p = np.stack((v, t) if axis else (t, v), -1)
            out.append(p + [c["yc"], c["xc"]])
        return out
    hor = lines(sorted(groups[0] + groups[1], key=lambda t: t[2]), 1)
    ver = lines(sorted(groups[2] + groups[3], key=lambda t: t[2]), 0)
    if len(hor) < 2 or len(ver) < 2:
        return
    rep = []
    for gr in groups:
        b, o = np.array([t[1] for t in gr]), np.array([t[2] for t in gr])
        a = np.abs([t[0] for t in gr])
        if c["method"] in ("mean", "median"):
            f = np.mean if c["method"] == "mean" else np.median
            rep.append((f(b), f(o)))
        else:
            i = np.argmin(a) if c["method"] == "min" else np.argmax(a)
            rep.append((b[i], o[i]))
    corners = []
    for b1, o1 in rep[:2]:
        for b2, o2 in rep[2:]:
            y = (b1 * o2 + o1) / (1 - b1 * b2)
            corners.append((y, b2 * y + o2))
    src, dst = proc.generate_4_source_target_perspective_points(
        np.array(corners), scale=c["scale"])
    co = np.linalg.lstsq(*_system(np.float64(src), np.float64(dst)),
                         rcond=None)[0]
    h2, v2 = proc.correct_perspective_effect(
        hor, ver, c["xc"], c["yc"], method=c["method"], scale=c["scale"])
    o = np.array([c["yc"], c["xc"]])
    for got, ref, what in ((h2, hor, "horizontal"), (v2, ver, "vertical")):
        for i, (p, s) in enumerate(zip(as_lines(got, ref, what), ref)):
            den = co[6] * (s - o)[:, 1] + co[7] * (s - o)[:, 0] + 1
            if den.min() < 0.3:
                continue
            close(p, homography(co, s - o) + o, 3e-4 * size,
                  "%s line %d" % (what, i))
    ev.nontrivial(max(c["n"]) > 2 and c["fan"] > 0)


def _system(src, dst):
    y, x, v, u = src[:, 0], src[:, 1], dst[:, 0], dst[:, 1]
    o, z = np.ones_like(x), np.zeros_like(x)
    m = np.concatenate((np.stack((x, y, o, z, z, z, -u * x, -u * y), 1),
                        np.stack((z, z, z, x, y, o, -v * x, -v * y), 1)))
    return m, np.concatenate((u, v))


@P.sub(fixed(nh=st.integers(1, 6), nv=st.integers(1, 6),
             ch=st.lists(q(-4, 4, 0.5), min_size=6, max_size=6),
             cv=st.lists(q(-4, 4, 0.5), min_size=6, max_size=6),
             method=st.sampled_from(METHODS)), quick=300,
       rule="lines all curved one way")
def one_way_curves_rejected(c, ev):
    t = np.linspace(-200, 200, 9)
    # curvature changes sign once across the grid, as it does about a center
    ch, cv = sorted(c["ch"][:c["nh"]]), sorted(c["cv"][:c["nv"]])
    if 0.0 in ch or 0.0 in cv:
        return
    hor = [np.stack((60.0 * i + k * 1e-4 * t * t, t), -1)
           for i, k in enumerate(ch)]
    ver = [np.stack((t, 60.0 * i + k * 1e-4 * t * t), -1)
           for i, k in enumerate(cv)]
    ok = all(min(k) < 0 < max(k) and len(k) >= 2 for k in (ch, cv))
    if ok:
        a, b = proc.correct_perspective_effect(hor, ver, 0.0, 0.0,
                                               method=c["method"])
        as_lines(a, hor, "horizontal lines")
        as_lines(b, ver, "vertical lines")
    else:
        raises(ValueError, proc.correct_perspective_effect, hor, ver, 0.0,
               0.0, method=c["method"])
        ev.nontrivial()
