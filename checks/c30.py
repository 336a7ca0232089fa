"""C30 the documented workflow straightens a distorted calibration image."""
from vlib import *
from checks.common import *
from checks.dots import *
from checks import patterns
import discorpy.post.postprocessing as post
import discorpy.prep.preprocessing as prep
import discorpy.prep.linepattern as lp
import discorpy.proc.processing as proc

P = Prop("C30")
ASSUMPTIONS = ["well exposed synthetic patterns of 13 to 19 lines each way; "
               "distortion up to 7 % at the corners, centre within 12 % of "
               "the middle, tilts up to 8 degrees"]


def scene_dist(c, h, w):
    """(xc, yc, k, corner radius): r_scene = r (1 + k r^2)."""
    xc, yc = w * (0.5 + c["fx"]), h * (0.5 + c["fy"])
    r = corner_radius(h, w, xc, yc)
    return xc, yc, c["e"] / r ** 2, r


def to_image(p, xc, yc, k, r):
    """Image positions of scene points."""
    y, x = p[..., 0] - yc, p[..., 1] - xc
    rs = np.hypot(y, x)
    ri = invert_radius(rs, [1.0, 0.0, k], 1.6 * r)
    f = np.where(rs > 1e-9, ri / np.maximum(rs, 1e-9), 1.0)
    return np.stack((yc + f * y, xc + f * x), axis=-1)


def to_scene(p, xc, yc, k):
    y, x = patterns.warp(p[..., 0], p[..., 1], (xc, yc, k))
    return np.stack((y, x), axis=-1)


def dot_image(c, pers=None):
    """Dots on a regular grid over the whole field of view."""
    h, w = c["h"], c["w"]
    xc, yc, k, r = scene_dist(c, h, w)
    n = int(1.6 * np.hypot(h, w) / c["d"])
    hor, _ = grid(n, n, c["d"], c["d"], w / 2 + c["jx"] * c["d"],
                  h / 2 + c["jy"] * c["d"], c["tilt"])
    p = np.float64(hor).reshape(-1, 2)
    if pers is not None:
        p = homography(pers, p - [h / 2, w / 2]) + [h / 2, w / 2]
    p = to_image(p, xc, yc, k, r)
    rad = 0.5 * c["size"] * c["d"]
    m = rad + 3
    p = p[(p[:, 0] > m) & (p[:, 0] < h - m) & (p[:, 1] > m)
          & (p[:, 1] < w - m)]
    f = disc_field(h, w, p, rad)
    mat = lit(f, 200.0, 30.0, c["gy"], c["gx"], 0.01 * c["noise"], c["seed"])
    return np.float32(mat), p, (xc, yc, k, r)


def dots_to_lines(mat):
    """The documented steps from an image of dots to lines."""
    b = prep.binarization(prep.normalization_fft(mat, sigma=5, pad=30))
    need(not prep.check_num_dots(b), "not enough dots found")
    size, dist = prep.calc_size_distance(b, 0.5)
    b = prep.select_dots_based_size(b, size, ratio=0.4)
    b = prep.select_dots_based_ratio(b, ratio=0.5)
    hs, vs = prep.calc_hor_slope(b, 0.5), prep.calc_ver_slope(b, 0.5)
    hor = prep.group_dots_hor_lines(b, hs, dist, ratio=0.3, num_dot_miss=3,
                                    accepted_ratio=0.7)
    ver = prep.group_dots_ver_lines(b, vs, dist, ratio=0.3, num_dot_miss=3,
                                    accepted_ratio=0.7)
    hor = prep.remove_residual_dots_hor(hor, hs, residual=2.0)
    ver = prep.remove_residual_dots_ver(ver, vs, residual=2.0)
    return hor, ver


def line_image(c, board):
    h, w = c["h"], c["w"]
    xc, yc, k, r = scene_dist(c, h, w)
    s = dict(th=np.rad2deg(c["tilt"]), tv=-np.rad2deg(c["tilt"]),
             ph=c["d"], pv=c["d"], sig=1.5, cx=w / 2 + c["jx"] * c["d"],
             cy=h / 2 + c["jy"] * c["d"], dist=(xc, yc, k))
    m = patterns.board(h, w, s) if board else patterns.lines(h, w, s)
    return np.float32(patterns.shade(m, c["gy"], c["gx"], c["noise"],
                                     c["seed"])), s, (xc, yc, k, r)


def lines_to_lines(mat, board):
    """The documented steps from lines or a chessboard to lines of points."""
    kw = dict(chessboard=board)
    sh, dh = lp.calc_slope_distance_hor_lines(mat, ratio=0.5,
                                              search_range=12.0, **kw)
    sv, dv = lp.calc_slope_distance_ver_lines(mat, ratio=0.5,
                                              search_range=12.0, **kw)
    ph = lp.get_cross_points_hor_lines(mat, sv, dv, ratio=0.5, **kw)
    pv = lp.get_cross_points_ver_lines(mat, sh, dh, ratio=0.5, **kw)
    hor = prep.group_dots_hor_lines(ph, sh, dh, num_dot_miss=3)
    ver = prep.group_dots_ver_lines(pv, sv, dv, num_dot_miss=3)
    return (prep.remove_residual_dots_hor(hor, sh, 2.0),
            prep.remove_residual_dots_ver(ver, sv, 2.0))


def bend(lines):
    return max(straightness(x) for x in lines)


def mid(lines):
    return float(np.median([straightness(x) for x in lines]))


def off_lattice(p, tilt, axis, d):
    """Distances of points from the lines, d apart, that suit them best."""
    v = p[:, axis] * np.cos(tilt) - p[:, 1 - axis] * np.sin(tilt)
    z = np.exp(2j * np.pi * v / d)
    return np.abs(np.angle(z / np.sum(z))) * d / (2 * np.pi)


def even(lines, axis):
    """Distances between neighbouring lines, along the middle of the view."""
    at = np.mean(np.concatenate(lines)[:, 1 - axis])
    b = [np.polyval(np.polyfit(x[:, 1 - axis] - at, x[:, axis], 1), 0.0)
         for x in lines]
    return np.diff(np.sort(b))


base = dict(h=st.integers(370, 470), w=st.integers(370, 500),
            d=q(26, 33, 0.5), fx=q(-0.12, 0.12, 0.01),
            fy=q(-0.12, 0.12, 0.01), jx=q(-0.5, 0.5, 0.05),
            jy=q(-0.5, 0.5, 0.05),
            tilt=st.one_of(q(-0.035, 0.035, 0.005), q(-0.14, 0.14, 0.01)),
            gx=q(-0.2, 0.2, 0.05), gy=q(-0.2, 0.2, 0.05),
            noise=st.integers(0, 3), seed=seeds, size=q(0.35, 0.5, 0.01),
            e=st.one_of(q(0.04, 0.14, 0.005), q(-0.1, -0.04, 0.005),
                        q(0.04, 0.14, 0.005), q(-0.1, -0.04, 0.005),
                        st.just(0.0)),
            ncoef=st.sampled_from([4, 5, 5, 6]))


def calibrate(c, ev, mat, detect, true):
    """Common end of the workflows."""
    xc, yc, k, r = true
    hor, ver = detect(mat)
    n = int(min(c["h"], c["w"]) / c["d"])
    need(len(hor) >= 0.6 * n and len(ver) >= 0.6 * n,
         "only %d and %d lines of about %d found", len(hor), len(ver), n)
    scene = [to_scene(x, xc, yc, k) for x in hor + ver]
    for ls, tilt, ax in ((scene[:len(hor)], c["tilt"], 0),
                         (scene[len(hor):], -c["tilt"], 1)):
        off = off_lattice(np.concatenate(ls), tilt, ax, c["d"])
        a50, a90 = np.percentile(off, [50, 90])
        need(a50 <= 0.3 and a90 <= 0.7, "the points found are %.2f px off "
             "the lines of the pattern, a tenth more than %.2f px", a50, a90)
    need(mid(scene) <= 0.5, "the points found are %.2f px off their lines",
         mid(scene))
    before = mid(hor + ver)
    x, y = proc.find_cod_coarse(hor, ver)
    check0 = [post.check_distortion(f(l, 0.0, 0.0)) for f, l in
              ((post.calc_residual_hor, hor), (post.calc_residual_ver, ver))]
    centers = [(x, y)]
    if c["e"] == 0.0:
        need(not any(check0), "an undistorted pattern is said to be "
             "distorted")
    else:
        need(abs(x - xc) <= 1.6 * c["d"] and abs(y - yc) <= 1.6 * c["d"],
             "coarse centre off by (%.1f, %.1f), pitch %.1f", x - xc, y - yc,
             c["d"])
        if abs(c["e"]) >= 0.1:
            need(any(check0), "strong distortion not noticed")
        bx, by = proc.find_cod_bailey(hor, ver)
        need(abs(bx - xc) <= 8 and abs(by - yc) <= 8,
             "centre off by (%.1f, %.1f)", bx - xc, by - yc)
        centers.append((bx, by))
    for i, (a, b) in enumerate(centers):
        f = proc.calc_coef_backward(hor, ver, a, b, c["ncoef"])
        uh = post.unwarp_line_backward(hor, a, b, f)
        uv = post.unwarp_line_backward(ver, a, b, f)
        res = [post.calc_residual_hor(uh, a, b),
               post.calc_residual_ver(uv, a, b)]
        need(not any(post.check_distortion(t) for t in res),
             "distortion left after correction (centre %d)", i)
        got = mid(uh + uv)
        lim = max(0.6, 0.35 * before) if i == 0 else max(0.5, 0.2 * before)
        need(got <= lim, "lines bend by %.2f px after correction, %.2f "
             "before (centre %d)", got, before, i)
        if i:
            far = np.percentile([straightness(t) for t in uh + uv], 80)
            need(far <= 1.2, "a fifth of the lines bend by %.2f px", far)
            # the pitch is even again
            for ls, ax in ((uh, 0), (uv, 1)):
                g = even(ls, ax)
                g = g / np.median(g)
                ok = np.abs(g - np.round(g)) <= 0.12
                need(np.mean(ok) >= 0.8, "uneven pitch after correction: %s",
                     np.round(g, 2).tolist())
    img = post.unwarp_image_backward(mat, a, b, f)
    arr(img, mat.shape, "corrected image")
    h2, v2 = detect(np.float32(img))
    need(mid(h2 + v2) <= 0.6, "lines in the corrected image bend by %.2f px,"
         " %.2f before", mid(h2 + v2), before)
    ev.nontrivial(abs(c["e"]) >= 0.04)
    ev.label("barrel" if c["e"] < 0 else
             ("pincushion" if c["e"] else "undistorted"))


@P.sub(fixed(**base), quick=64, thorough=500, shards=8,
       rule="distorted by 4 % or more at the corners")
def dots(c, ev):
    """Dot pattern: image to corrected image."""
    mat, _, true = dot_image(c)
    calibrate(c, ev, mat, dots_to_lines, true)


@P.sub(fixed(**base), quick=48, thorough=400, shards=8,
       rule="distorted by 4 % or more at the corners")
def line_patterns(c, ev):
    """Line pattern: image to corrected image."""
    mat, _, true = line_image(c, False)
    calibrate(c, ev, mat, lambda m: lines_to_lines(m, False), true)


@P.sub(fixed(**base), quick=32, thorough=300, shards=8,
       rule="distorted by 4 % or more at the corners")
def chessboards(c, ev):
    """Chessboard: image to corrected image."""
    mat, _, true = line_image(c, True)
    calibrate(c, ev, mat, lambda m: lines_to_lines(m, True), true)


@P.sub(fixed(px=q(-2, 2, 0.1), py=q(-2, 2, 0.1),
             **dict(base, noise=st.integers(0, 1), fx=q(-0.08, 0.08, 0.01),
                    fy=q(-0.08, 0.08, 0.01),
                    e=st.one_of(q(0.05, 0.12, 0.005),
                                q(-0.085, -0.05, 0.005)))),
       quick=48, thorough=400, shards=8, rule="a clear perspective effect")
def perspective_view(c, ev):
    """Dots seen at an angle: center from vanishing points, perspective
    effect removed, model, then perspective correction of the lines."""
    mat, _, (xc, yc, k, r) = dot_image(
        c, [1, 0, 0, 0, 1, 0, c["px"] * 1e-4, c["py"] * 1e-4])
    hor, ver = dots_to_lines(mat)
    before = mid(hor + ver)
    x, y = proc.find_center_based_vanishing_points_iteration(hor, ver,
                                                             iteration=2)
    need(abs(x - xc) <= 25 and abs(y - yc) <= 25,
         "centre off by (%.1f, %.1f)", x - xc, y - yc)
    ph, pv = proc.correct_perspective_effect(hor, ver, x, y)
    f = proc.calc_coef_backward(ph, pv, x, y, c["ncoef"])
    uh = post.unwarp_line_backward(hor, x, y, f)
    uv = post.unwarp_line_backward(ver, x, y, f)
    got = mid(uh + uv)
    need(got <= 0.5, "lines bend by %.2f px after correction, %.2f before",
         got, before)
    gh, gv = proc.regenerate_grid_points_parabola(hor, ver,
                                                  perspective=False)
    gh = post.unwarp_line_backward(gh, x, y, f)
    gv = post.unwarp_line_backward(gv, x, y, f)
    s, t = proc.generate_source_target_perspective_points(
        gh, gv, equal_dist=True, scale="mean", optimizing=False)
    kc = proc.calc_perspective_coefficients(s, t, mapping="forward")
    ch = post.correct_perspective_line(uh, kc)
    cv = post.correct_perspective_line(uv, kc)

    def fan(h, v):
        a = [np.polyfit(n[:, 1], n[:, 0], 1)[0] for n in h]
        b = [np.polyfit(n[:, 0], n[:, 1], 1)[0] for n in v]
        return float(max(np.ptp(a), np.ptp(b)))
    f0, f1 = fan(uh, uv), fan(ch, cv)
    need(f1 <= 0.012 + 0.12 * f0, "slopes of lines still differ by %.4f after"
         " perspective correction, %.4f before", f1, f0)
    need(mid(ch + cv) <= 0.6, "lines bend by %.2f px after perspective "
         "correction", mid(ch + cv))
    kb = proc.calc_perspective_coefficients(s, t, mapping="backward")
    img = post.correct_perspective_image(
        post.unwarp_image_backward(mat, x, y, f), kb)
    arr(img, mat.shape, "corrected image")
    # a dot in the corrected image is where its corrected point is
    miss = seen = 0
    for n in ch:
        for py, px in n:
            if 6 <= py < c["h"] - 6 and 6 <= px < c["w"] - 6:
                seen += 1
                miss += img[int(round(py)), int(round(px))] > 0.6 * \
                    np.median(img)
    need(seen < 20 or miss <= 0.05 * seen, "%d of %d dots of the corrected "
         "image are not at their corrected points", miss, seen)
    ev.nontrivial(max(abs(c["px"]), abs(c["py"])) >= 0.5)
    ev.label("barrel" if c["e"] < 0 else "pincushion")
