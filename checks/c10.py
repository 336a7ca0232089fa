"""C10 perspective coefficients and their application."""
from scipy.ndimage import map_coordinates
from vlib import *
from checks.common import *
import discorpy.proc.processing as proc
import discorpy.post.postprocessing as post

P = Prop("C10")
ASSUMPTIONS = ["homographies with a denominator above 0.35 over the points",
               "point sets well spread (not collinear)"]

homo = dict(a=q(0.6, 1.5, 0.05), b=q(-0.3, 0.3, 0.01), e=q(-0.3, 0.3, 0.01),
            f=q(0.6, 1.5, 0.05), tx=q(-0.5, 0.5, 0.01), ty=q(-0.5, 0.5, 0.01),
            p=q(-0.3, 0.3, 0.01), r=q(-0.3, 0.3, 0.01))


def coefs(c, size):
    tx, ty, p, r = c["tx"], c["ty"], c["p"], c["r"]    # never singular
    return [c["a"] + tx * p, c["b"] + tx * r, tx * size, c["e"] + ty * p,
            c["f"] + ty * r, ty * size, p / size, r / size]


def points(n, size, seed, x0=0.0, y0=0.0):
    g = rng(seed)
    base = np.array([[0.1, 0.1], [0.1, 0.9], [0.9, 0.1], [0.9, 0.9]])
    pts = base + 0.15 * (g.random((4, 2)) - 0.5)
    if n > 4:
        pts = np.concatenate((pts, g.random((n - 4, 2))))
    pts = pts[g.permutation(n)]
    return np.round(pts * size, 3) + [y0, x0]


def given(p, form):
    if form == "list":
        return [[float(a), float(b)] for a, b in p]
    if form == "list of arrays":
        return [np.asarray(r) for r in p]
    if form == "float32":
        return np.float32(p)
    return p


@P.sub(fixed(n=st.one_of(st.just(4), st.integers(5, 40)), seed=seeds,
             size=st.sampled_from([10.0, 100.0, 1000.0, 3000.0,
                                   20000.0]),
             form=st.sampled_from(["array", "list", "list of arrays"]),
             **homo), quick=1000, shards=2, rule="a projective part or shear")
def homography_is_recovered(c, ev):
    size = c["size"]
    co = coefs(c, size)
    src = points(c["n"], size, c["seed"])
    dst = homography(co, src)
    other = points(12, size, c["seed"] + 1)
    s, t = given(src, c["form"]), given(dst, c["form"])
    fwd = proc.calc_perspective_coefficients(s, t, mapping="forward")
    fwd = arr(fwd, (8,), "coefficients")
    tol = 1e-5 * size
    close(homography(fwd, src), dst, tol, "source points mapped forward")
    close(homography(fwd, other), homography(co, other), tol,
          "other points mapped forward")
    bwd = arr(proc.calc_perspective_coefficients(s, t, mapping="backward"),
              (8,), "coefficients")
    close(homography(bwd, dst), src, tol, "target points mapped backward")
    close(homography(bwd, homography(fwd, other)), other, tol,
          "other points, forward and back")
    dflt = proc.calc_perspective_coefficients(s, t)
    close(dflt, bwd, 1e-9 * size, "coefficients of the default direction")
    got = post.correct_perspective_line([src, other], fwd)
    need(len(got) == 2, "number of lines changed")
    close(got[0], dst, tol, "line corrected with forward coefficients")
    ev.nontrivial(c["p"] != 0 or c["r"] != 0 or c["b"] != 0)
    ev.label("exactly 4 points", c["n"] == 4)


@P.sub(fixed(n=st.integers(6, 40), seed=seeds, noise=q(0.001, 0.02, 0.001),
             size=st.sampled_from([10.0, 1000.0]),
             mapping=st.sampled_from(["forward", "backward"]), **homo),
       quick=400, rule="every case")
def noisy_points_are_fitted_in_least_squares(c, ev):
    size = c["size"]
    co = coefs(c, size)
    src = points(c["n"], size, c["seed"])
    dst = homography(co, src)
    dst = dst + rng(c["seed"] + 7).normal(0, c["noise"] * size, dst.shape)
    got = arr(proc.calc_perspective_coefficients(src, dst,
                                                 mapping=c["mapping"]), (8,))
    a, b = (src, dst) if c["mapping"] == "forward" else (dst, src)
    # algebraic least squares in scaled units
    x, y, u, v = a[:, 1] / size, a[:, 0] / size, b[:, 1] / size, b[:, 0] / size
    o, z = np.ones_like(x), np.zeros_like(x)
    m = np.concatenate((np.stack((x, y, o, z, z, z, -u * x, -u * y), 1),
                        np.stack((z, z, z, x, y, o, -v * x, -v * y), 1)))
    w = np.linalg.lstsq(m, np.concatenate((u, v)), rcond=None)[0]
    w = w * np.array([1, 1, size, 1, 1, size, 1 / size, 1 / size])
    close(homography(got, a), homography(w, a), 1e-5 * size,
          "points mapped with the fitted coefficients")
    ev.nontrivial()


@P.sub(fixed(lens=st.lists(st.integers(1, 7), min_size=1, max_size=5),
             seed=seeds, size=st.sampled_from([10, 500, 3000]),
             form=st.sampled_from(["float64", "float32", "int", "int16",
                                   "list"]),
             asarr=st.booleans(), **homo), quick=600,
       rule="a projective part or shear")
def lines_are_mapped_pointwise(c, ev):
    g = rng(c["seed"])
    co = coefs(c, float(c["size"]))
    lines = [np.round(g.random((n, 2)) * c["size"], 2) for n in c["lens"]]
    if c["form"].startswith("int"):
        lines = [np.round(p).astype(c["form"]) for p in lines]
    elif c["form"] == "list":
        lines = [p.tolist() for p in lines]
    else:
        lines = [p.astype(c["form"]) for p in lines]
    got = post.correct_perspective_line(lines, np.asarray(co) if c["asarr"]
                                        else co)
    need(len(got) == len(lines), "number of lines changed")
    tol = c["size"] * (2e-6 if c["form"] == "float32" else 1e-9) + 1e-9
    for i, ln in enumerate(lines):
        close(got[i], homography(co, np.float64(ln)), tol, "line %d" % i)
    ev.nontrivial(c["p"] != 0 or c["r"] != 0 or c["b"] != 0)
    ev.label(c["form"])


@P.sub(fixed(h=st.integers(2, 40), w=st.integers(2, 40), seed=seeds,
             kind=st.sampled_from(IMG_KINDS), dtype=st.sampled_from(
                 ["float32", "float64", "uint8", "uint16"]),
             order=st.sampled_from([0, 1, 1, 1, 2, 3]),
             mode=st.sampled_from(["reflect", "nearest", "constant", "mirror",
                                   "wrap"]),
             own_map=st.booleans(), identity=st.integers(0, 9), **homo),
       quick=1000, shards=2, rule="non-constant image, not the identity")
def images_are_sampled_at_the_homography(c, ev):
    h, w = c["h"], c["w"]
    mat = image(c["kind"], h, w, c["seed"], c["dtype"])
    co = coefs(c, float(max(h, w)))
    ident = c["identity"] == 0
    if ident:
        co = [1.0, 0, 0, 0, 1.0, 0, 0, 0]
    yy, xx = np.mgrid[0:h, 0:w]
    p = homography(co, np.stack((yy, xx), -1))
    yd = np.clip(p[..., 0], 0, h - 1)
    xd = np.clip(p[..., 1], 0, w - 1)
    kw = dict(order=c["order"], mode=c["mode"])
    if c["own_map"]:
        # positions given by the caller, others than those of the coefficients
        g = rng(c["seed"] + 5)
        yd = np.clip(yd[::-1] + g.random(yd.shape), 0, h - 1)
        xd = np.clip(xd[:, ::-1] + g.random(yd.shape), 0, w - 1)
        ident = False
        kw["map_index"] = (np.reshape(np.float32(yd), (-1, 1)),
                           np.reshape(np.float32(xd), (-1, 1)))
    got = arr(post.correct_perspective_image(mat, co, **kw), (h, w),
              "corrected image")
    if ident:
        close(got, mat, 1e-3 if c["order"] < 2 else 1.01, "image under the "
              "identity")
    tol = coord_tol(mat, h, w) + (1.01 if c["dtype"][0] == "u" else 0)
    if c["order"] == 1:
        close(got, bilinear(mat, yd, xd), tol, "corrected pixel")
    elif c["order"] == 0:
        ok = (np.abs(yd % 1 - 0.5) > 1e-4) & (np.abs(xd % 1 - 0.5) > 1e-4)
        want = mat[np.int64(np.floor(yd + 0.5)), np.int64(np.floor(xd + 0.5))]
        close(got, want, 1e-6, "nearest pixel", mask=ok)
    else:
        want = map_coordinates(np.float64(mat), [yd, xd], order=c["order"],
                               mode=c["mode"])
        if c["dtype"][0] != "u":
            close(got, want, 20 * tol, "spline-interpolated pixel")
    ev.nontrivial(c["kind"] != "const" and not ident)
    ev.label("order %d" % c["order"])
    ev.label("given map", c["own_map"])


@P.sub(fixed(h=st.integers(30, 60), w=st.integers(30, 60),
             a=q(0.85, 1.15, 0.01), f=q(0.85, 1.15, 0.01),
             b=q(-0.1, 0.1, 0.01), e=q(-0.1, 0.1, 0.01), p=q(-.1, .1, .01),
             r=q(-.1, .1, .01), tx=q(-.1, .1, .01), ty=q(-.1, .1, .01),
             seed=seeds), quick=200, rule="every case")
def image_and_points_agree(c, ev):
    """A blob in the image moves where the forward coefficients move its
    position."""
    h, w = c["h"], c["w"]
    co = coefs(c, float(max(h, w)))
    g = rng(c["seed"])
    y0, x0 = g.uniform(0.35, 0.65) * h, g.uniform(0.35, 0.65) * w
    yy, xx = np.mgrid[0:h, 0:w]
    mat = 100 * np.exp(-((yy - y0) ** 2 + (xx - x0) ** 2) / (2 * 2.5 ** 2))
    src = points(8, float(min(h, w)), c["seed"])
    dst = homography(co, src)
    bwd = proc.calc_perspective_coefficients(src, dst, mapping="backward")
    fwd = proc.calc_perspective_coefficients(src, dst, mapping="forward")
    got = post.correct_perspective_image(mat, bwd, order=1)
    want = np.asarray(post.correct_perspective_line(
        [np.array([[y0, x0]])], fwd)[0])[0]
    if not (8 < want[0] < h - 9 and 8 < want[1] < w - 9):
        return
    wgt = np.float64(got)
    pos = np.array([(wgt * yy).sum(), (wgt * xx).sum()]) / wgt.sum()
    need(np.hypot(*(pos - want)) < 0.8, "blob at (y, x) = %s after image "
         "correction, its point at %s", pos, want)
    ev.nontrivial()
