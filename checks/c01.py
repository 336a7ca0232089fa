"""C01 backward image unwarping = the radial model + interpolation, pixel by
pixel."""
from vlib import *
from checks.common import *
from scipy.ndimage import map_coordinates
import discorpy.post.postprocessing as post

P = Prop("C01")
ASSUMPTIONS = ["scipy.ndimage.map_coordinates is the reference for spline "
               "orders above 1; order 0 and 1 are judged by a numpy oracle"]

MODES = ["reflect", "grid-mirror", "constant", "grid-constant", "nearest",
         "mirror", "grid-wrap", "wrap"]

dims = st.one_of(st.integers(1, 12), st.integers(2, 64))
case_any = fixed(h=dims, w=dims, kind=st.sampled_from(IMG_KINDS),
                 dtype=st.sampled_from(DTYPES + ["int8", "uint32", "int64"]),
                 high=st.sampled_from([False, False, True]), seed=seeds,
                 fx=centers, fy=centers,
                 int_center=st.booleans(),
                 k0=st.one_of(st.just(1.0), q(0.5, 1.5, 0.05)),
                 rel=rel_terms(0, 5, 0.4), as_array=st.booleans())


def setup(c):
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    if c["int_center"]:
        xc, yc = int(round(xc)), int(round(yc))
    fact = model(c["rel"], corner_radius(h, w, xc, yc), c["k0"])
    if c.get("as_array"):
        fact = np.asarray(fact)
    lo, hi = (-100.0 if np.dtype(c["dtype"]).kind in "fi" else 0.0), 200.0
    if c["dtype"] == "int8":
        hi = 100.0
    if c["high"]:               # values at the far end of the type
        lo, hi = {"uint8": (60., 255.), "int8": (20., 120.),
                  "uint16": (65000., 65400.), "int16": (-32700., -32300.),
                  "float32": (1000., 3000.)}.get(c["dtype"],
                                                 (3e7, 3e7 + 300))
    mat = image(c["kind"], h, w, c["seed"], c["dtype"], lo=lo, hi=hi)
    return mat, xc, yc, fact


@P.sub(case_any, quick=4000, shards=3,
       rule="the image is not constant and the mapping moves some pixel by "
            "more than 0.05 px")
def order1_matches_model(c, ev):
    mat, xc, yc, fact = setup(c)
    h, w = mat.shape
    out = post.unwarp_image_backward(mat, xc, yc, fact)
    out = arr(out, (h, w), "unwarped image")
    need(out.dtype == mat.dtype, "dtype changed from %s to %s", mat.dtype,
         out.dtype)
    yd, xd = backward_coords(h, w, xc, yc, fact)
    want = bilinear(mat, yd, xd)
    tol = coord_tol(mat, h, w) + (0.5 if mat.dtype.kind in "ui" else 0.0)
    close(out, want, tol, "unwarped pixel")
    lo, hi = np.float64(mat.min()), np.float64(mat.max())
    need(out.min() >= lo - 1e-4 and out.max() <= hi + 1e-4,
         "interpolated values leave the range of the image")
    moved = np.max(np.abs(yd - np.arange(h)[:, None])
                   + np.abs(xd - np.arange(w)[None, :]))
    ev.nontrivial(span(mat) > 0 and moved > 0.05)
    ev.label("centre outside", not (0 <= xc < w and 0 <= yc < h))
    ev.label("non-square", h != w)
    ev.label("integer dtype", mat.dtype.kind in "ui")
    ev.label("coefs=%d" % len(fact))


@P.sub(fixed(base=case_any, order=st.integers(0, 5),
             mode=st.sampled_from(MODES)), quick=3000, shards=3,
       rule="the image is not constant and larger than 2x2")
def any_order_and_mode(c, ev):
    mat, xc, yc, fact = setup(c["base"])
    h, w = mat.shape
    out = arr(post.unwarp_image_backward(mat, xc, yc, fact, order=c["order"],
                                         mode=c["mode"]),
              (h, w), "unwarped image")
    need(out.dtype == mat.dtype, "dtype changed")
    yd, xd = backward_coords(h, w, xc, yc, fact)
    if c["order"] == 0:
        # nearest neighbour; skip pixels that sit between two samples
        fy, fx = np.abs(yd - np.floor(yd) - 0.5), np.abs(xd - np.floor(xd)
                                                         - 0.5)
        ok = (fy > 1e-3) & (fx > 1e-3)
        want = np.float64(mat)[np.round(yd).astype(int),
                               np.round(xd).astype(int)]
        close(out, want, 1e-9, "nearest-neighbour pixel", mask=ok)
    elif c["order"] == 1:
        want = bilinear(mat, yd, xd)
        close(out, want, coord_tol(mat, h, w)
              + (0.5 if mat.dtype.kind in "ui" else 0.0), "pixel")
    else:
        want = map_coordinates(np.float64(mat), [yd, xd], order=c["order"],
                               mode=c["mode"])
        # some modes continue the image with zeros: its level counts too
        top = float(np.abs(np.float64(mat)).max())
        tol = 20 * (coord_tol(mat, h, w) + top * (max(h, w) * 6e-7 + 1e-6))
        if mat.dtype.kind in "ui":
            info = np.iinfo(mat.dtype)
            inside = (want > info.min + 1) & (want < info.max - 1)
            close(out, want, tol + 0.5, "pixel", mask=inside)
        else:
            close(out, want, tol, "pixel")
    ev.label("order=%d" % c["order"])
    ev.label("mode=" + c["mode"])
    ev.nontrivial(span(mat) > 0 and min(h, w) > 2)


@P.sub(fixed(base=case_any, extra=st.integers(0, 4)), quick=600,
       rule="the image is not constant")
def identity_model(c, ev):
    mat, xc, yc, _ = setup(c["base"])
    fact = [1.0] + [0.0] * c["extra"]
    out = arr(post.unwarp_image_backward(mat, xc, yc, fact), mat.shape)
    close(out, np.float64(mat), 1e-6 * (1 + span(mat)) + coord_tol(
        mat, *mat.shape), "image under the identity model")
    if mat.dtype.kind in "ui":
        need(np.array_equal(out, mat), "identity changed an integer image")
    ev.nontrivial(span(mat) > 0)


@P.sub(fixed(h=st.integers(4, 40), w=st.integers(4, 40), seed=seeds,
             dist=logq(2, 300), turn=q(0, 6.25, 0.05), n=st.integers(1, 5),
             move=q(-0.4, 0.4, 0.02)),
       quick=400, rule="center more than five image sizes away")
def far_centers(c, ev):
    """A center far outside the image: the same model, sizes of its terms as
    they are near."""
    h, w = c["h"], c["w"]
    size = max(h, w)
    xc = w / 2 + c["dist"] * size * np.cos(c["turn"])
    yc = h / 2 + c["dist"] * size * np.sin(c["turn"])
    r = float(np.hypot(w / 2 - xc, h / 2 - yc))
    # the middle moves by a fraction of the image
    k = rng(c["seed"]).uniform(-1, 1, c["n"])
    k *= c["move"] * size / r / np.abs(k).sum()
    fact = [1.0] + [float(v) / r ** (i + 1) for i, v in enumerate(k)]
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    yd, xd = backward_coords(h, w, xc, yc, fact)
    for ramp, want in ((y, yd), (x, xd)):
        out = arr(post.unwarp_image_backward(ramp, xc, yc, fact), (h, w))
        close(out, want, 1e-5 * size + 1e-9 * r, "source coordinate")
    mat = image("smooth", h, w, c["seed"])
    out = arr(post.unwarp_image_backward(mat, xc, yc, fact), (h, w))
    close(out, bilinear(mat, yd, xd), coord_tol(mat, h, w) + 1e-7 * span(mat),
          "unwarped image")
    ev.nontrivial(c["dist"] > 5)


@P.sub(fixed(n=st.integers(32000, 72000), m=st.integers(1, 3), seed=seeds,
             tall=st.booleans(), fy=q(0.0, 1.0, 0.05),
             rel=mono_terms(0, 2, 0.2)), quick=24, shards=2, thorough=200,
       rule="the image has a side longer than 32767 pixels")
def very_long_images(c, ev):
    h, w = (c["n"], c["m"]) if c["tall"] else (c["m"], c["n"])
    n = np.arange(c["n"])
    prof = np.float32(np.sin(n * 0.01) * 50 + n * 0.001)
    mat = np.ascontiguousarray(np.broadcast_to(
        prof[:, None] if c["tall"] else prof[None, :], (h, w)))
    yc, xc = c["fy"] * h, c["fy"] * w
    fact = model(c["rel"], corner_radius(h, w, xc, yc))
    out = arr(post.unwarp_image_backward(mat, xc, yc, fact), (h, w))
    yd, xd = backward_coords(h, w, xc, yc, fact)
    close(out, bilinear(mat, yd, xd), 0.02, "pixel of a long image")
    ev.nontrivial(c["n"] > 32767)
    ev.label("tall", c["tall"])


@P.sub(fixed(h=st.integers(65, 1400), w=st.integers(65, 1400), seed=seeds,
             kind=st.sampled_from(["noise", "smooth", "checker"]),
             dtype=st.sampled_from(DTYPES), fx=centers, fy=centers,
             rel=rel_terms(1, 4, 0.3), k0=q(0.8, 1.2, 0.05)), quick=48,
       shards=6, thorough=600, rule="the image is not constant")
def larger_images(c, ev):
    """Sizes of real cameras (reduced)."""
    mat, xc, yc, fact = setup(dict(c, int_center=False, high=False))
    h, w = mat.shape
    out = arr(post.unwarp_image_backward(mat, xc, yc, fact), (h, w))
    yd, xd = backward_coords(h, w, xc, yc, fact)
    close(out, bilinear(mat, yd, xd), coord_tol(mat, h, w)
          + (0.5 if mat.dtype.kind in "ui" else 0.0), "unwarped pixel")
    ev.nontrivial(span(mat) > 0)
    ev.label("more than a million pixels", h * w > 1e6)
