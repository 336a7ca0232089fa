"""C02 every entry point that unwarps with a backward model gives the same
answer: whole image, single slice, chunk of slices, colour channels, OpenCV."""
from vlib import *
from checks.common import *
import discorpy.post.postprocessing as post
import discorpy.util.utility as util
import os
import h5py
from checks.files import scratch

P = Prop("C02")
ASSUMPTIONS = ["models keep the radial order of pixels (r F(r) increasing), "
               "as a physical lens model does",
               "cv2.remap interpolates with weights quantised to 1/32 px"]

base = dict(h=st.integers(1, 40), w=st.integers(1, 40), depth=st.integers(1, 4),
            kind=st.sampled_from(IMG_KINDS[:5]),
            dtype=st.sampled_from(DTYPES), seed=seeds,
            fx=centers, fy=centers, k0=q(0.8, 1.2, 0.05),
            rel=mono_terms(0, 4, 0.6))


def volume(c, depth):
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    fact = model(c["rel"], corner_radius(h, w, xc, yc), c["k0"])
    lo = -90.0 if np.dtype(c["dtype"]).kind in "fi" else 0.0
    vol = np.asarray([image(c["kind"], h, w, c["seed"] + k, c["dtype"], lo=lo)
                      for k in range(depth)])
    return vol, xc, yc, fact


def tol_of(vol):
    t = 2 * coord_tol(vol, vol.shape[-2], vol.shape[-1])
    return t + (0.5 if vol.dtype.kind in "ui" else 0.0)


@P.sub(fixed(pos=q(0, 1, 0.02), **base), quick=1500, shards=2,
       rule="non-constant data, height and width above 1")
def slice_equals_image_row(c, ev):
    vol, xc, yc, fact = volume(c, c["depth"])
    d, h, w = vol.shape
    i = int(round(c["pos"] * (h - 1)))
    out = arr(post.unwarp_slice_backward(vol, xc, yc, fact, i), (d, w),
              "slice")
    yd, xd = backward_coords(h, w, xc, yc, fact, rows=[i])
    want = np.asarray([bilinear(m, yd, xd)[0] for m in vol])
    close(out, want, tol_of(vol) + 1e-6 * np.abs(want).max(), "slice %d" % i)
    ev.nontrivial(span(vol) > 0 and min(h, w) > 1)
    ev.label("first or last row", i in (0, h - 1))
    ev.label("depth>1", d > 1)


@P.sub(fixed(a=q(0, 1, 0.02), b=q(0, 1, 0.02),
             last=st.sampled_from(["index", "index", "-1"]), **base),
       quick=1500, shards=2,
       rule="non-constant data and more than one slice in the chunk")
def chunk_equals_image_rows(c, ev):
    vol, xc, yc, fact = volume(c, c["depth"])
    d, h, w = vol.shape
    i, j = sorted(int(round(t * (h - 1))) for t in (c["a"], c["b"]))
    stop = j
    if c["last"] == "-1":
        j, stop = h - 1, -1
    out = post.unwarp_chunk_slices_backward(vol, xc, yc, fact, i, stop)
    out = arr(out, (d, j - i + 1, w), "chunk")
    yd, xd = backward_coords(h, w, xc, yc, fact, rows=np.arange(i, j + 1))
    want = np.asarray([bilinear(m, yd, xd) for m in vol])
    close(out, want, tol_of(vol), "chunk %d..%d" % (i, j))
    ev.nontrivial(span(vol) > 0 and j > i)
    ev.label("stop=-1", stop == -1)
    ev.label("whole volume", i == 0 and j == h - 1)


@P.sub(fixed(h=st.integers(34000, 70000), w=st.integers(1, 4),
             where=st.sampled_from(["last", "any", "first"]),
             pos=q(0, 1, 0.001), n=st.integers(1, 6), fy=centers,
             rel=mono_terms(0, 2, 0.05)), quick=40, shards=2, thorough=400,
       rule="rows beyond 32767 are selected")
def tall_data(c, ev):
    h, w = c["h"], c["w"]
    n = np.arange(h)
    prof = np.float32(np.sin(n * 0.01) * 50 + n * 0.001)
    vol = np.ascontiguousarray(
        np.broadcast_to(prof[None, :, None], (2, h, w)))
    yc, xc = c["fy"] * h, 0.5 * w
    fact = model(c["rel"], corner_radius(h, w, xc, yc))
    i = {"last": h - c["n"], "first": 0,
         "any": int(c["pos"] * (h - c["n"]))}[c["where"]]
    j = i + c["n"] - 1
    out = arr(post.unwarp_chunk_slices_backward(vol, xc, yc, fact, i, j),
              (2, c["n"], w), "chunk")
    yd, xd = backward_coords(h, w, xc, yc, fact, rows=np.arange(i, j + 1))
    want = np.asarray([bilinear(m, yd, xd) for m in vol])
    close(out, want, 0.02, "chunk of tall data")
    one = arr(post.unwarp_slice_backward(vol, xc, yc, fact, j), (2, w))
    close(one, want[:, -1], 0.02, "slice of tall data")
    ev.nontrivial(j > 32767)


@P.sub(fixed(nch=st.integers(0, 5), order=st.integers(0, 3),
             mode=st.sampled_from(["reflect", "nearest", "constant",
                                   "mirror"]), **base),
       quick=900, shards=2, rule="colour image (2 to 5 channels)")
def colour_is_per_channel(c, ev):
    vol, xc, yc, fact = volume(c, max(c["nch"], 1))
    mat = np.moveaxis(vol, 0, 2) if c["nch"] else vol[0]
    out = util.unwarp_color_image_backward(mat, xc, yc, fact,
                                           order=c["order"], mode=c["mode"])
    out = arr(out, mat.shape, "colour image")
    need(out.dtype == mat.dtype, "dtype changed")
    chans = [out] if not c["nch"] else np.moveaxis(out, 2, 0)
    tol = 4 * tol_of(vol)
    for k, ch in enumerate(chans):
        ref = post.unwarp_image_backward(vol[k], xc, yc, fact,
                                         order=c["order"], mode=c["mode"])
        close(ch, np.float64(ref), tol, "channel %d" % k)
    ev.nontrivial(c["nch"] > 1)
    ev.label("channels=%d" % c["nch"])


cv_base = dict(base, dtype=st.sampled_from(["uint8", "uint16", "int16",
                                            "float32", "float64"]))


@P.sub(fixed(nch=st.sampled_from([0, 0, 2, 3, 3, 4]), **cv_base), quick=800,
       shards=2, rule="non-constant data")
def opencv_agrees(c, ev):
    vol, xc, yc, fact = volume(c, max(c["nch"], 1))
    mat = np.ascontiguousarray(np.moveaxis(vol, 0, 2)) if c["nch"] else vol[0]
    h, w = mat.shape[:2]
    out = arr(util.unwarp_image_backward_cv2(mat, xc, yc, fact), mat.shape,
              "OpenCV image")
    yd, xd = backward_coords(h, w, xc, yc, fact)
    chans = [out] if not c["nch"] else np.moveaxis(out, 2, 0)
    for k, ch in enumerate(chans):
        close(ch, bilinear(vol[k], yd, xd),
              span(vol[k]) / 14.0 + 1.01 * (vol.dtype.kind in "ui") + 1e-3,
              "OpenCV channel %d" % k)
    ev.nontrivial(span(vol) > 0)
    ev.label("colour", c["nch"] > 0)


@P.sub(fixed(h=st.integers(30, 60), w=st.integers(30, 60), seed=seeds,
             fx=centers, fy=centers, k0=q(0.8, 1.2, 0.05),
             rel=mono_terms(0, 4, 0.6)), quick=300,
       rule="every case")
def opencv_agrees_on_smooth_images(c, ev):
    """Slow images leave no room for a shifted or scaled map to hide in the
    interpolation tolerance."""
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    fact = model(c["rel"], corner_radius(h, w, xc, yc), c["k0"])
    y, x = np.mgrid[0:h, 0:w]
    mat = np.float32(3.0 * y + 100.0 * x)
    out = arr(util.unwarp_image_backward_cv2(mat, xc, yc, fact), mat.shape)
    yd, xd = backward_coords(h, w, xc, yc, fact)
    close(out, 3.0 * yd + 100.0 * xd, 0.04 * 103, "source coordinate")
    mat = np.float32(100.0 * y + 3.0 * x)
    out = arr(util.unwarp_image_backward_cv2(mat, xc, yc, fact), mat.shape)
    close(out, 100.0 * yd + 3.0 * xd, 0.04 * 103, "source coordinate")
    ev.nontrivial()


@P.sub(fixed(h=st.integers(6, 40), w=st.integers(6, 40), seed=seeds,
             fx=centers, fy=centers, k0=q(0.8, 1.2, 0.05),
             rel=mono_terms(0, 4, 0.6), nch=st.sampled_from([0, 3]),
             dtype=st.sampled_from(["uint8", "float32"])), quick=300,
       rule="non-constant data")
def opencv_interpolation(c, ev):
    """The method asked for is the one used: nearest gives values of the image
    next to the source position."""
    import cv2
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    fact = model(c["rel"], corner_radius(h, w, xc, yc), c["k0"])
    vol = np.stack([image("noise", h, w, c["seed"] + i, c["dtype"])
                    for i in range(max(1, c["nch"]))], 2)
    mat = vol if c["nch"] else np.ascontiguousarray(vol[..., 0])
    out = arr(util.unwarp_image_backward_cv2(mat, xc, yc, fact,
                                             method=cv2.INTER_NEAREST),
              mat.shape, "nearest")
    yd, xd = backward_coords(h, w, xc, yc, fact)
    out = out.reshape(h, w, -1)
    ok = np.zeros((h, w), bool)
    for a in (-0.02, 0.02):
        for b in (-0.02, 0.02):
            yi = np.clip(np.round(yd + a), 0, h - 1).astype(int)
            xi = np.clip(np.round(xd + b), 0, w - 1).astype(int)
            ok |= np.all(out == vol[yi, xi], axis=2)
    need(ok.all(), "%d pixels are not the nearest one of the image",
         int((~ok).sum()))
    # other methods and borders: those of OpenCV at these positions
    how, edge = [(cv2.INTER_CUBIC, cv2.BORDER_REFLECT),
                 (cv2.INTER_CUBIC, cv2.BORDER_REPLICATE),
                 (cv2.INTER_LANCZOS4, cv2.BORDER_CONSTANT),
                 (cv2.INTER_LANCZOS4, cv2.BORDER_REFLECT)][c["seed"] % 4]
    out = arr(util.unwarp_image_backward_cv2(mat, xc, yc, fact, method=how,
                                             border=edge), mat.shape)
    best = np.full(mat.shape, np.inf)
    for a in (-1e-3, 0.0, 1e-3):
        for b in (-1e-3, 0.0, 1e-3):
            t = cv2.remap(mat, np.float32(xd + b), np.float32(yd + a), how,
                          borderMode=edge)
            best = np.minimum(best, np.abs(np.float64(t) - out))
    need(best.max() <= 1e-3 * 256, "pixels differ by %g from OpenCV's at the "
         "same positions (method %d, border %d)", best.max(), how, edge)
    # a map given by hand; beyond the border 0, or the border if asked
    g = rng(c["seed"])
    ym = np.float32(g.integers(-3, h + 3, (5, 7)))
    xm = np.float32(g.integers(-3, w + 3, (5, 7)))
    inside = (ym >= 0) & (ym < h) & (xm >= 0) & (xm < w)
    yi = np.clip(ym, 0, h - 1).astype(int)
    xi = np.clip(xm, 0, w - 1).astype(int)
    val = mat[yi, xi]
    got = util.mapping_cv2(mat, xm, ym, border=cv2.BORDER_REPLICATE)
    close(got, val, 1e-4, "map with replicated border")
    got = util.mapping_cv2(mat, xm, ym)
    val = np.where(inside[..., None] if c["nch"] else inside, val, 0)
    close(got, val, 1e-4, "map with constant border")
    ev.nontrivial(span(mat) > 0)


@P.sub(fixed(h=st.integers(2, 20), w=st.integers(2, 20), d=st.integers(1, 3),
             over=st.integers(0, 5), which=st.sampled_from(
                 ["stop", "start", "neg", "dim-slice", "dim-chunk"])),
       quick=200, rule="every case (all are invalid requests)")
def invalid_requests_are_refused(c, ev):
    vol = np.ones((c["d"], c["h"], c["w"]), np.float32)
    h = c["h"]
    args = (0.5 * c["w"], 0.5 * h, [1.0, 0.0])
    f = post.unwarp_chunk_slices_backward
    if c["which"] == "stop":
        raises(ValueError, f, vol, *args, 0, h + c["over"])
    elif c["which"] == "start":
        raises(ValueError, f, vol, *args, h + c["over"], h - 1)
    elif c["which"] == "neg":
        raises(ValueError, f, vol, *args, -1 - c["over"], h - 1)
    elif c["which"] == "dim-slice":
        raises(ValueError, post.unwarp_slice_backward, vol[0], *args, 0)
    else:
        raises(ValueError, f, vol[0], *args, 0, h - 1)
    ev.label(c["which"])
    ev.nontrivial()


@P.sub(fixed(h=st.integers(41, 400), w=st.integers(41, 400),
             depth=st.integers(1, 12), seed=seeds, fx=centers, fy=centers,
             kind=st.sampled_from(["noise", "smooth"]),
             dtype=st.sampled_from(DTYPES), k0=q(0.8, 1.2, 0.05),
             rel=mono_terms(1, 4, 0.6), a=q(0, 1, 0.01), b=q(0, 1, 0.01),
             how=st.sampled_from(["array", "hdf", "view"])), quick=48,
       shards=4, thorough=600, rule="several slices asked for")
def larger_data(c, ev):
    """Larger stacks, also left on disk (HDF dataset) or seen through a
    transposed view; indices as numpy integers."""
    vol, xc, yc, fact = volume(c, c["depth"])
    d, h, w = vol.shape
    i, j = sorted(int(round(t * (h - 1))) for t in (c["a"], c["b"]))
    yd, xd = backward_coords(h, w, xc, yc, fact, rows=np.arange(i, j + 1))
    want = np.asarray([bilinear(m, yd, xd) for m in vol])
    with scratch() as tmp:
        src = vol
        if c["how"] == "hdf":
            f = h5py.File(os.path.join(tmp, "v.h5"), "w")
            src = f.create_dataset("entry/data", data=vol)
        elif c["how"] == "view":
            src = np.ascontiguousarray(vol.transpose(1, 0, 2)).transpose(
                1, 0, 2)
        out = arr(post.unwarp_chunk_slices_backward(
            src, xc, yc, fact, np.int64(i), np.int64(j)), (d, j - i + 1, w))
        one = arr(post.unwarp_slice_backward(src, xc, yc, fact, np.int64(i)),
                  (d, w))
        if c["how"] == "hdf":
            f.close()
    close(out, want, tol_of(vol), "chunk %d..%d" % (i, j))
    close(one, want[:, 0], tol_of(vol) + 1e-6 * np.abs(want).max(),
          "slice %d" % i)
    ev.nontrivial(j > i)
    ev.label(c["how"])
