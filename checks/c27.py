"""C27 image files."""
import os
import pathlib
from PIL import Image
from vlib import *
from checks.common import *
from checks.files import scratch
import discorpy.losa.loadersaver as losa

P = Prop("C27")
ASSUMPTIONS = ["color images have fewer channels than rows and columns",
               "JPEG judged on smooth images within 6 grey levels"]
TD = ["uint8", "uint16", "int32", "float32", "float64"]


@P.sub(fixed(h=st.integers(1, 40), w=st.integers(1, 40), seed=seeds,
             kind=st.sampled_from(IMG_KINDS), dtype=st.sampled_from(TD),
             lo=q(-500, 500, 10), hi=logq(1, 60000), view=st.booleans(),
             ext=st.sampled_from([".tif", ".tiff", ".TIF"]),
             ow=st.booleans(), as_path=st.booleans()), quick=800,
       rule="not constant")
def tiff(c, ev):
    """TIFF keeps values and shape."""
    unsigned = c["dtype"].startswith("u")
    top = 255 if c["dtype"] == "uint8" else c["hi"]
    m = image(c["kind"], c["h"], c["w"], c["seed"], c["dtype"],
              lo=0 if unsigned else c["lo"], hi=top if unsigned
              else c["lo"] + top)
    if c["view"]:
        m = np.asfortranarray(m)
    keep = m.copy()
    with scratch() as d:
        p = os.path.join(d, "a", "m" + c["ext"])
        r = losa.save_image(pathlib.Path(p) if c["as_path"] else p, m,
                            overwrite=c["ow"])
        need(os.path.realpath(r) == p, "asked for %s, wrote %s", p, r)
        got = losa.load_image(r)
        raw = np.array(Image.open(p))
    need(np.array_equal(m, keep), "save_image changed its input")
    close(got, np.float32(keep), 0, "image loaded from TIFF")
    if c["dtype"] in ("uint8", "uint16", "int32", "float32"):
        need(raw.dtype == m.dtype, "stored as %s, given %s", raw.dtype,
             m.dtype)
    ev.nontrivial(span(m) > 0)
    ev.label(c["dtype"])


def scaled(m):
    m = np.float64(m)
    return 255.0 * (m - m.min()) / (m.max() - m.min())


@P.sub(fixed(h=st.integers(1, 40), w=st.integers(1, 40), seed=seeds,
             kind=st.sampled_from(IMG_KINDS),
             dtype=st.sampled_from(TD + ["int16", "int64", "uint32"]),
             lo=q(-500, 500, 10), hi=logq(1e-3, 60000),
             ext=st.sampled_from([".png", ".bmp", ".PNG"])), quick=800,
       rule="not constant")
def eight_bit(c, ev):
    """Other formats: 8 bit, rescaled to the full range unless 8 bit."""
    unsigned = c["dtype"].startswith("u")
    top = 255 if c["dtype"] == "uint8" else c["hi"]
    m = image(c["kind"], c["h"], c["w"], c["seed"], c["dtype"],
              lo=0 if unsigned else c["lo"], hi=top if unsigned
              else c["lo"] + top)
    if span(m) == 0 and c["dtype"] != "uint8":
        if not 0 <= m.flat[0] <= 255:
            return
        m = np.round(m)
    with scratch() as d:
        p = losa.save_image(os.path.join(d, "m" + c["ext"]), m)
        got = np.float64(arr(losa.load_image(p), m.shape, "loaded image"))
    if c["dtype"] == "uint8" or span(m) == 0:
        close(got, m, 0, "image without contrast" if span(m) == 0
              else "8-bit image")
    else:
        v = scaled(m)
        close(got, v, 1.001, "rescaled image")
        mf = np.float64(m)
        need(np.all(got[mf == mf.min()] == 0) and np.all(
            got[mf == mf.max()] >= 253.999), "darkest and brightest stored as "
            "%s and %s", got[mf == mf.min()][0], got[mf == mf.max()][0])
    ev.nontrivial(span(m) > 0)


@P.sub(fixed(h=st.integers(16, 60), w=st.integers(16, 60), seed=seeds,
             dtype=st.sampled_from(["uint8", "float32", "uint16"])),
       quick=100, rule="always")
def jpeg(c, ev):
    m = image("smooth", c["h"], c["w"], c["seed"], c["dtype"])
    with scratch() as d:
        p = losa.save_image(os.path.join(d, "m.jpg"), m)
        got = np.float64(arr(losa.load_image(p), m.shape, "loaded image"))
    want = np.float64(m) if c["dtype"] == "uint8" else scaled(m)
    need(np.mean(np.abs(got - want)) < 6, "mean difference %.2f",
         np.mean(np.abs(got - want)))
    ev.nontrivial()


@P.sub(fixed(h=st.integers(5, 40), w=st.integers(5, 40), seed=seeds,
             ch=st.sampled_from([2, 3, 4]), ext=st.sampled_from([".png", ".tif"]),
             dtype=st.sampled_from(["uint8", "float32", "uint16"])),
       quick=300, rule="always")
def color(c, ev):
    g = rng(c["seed"])
    m = np.round(g.random((c["h"], c["w"], c["ch"])) * 250).astype(c["dtype"])
    with scratch() as d:
        p = losa.save_image(os.path.join(d, "m" + c["ext"]), m)
        grey = np.float64(losa.load_image(p))
        full = np.float64(losa.load_image(p, average=False))
        # a color file from elsewhere
        ref = np.uint8(m)
        Image.fromarray(ref).save(os.path.join(d, "z.tif"))
        oth = np.float64(losa.load_image(os.path.join(d, "z.tif"),
                                         average=False))
        oth_g = np.float64(losa.load_image(os.path.join(d, "z.tif")))
    close(oth, ref, 0, "color image loaded")
    close(oth_g, ref.mean(axis=2), 1e-3, "average of a color image")
    if c["ext"] == ".tif":
        close(grey, np.float64(m).mean(axis=2), 1e-3, "color image saved to "
              "TIFF (average of the channels)")
        close(full, grey, 0, "same without averaging")
    elif c["dtype"] == "uint8":
        close(full, m, 0, "color image")
        close(grey, np.float64(m).mean(axis=2), 1e-3, "average of the "
              "channels")
    elif span(m) > 0:
        close(full, scaled(m), 1.001, "rescaled color image")
        close(grey, full.mean(axis=2), 1e-3, "average of the channels")
    ev.nontrivial()


@P.sub(fixed(name=st.sampled_from(["no.png", "bad.png", "bad.tif", "d"]),
             seed=seeds), quick=30, rule="always")
def unreadable(c, ev):
    with scratch() as d:
        if c["name"].startswith("bad"):
            with open(os.path.join(d, c["name"]), "wb") as f:
                f.write(b"nothing to see")
        raises(ValueError, losa.load_image, os.path.join(d, c["name"]))
        m = np.ones((5, 5), dtype=np.uint8)
        raises(ValueError, losa.save_image, os.path.join(d, "a.nosuchext"), m)
    ev.nontrivial()


# ----------------------------------------------------------- plots

def drawn(path, h, w):
    m = np.array(Image.open(path).convert("RGBA"), dtype=np.float64)
    need(m.shape[:2] == (h, w), "plot of %dx%d pixels, asked for %dx%d",
         m.shape[0], m.shape[1], h, w)
    a = m[..., 3:] / 255.0
    m = m[..., :3] * a + 255.0 * (1 - a)
    return m, np.any(m < 200, axis=2)


@P.sub(fixed(h=st.integers(2, 6), w=st.integers(2, 6), n=st.integers(1, 8),
             dpi=st.sampled_from([50, 100]), seed=seeds,
             lines=st.booleans(), aslist=st.booleans()), quick=60, shards=4,
       rule="more than one point")
def plots(c, ev):
    """Points are drawn where they are: y down, x to the right."""
    h, w = 100 * c["h"], 100 * c["w"]
    g = rng(c["seed"])
    pts = np.stack((20 + g.random(c["n"]) * (h - 40),
                    20 + g.random(c["n"]) * (w - 40)), axis=1)
    with scratch() as d:
        p = os.path.join(d, "s", "plot.png")
        if c["lines"]:
            k = c["n"] // 2
            ls = [t for t in (pts[:k], pts[k:]) if len(t)]
            r = losa.save_plot_image(p, ls, h, w, dpi=c["dpi"])
        else:
            r = losa.save_plot_points(p, list(pts) if c["aslist"] else pts,
                                      h, w, dpi=c["dpi"], color="black")
        need(os.path.realpath(r) == p, "asked for %s, wrote %s", p, r)
        m, dark = drawn(p, h, w)
    ys, xs = np.nonzero(dark)
    need(len(ys) > 0, "nothing drawn")
    for y, x in pts:
        dd = np.hypot(ys + 0.5 - y, xs + 0.5 - x).min()
        need(dd < 2.5, "no mark within 2.5 pixels of the point (y=%.1f, "
             "x=%.1f)", y, x)
    if not c["lines"]:
        # marker size in points -> pixels
        rad = 0.5 * min(h, w) / c["dpi"] * c["dpi"] / 72.0 * 0.5 + 4
        for y, x in zip(ys, xs):
            dd = np.hypot(pts[:, 0] - y - 0.5, pts[:, 1] - x - 0.5).min()
            need(dd < rad, "a mark at (y=%d, x=%d), %.1f pixels from every "
                 "point", y, x, dd)
    ev.nontrivial(c["n"] > 1)


@P.sub(fixed(h=st.integers(2, 6), w=st.integers(2, 6), y=q(0.1, 0.9, 0.01),
             x=q(0.1, 0.9, 0.01), dpi=st.sampled_from([50, 100, 200]),
             line=st.booleans()), quick=60, shards=4, rule="always")
def one_mark(c, ev):
    """A single point, to the pixel (marks are drawn at whole pixels)."""
    h, w = 100 * c["h"], 100 * c["w"]
    y, x = c["y"] * h, c["x"] * w
    with scratch() as d:
        p = os.path.join(d, "one.png")
        if c["line"]:
            losa.save_plot_image(p, [np.array([[y, x]])], h, w, dpi=c["dpi"])
        else:
            losa.save_plot_points(p, [(y, x)], h, w, dpi=c["dpi"])
        m, _ = drawn(p, h, w)
    k = 255.0 * 3 - m.sum(axis=2)
    need(k.sum() > 0, "nothing drawn")
    yy, xx = np.mgrid[0:h, 0:w]
    gy, gx = (k * yy).sum() / k.sum(), (k * xx).sum() / k.sum()
    need(abs(gy - y) <= 0.8 and abs(gx - x) <= 0.8, "mark at pixel (y=%.2f, "
         "x=%.2f), the point is at (%.2f, %.2f)", gy, gx, y, x)
    ev.nontrivial()


@P.sub(fixed(n=st.integers(1, 12), seed=seeds, h=st.integers(3, 6),
             w=st.integers(3, 6), dpi=st.sampled_from([100, 60, 150]),
             scale=logq(0.01, 1000)), quick=40, shards=4,
       rule="two or more marks told apart")
def residual_plot(c, ev):
    """Every residual is drawn, further right for a larger radius and further
    up for a larger residual."""
    import scipy.ndimage as ndi
    g = rng(c["seed"])
    data = g.random((c["n"], 2)) * [500.0 / 24, c["scale"]]
    data[:, 0] += 500.0 / 12 * g.permutation(12)[:c["n"]]
    with scratch() as d:
        p = os.path.join(d, "s", "res.png")
        r = losa.save_residual_plot(p, data, 100 * c["h"], 100 * c["w"],
                                    dpi=c["dpi"])
        need(os.path.realpath(r) == p and os.path.isfile(p), "wrote %s", r)
        m = np.array(Image.open(p).convert("RGB")).astype(int)
    need(span(m) > 100, "nothing drawn")
    k = m.max(axis=2) - m.min(axis=2)
    lab, n = ndi.label(k > 12, np.ones((3, 3)))
    if n == 0:
        return             # drawn in shades of grey
    need(n <= c["n"], "%d marks for %d residuals", n, c["n"])
    if n == c["n"] and n > 1:
        pos = np.array(ndi.center_of_mass(k, lab, range(1, n + 1)))
        pos = pos[pos[:, 1].argsort()]
        d = data[data[:, 0].argsort()]
        if np.diff(d[:, 0]).min() < 6:
            return
        for want, got, sign, t in ((d[:, 0], pos[:, 1], 1, "radius"),
                                   (d[:, 1], pos[:, 0], -1, "residual")):
            i, j = np.argmin(want), np.argmax(want)
            need((got[j] - got[i]) * sign > 0, "%s drawn the wrong way", t)
            lin = got[i] + (want - want[i]) * (got[j] - got[i]) / (
                want[j] - want[i])
            close(got, lin, 2.0, "marks, by " + t)
        ev.nontrivial()
