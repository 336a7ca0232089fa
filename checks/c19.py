"""C19 background normalization flattens without inventing values."""
from vlib import *
from checks.common import *
from checks.dots import *
import discorpy.prep.preprocessing as prep

P = Prop("C19")
ASSUMPTIONS = ["median filter: odd sizes for the pixel-by-pixel reference",
               "FFT filter: judged against an ideal Gaussian low-pass within "
               "5 percent, away from the padded border by four times the "
               "width of the filter"]


def median_reflect(m, size):
    k = size // 2
    p = np.pad(np.float64(m), k, mode="symmetric")
    v = np.lib.stride_tricks.sliding_window_view(p, (size, size))
    return np.median(v.reshape(m.shape + (-1,)), axis=-1)


@P.sub(fixed(h=st.integers(1, 30), w=st.integers(1, 30),
             size=st.sampled_from([1, 3, 5, 7, 9, 15]), seed=seeds,
             kind=st.sampled_from(IMG_KINDS),
             dtype=st.sampled_from(["float64", "float32", "uint8", "uint16",
                                    "int32"]),
             zero=st.booleans()), quick=600, rule="background not constant")
def median(c, ev):
    m = image(c["kind"], c["h"], c["w"], c["seed"], c["dtype"])
    if c["size"] // 2 > min(m.shape):
        return
    if c["zero"]:
        m[:c["h"] // 2 + 1, :c["w"] // 2 + 1] = 0
    got = arr(prep.normalization(m, size=c["size"]), m.shape, "normalized")
    b = median_reflect(m, c["size"])
    mean = b.mean()
    if mean == 0:
        want = np.float64(m)
    else:
        want = mean * np.float64(m) / np.where(b == 0, mean, b)
    close(got, want, 1e-5 * (1 + np.abs(want).max()), "normalized image")
    ev.nontrivial(span(b) > 0)
    ev.label("zero background", bool(np.any(b == 0)))


@P.sub(fixed(h=st.integers(30, 120), w=st.integers(30, 120),
             sigma=st.integers(5, 16), pad=st.integers(0, 60), seed=seeds,
             kind=st.sampled_from(["noise", "smooth", "ramp", "const",
                                   "checker"]),
             mode=st.sampled_from(["reflect", "edge", "symmetric"]),
             dtype=st.sampled_from(["float64", "float32", "uint8"])),
       quick=400, rule="background not constant")
def fourier(c, ev):
    h, w, pad, sg = c["h"], c["w"], c["pad"], c["sigma"]
    m = image(c["kind"], h, w, c["seed"], c["dtype"], lo=20.0)
    got = np.float64(arr(prep.normalization_fft(m, sigma=sg, pad=pad,
                                                mode=c["mode"]), m.shape,
                         "normalized"))
    p = np.pad(np.float64(m), pad, mode=c["mode"])
    H, W = p.shape
    if 7 * sg > min(H, W):      # the window would be cut at the band edge
        return
    ky, kx = np.fft.fftfreq(H, 1.0 / H), np.fft.fftfreq(W, 1.0 / W)
    win = np.exp(-(ky[:, None] ** 2 + kx[None] ** 2) / (2.0 * sg * sg))
    b = np.real(np.fft.ifft2(np.fft.fft2(p) * win))[pad:pad + h, pad:pad + w]
    ok = np.zeros((h, w), dtype=bool)
    # away from the wrapped border of the padded image
    ey = max(0, int(np.ceil(4 * H / (2 * np.pi * sg))) - pad)
    ex = max(0, int(np.ceil(4 * W / (2 * np.pi * sg))) - pad)
    ok[ey:h - ey, ex:w - ex] = True
    if not ok.any():
        return
    # the mean of the background is free (it takes part in the border too)
    r = got[ok] * b[ok] / np.float64(m)[ok]
    need(np.ptp(r) <= 0.05 * np.median(r), "normalized image times the "
         "low-passed image over the image should be constant; it varies from "
         "%.4f to %.4f", r.min(), r.max())
    if ey == 0 and ex == 0:
        need(abs(np.median(r) / b.mean() - 1) <= 0.03, "level %.4f, mean "
             "background %.4f", np.median(r), b.mean())
    ev.nontrivial(span(b) > 0.05 * b.mean())


@P.sub(fixed(h=st.integers(4, 70), w=st.integers(4, 70), a=logq(1e-3, 1e3),
             seed=seeds, kind=st.sampled_from(IMG_KINDS),
             size=st.integers(1, 25), sigma=st.integers(2, 20),
             pad=st.integers(0, 40), fft=st.booleans()), quick=400,
       rule="factor other than 1")
def factor(c, ev):
    """Multiplying the image multiplies the result; an even image stays; the
    result is finite."""
    m = image(c["kind"], c["h"], c["w"], c["seed"], "float64")
    f = (lambda t: prep.normalization_fft(t, sigma=c["sigma"], pad=c["pad"])) \
        if c["fft"] else (lambda t: prep.normalization(t, size=c["size"]))
    got = arr(f(m), m.shape, "normalized")
    # an FFT background of an image with zeros may come close to zero
    if c["fft"] and np.abs(got).max() > 1e4 * (1 + np.abs(m).max()):
        return
    lim = 1e-6 * (1e-12 + np.abs(got).max()) + (
        1e-9 * np.abs(m).max() if c["fft"] else 0)
    if not (c["fft"] and c["kind"] == "spike"):
        close(f(c["a"] * m) / c["a"], got, lim * 10, "image times %g" % c["a"])
        if c["fft"] or c["size"] % 2:
            close(-f(-m), got, lim * 10, "image of the opposite sign")
    even = np.full(m.shape, c["a"])
    # (the border of the padded image does not reach the image)
    wide = 0.64 * (max(m.shape) + 2 * c["pad"]) / c["sigma"]
    if not c["fft"] or (wide <= c["pad"] and 7 * c["sigma"] <= min(
            m.shape) + 2 * c["pad"]):
        close(f(even), even, (1e-2 if c["fft"] else 1e-6) * c["a"],
              "even image")
    ev.nontrivial(c["a"] != 1)


@P.sub(fixed(nh=st.integers(5, 9), nv=st.integers(5, 9),
             r=st.sampled_from([3.0, 4.0]), gap=q(3.6, 5, 0.2),
             gy=q(-0.6, 0.6, 0.05), gx=q(-0.6, 0.6, 0.05),
             dark=st.booleans()), quick=60, shards=2,
       rule="illumination varies by more than 20 percent")
def illumination(c, ev):
    """Uneven illumination is removed and the contrast of dots kept."""
    g, h, w = grid_in_image(c["nh"], c["nv"], c["gap"] * c["r"], 0.0,
                            c["r"] + 5)
    f = disc_field(h, w, g.reshape(-1, 2), c["r"])
    bg, fg = (100.0, 40.0) if c["dark"] else (100.0, 160.0)
    m = lit(f, bg, fg, c["gy"] * 0.7, c["gx"] * 0.7, 0.0, 0)
    size = int(4 * c["r"]) * 2 + 1
    got = np.float64(arr(prep.normalization(m, size=size), m.shape,
                         "normalized"))
    k = size // 2
    inner = np.zeros((h, w), dtype=bool)
    inner[k:h - k, k:w - k] = True
    a, b = got[inner & (f < 0.01)], got[inner & (f > 0.99)]
    if not len(a) or not len(b):
        return
    need(np.ptp(a) <= 0.12 * np.median(a), "background varies from %.2f to "
         "%.2f after normalization", a.min(), a.max())
    q_ = np.median(b) / np.median(a)
    need(abs(q_ - fg / bg) <= 0.12 * fg / bg, "contrast %.3f after "
         "normalization, %.3f before", q_, fg / bg)
    ev.nontrivial(max(abs(c["gx"]), abs(c["gy"])) * 0.7 > 0.2)
