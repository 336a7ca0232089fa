"""C03 padding keeps the view: it only enlarges the canvas."""
from vlib import *
from checks.common import *
import discorpy.post.postprocessing as post
import discorpy.util.utility as util

P = Prop("C03")
ASSUMPTIONS = ["numpy.pad defines the padded values of each pad mode"]
PADM = ["constant", "edge", "reflect", "linear_ramp", "mean", "symmetric"]

pads = st.one_of(
    st.integers(0, 12),
    st.lists(st.integers(0, 12), min_size=4, max_size=4))
base = dict(h=st.integers(2, 36), w=st.integers(2, 36), nch=st.sampled_from(
    [0, 0, 3, 4]), seed=seeds, dtype=st.sampled_from(["float32", "float64",
                                                      "uint8", "uint16"]),
            fx=centers, fy=centers, k0=q(0.8, 1.2, 0.05),
            rel=mono_terms(0, 4, 0.6))


def build(c):
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    fact = model(c["rel"], corner_radius(h, w, xc, yc), c["k0"])
    if c["nch"]:
        mat = np.stack([image("noise", h, w, c["seed"] + k, c["dtype"])
                        for k in range(c["nch"])], axis=2)
    else:
        mat = image("noise", h, w, c["seed"], c["dtype"])
    return mat, xc, yc, fact


def four(pad):
    return (pad,) * 4 if isinstance(pad, int) else tuple(pad)


def chans(m):
    return [m] if m.ndim == 2 else list(np.moveaxis(m, 2, 0))


@P.sub(fixed(pad=pads, as_tuple=st.booleans(), pmode=st.sampled_from(PADM),
             cv=st.booleans(), **base), quick=1500, shards=3,
       rule="a non-zero pad; 'asymmetric' has four different sides")
def padded_equals_unwarping_the_padded_image(c, ev):
    mat, xc, yc, fact = build(c)
    t, b, l, r = four(c["pad"])
    pad = tuple(c["pad"]) if isinstance(c["pad"], list) and c["as_tuple"] \
        else c["pad"]
    f = util.unwarp_image_backward_cv2 if c["cv"] \
        else util.unwarp_color_image_backward
    if c["cv"]:
        mat = np.ascontiguousarray(mat)
    out = f(mat, xc, yc, fact, pad=pad, pad_mode=c["pmode"])
    pw = [(t, b), (l, r)] + [(0, 0)] * (mat.ndim - 2)
    big = np.pad(mat, pw, mode=c["pmode"])
    out = arr(out, big.shape, "padded result")
    h, w = big.shape[:2]
    yd, xd = backward_coords(h, w, xc + l, yc + t, fact)
    for k, (o, m) in enumerate(zip(chans(out), chans(big))):
        tol = coord_tol(m, h, w) + 0.5 * (mat.dtype.kind in "ui")
        if c["cv"]:
            tol = span(m) / 14.0 + 1.01 * (mat.dtype.kind in "ui") + 1e-3
        close(o, bilinear(m, yd, xd), tol, "padded pixel, channel %d" % k)
    ev.nontrivial(max(t, b, l, r) > 0)
    ev.label("asymmetric", len({t, b, l, r}) == 4)
    ev.label("opencv", c["cv"])


@P.sub(fixed(pad=pads, **base), quick=800, shards=2,
       rule="non-zero pad and at least a quarter of the original pixels take "
            "their value from inside the image")
def crop_of_padded_is_the_unpadded_result(c, ev):
    mat, xc, yc, fact = build(c)
    h, w = mat.shape[:2]
    t, b, l, r = four(c["pad"])
    big = arr(util.unwarp_color_image_backward(mat, xc, yc, fact,
                                               pad=c["pad"]),
              (h + t + b, w + l + r) + mat.shape[2:])
    ref = arr(util.unwarp_color_image_backward(mat, xc, yc, fact), mat.shape)
    yu = np.arange(h)[:, None] - yc
    xu = np.arange(w)[None, :] - xc
    f = factor(np.hypot(xu, yu), fact)
    yd, xd = yc + f * yu, xc + f * xu
    inside = (yd >= 0) & (yd <= h - 1) & (xd >= 0) & (xd <= w - 1)
    if mat.ndim == 3:
        inside = inside[:, :, None] & np.ones(mat.shape, bool)
    close(big[t:t + h, l:l + w], np.float64(ref),
          2 * coord_tol(mat, *big.shape[:2]) + (mat.dtype.kind in "ui"),
          "kept view", mask=inside)
    ev.nontrivial(max(t, b, l, r) > 0 and inside.mean() > 0.25)


def inverse_slack(h, w, xc, yc, fact, rd, ru):
    """How far off a polynomial inverse of the same degree, fitted over the
    pixels of the image, puts the corners; plus 2 px for the rounding of the
    pad widths to whole pixels."""
    yy, xx = np.meshgrid(np.linspace(0, h, 40) - yc,
                         np.linspace(0, w, 40) - xc)
    r1 = np.hypot(xx, yy).ravel()
    F = factor(r1, fact)
    s = np.max(F * r1)
    A = (F * r1 / s)[:, None] ** np.arange(len(fact))
    coef = np.linalg.lstsq(A, 1.0 / F, rcond=None)[0]
    fit = factor(rd / s, coef)
    return float(np.max(np.abs(fit * rd - ru)) + 2.05)


@P.sub(fixed(h=st.integers(40, 120), w=st.integers(40, 120),
             fx=q(0.3, 0.7, 0.01), fy=q(0.3, 0.7, 0.01),
             rel=mono_terms(1, 2, 0.45), k0=q(0.9, 1.1, 0.02),
             cv=st.booleans(), nch=st.sampled_from([0, 3])), quick=500,
       shards=2, rule="the unwarped view is larger than the image (some side "
                      "must be padded by 3 px or more)")
def automatic_pad_holds_the_whole_view(c, ev):
    """pad=True: the canvas holds the unwarped position of all four corners
    of the image, and no more than that (2 px plus the error of the inverse
    polynomial)."""
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    R = corner_radius(h + 1, w + 1, xc, yc)
    fact = model(c["rel"], R, c["k0"])
    # inverse at the corners, by bisection; the model must stay monotone on
    # the way there
    corners = np.float64([(0, 0), (0, w - 1), (h - 1, 0), (h - 1, w - 1)])
    d = corners - [yc, xc]
    rd = np.hypot(d[:, 0], d[:, 1])
    rr = np.linspace(0, 2.0 * R, 400)
    g = rr * factor(rr, fact)
    up = np.diff(g) > 0.3 * (rr[1] - rr[0])
    lim = rr[-1] if up.all() else rr[np.argmin(up)]
    if lim * factor(lim, fact) < rd.max() * 1.02:
        return                                  # no inverse at the corners
    ru = invert_radius(rd, fact, lim)
    pu = [yc, xc] + d * (ru / np.maximum(rd, 1e-9))[:, None]
    slack = inverse_slack(h, w, xc, yc, fact, rd, ru)
    mat = np.zeros((h, w) + ((c["nch"],) if c["nch"] else ()), np.float32)
    mat[0, 0] = 1
    f = util.unwarp_image_backward_cv2 if c["cv"] \
        else util.unwarp_color_image_backward
    out = f(mat, xc, yc, fact, pad=True)
    ph, pw = out.shape[:2]
    # Total padding per axis; the split is checked through the image content
    # by the next sub-check.
    left, right = max(0, -pu[:, 1].min()), max(0, pu[:, 1].max() - (w - 1))
    top, bot = max(0, -pu[:, 0].min()), max(0, pu[:, 0].max() - (h - 1))
    need(abs((pw - w) - (left + right)) <= 2 * slack,
         "automatic pad widens the image by %d, the unwarped view needs %.2f",
         pw - w, left + right)
    need(abs((ph - h) - (top + bot)) <= 2 * slack,
         "automatic pad heightens the image by %d, the unwarped view needs "
         "%.2f", ph - h, top + bot)
    ev.label("grows", pw > w or ph > h)
    ev.label("opencv", c["cv"])
    ev.nontrivial(max(left, right, top, bot) >= 3 and slack < 4)


@P.sub(fixed(h=st.integers(50, 120), w=st.integers(50, 120),
             fx=q(0.35, 0.65, 0.01), fy=q(0.35, 0.65, 0.01),
             e=q(-0.12, 0.12, 0.01), k0=q(0.94, 1.06, 0.02),
             cv=st.booleans()), quick=400, shards=2,
       rule="the canvas grows on at least one side")
def automatic_pad_places_content(c, ev):
    """The content of the padded result sits where the model, shifted by the
    top/left pad, puts it; and each side is padded by what it needs."""
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    R = corner_radius(h, w, xc, yc)
    fact = [c["k0"], 0.0, c["e"] / R ** 2]
    y, x = np.mgrid[0:h, 0:w]
    f = util.unwarp_image_backward_cv2 if c["cv"] \
        else util.unwarp_color_image_backward
    # constant padding -1 is told apart from the ramps (>= 1)
    outs = [np.float64(f(np.float32(m + 1.0), xc, yc, fact, pad=True,
                         pad_mode="edge")) for m in (y, x)]
    ph, pw = outs[0].shape[:2]
    corners = np.float64([(0, 0), (0, w - 1), (h - 1, 0), (h - 1, w - 1)])
    d = corners - [yc, xc]
    rd = np.hypot(d[:, 0], d[:, 1])
    ru = invert_radius(rd, fact, 1.6 * R)
    if np.max(np.abs(ru * factor(ru, fact) - rd)) > 1e-3:
        return
    pu = [yc, xc] + d * (ru / rd)[:, None]
    want = dict(l=max(0, -pu[:, 1].min()), r=max(0, pu[:, 1].max() - w + 1),
                t=max(0, -pu[:, 0].min()), b=max(0, pu[:, 0].max() - h + 1))
    slack = inverse_slack(h, w, xc, yc, fact, rd, ru)
    n = int(slack) + 5
    # find (t, l): the shift for which the model explains the content
    best = None
    for t in range(max(0, int(want["t"]) - n), int(want["t"]) + n):
        for l in range(max(0, int(want["l"]) - n), int(want["l"]) + n):
            if t > ph - h or l > pw - w:
                continue
            yd, xd = backward_coords(ph, pw, xc + l, yc + t, fact)
            e = max(np.max(np.abs(np.clip(yd - t, 0, h - 1) + 1 - outs[0])),
                    np.max(np.abs(np.clip(xd - l, 0, w - 1) + 1 - outs[1])))
            if best is None or e < best[0]:
                best = (e, t, l)
    need(best is not None and best[0] < 0.06, "content of the padded image "
         "does not follow the model for any pad near the needed one "
         "(needed %s, canvas %dx%d, best error %s)", want, ph, pw, best)
    _, t, l = best
    got = dict(t=t, l=l, b=ph - h - t, r=pw - w - l)
    for k in "tblr":
        need(abs(got[k] - want[k]) <= slack, "pad %s is %d, the view needs %.2f",
             k, got[k], want[k])
    ev.nontrivial(max(got.values()) > 0)
    ev.label("all sides", min(got.values()) > 0)


@P.sub(fixed(pad=st.sampled_from(["x", None, 1.5, [1, 2, 3], [1],
                                  [1, 2, 3, 4, 5]]), cv=st.booleans()),
       quick=30, rule="every case (invalid pad)")
def invalid_pad_is_refused(c, ev):
    f = util.unwarp_image_backward_cv2 if c["cv"] \
        else util.unwarp_color_image_backward
    raises(ValueError, f, np.ones((8, 9), np.float32), 4.0, 4.0, [1.0, 0.0],
           pad=c["pad"])
    ev.nontrivial()
