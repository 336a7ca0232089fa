"""C15 dot images yield every dot at its centroid, with true size/spacing."""
from vlib import *
from checks.common import *
from checks.dots import *
import discorpy.prep.preprocessing as prep

P = Prop("C15")
ASSUMPTIONS = ["dots cover less than 45 % of the image, are at least 3 px in "
               "radius, and differ from the background by more than its "
               "unevenness",
               "the 2x2 median of the denoising may move all dots by up to "
               "half a pixel together",
               "slopes: the region used spans at least 7.5 dot spacings both "
               "ways and the tilt is below 0.2 (larger ones are closer to "
               "the diagonal of the grid)"]

pattern = dict(
    nh=st.integers(7, 13), nv=st.integers(7, 13), r=q(3, 7, 0.25),
    gap=q(2.9, 6, 0.1), tilt=q(-0.2, 0.2, 0.01), jx=q(0, 1, 0.05),
    jy=q(0, 1, 0.05), asp=st.sampled_from([1.0, 1.0, 1.15]),
    edge=st.integers(0, 15), bg=q(0, 1, 0.05), fg=q(0, 1, 0.05),
    top=st.sampled_from([1.0, 255.0, 40000.0]), gy=q(-0.2, 0.2, 0.02),
    gx=q(-0.2, 0.2, 0.02), noise=st.sampled_from([0.0, 0.0, 0.01, 0.03]),
    seed=seeds)


def draw(c):
    """(image, true centers (nh, nv, 2)); dots cut by the edge on the sides
    in c['edge'] (bits)."""
    r = c["r"]
    d = c["gap"] * r
    tilt = c["tilt"]
    g, h, w = grid_in_image(c["nh"], c["nv"], d, tilt, r + 6, c["asp"],
                            c["jx"], c["jy"])
    extra = []
    step = int(3 * r + 4)
    if c["edge"] & 1:
        extra += [(0.5, x) for x in range(step, w - step, step)]
    if c["edge"] & 2:
        extra += [(h - 1.5, x) for x in range(step, w - step, step)]
    if c["edge"] & 4:
        extra += [(y, 0.5) for y in range(step, h - step, step)]
    if c["edge"] & 8:
        extra += [(y, w - 1.5) for y in range(step, h - step, step)]
    flat = g.reshape(-1, 2)
    extra = [e for e in extra
             if np.hypot(*(flat - e).T).min() > 2 * r + 4]
    f = disc_field(h, w, np.concatenate((flat, np.reshape(extra, (-1, 2)))), r)
    bg, fg = c["bg"], c["fg"]
    if abs(bg - fg) < 0.45:                   # enough contrast
        fg = bg + 0.5 if bg <= 0.5 else bg - 0.5
    # unevenness well below the contrast
    k = min(1.0, 0.35 * abs(bg - fg) / (0.4 * max(bg, fg)))
    m = lit(f, bg * c["top"], fg * c["top"], c["gy"] * k, c["gx"] * k,
            c["noise"], c["seed"])
    return m, g, len(extra), f


@P.sub(fixed(ratio=q(0.4, 1.0, 0.1), denoise=st.booleans(),
             given=st.booleans(), dtype=st.sampled_from(
                 ["float64", "float32", "uint8", "uint16", "int32"]),
             **pattern), quick=160, shards=4,
       rule="uneven, noisy or edge-cut dots")
def every_dot_once(c, ev):
    m, g, nextra, f = draw(c)
    if c["dtype"] in ("uint8", "uint16", "int32"):
        if c["top"] == 1.0 or (c["dtype"] == "uint8" and c["top"] > 255):
            m = m / c["top"] * 200
        m = np.round(m)
    if c["dtype"] == "uint8":
        m = np.clip(m, 0, 255)
    if c["dtype"] == "uint16":
        m = np.clip(m, 0, 65535)
    m = m.astype(c["dtype"])
    truth = g.reshape(-1, 2)
    lo, hi = [float(np.float64(m)[k].mean()) for k in (f < 0.01, f > 0.99)]
    thres = (lo + hi) / 2 if c["given"] else None
    if f.mean() > 0.45:
        return
    binary = arr(prep.binarization(m, ratio=c["ratio"], thres=thres,
                                   denoise=c["denoise"]), m.shape, "binary")
    need(set(np.unique(binary).tolist()) == {0, 1}, "binary image has the "
         "values %s", np.unique(binary)[:5])
    if c["noise"] and not c["denoise"] and c["noise"] > 0.02:
        return
    pts = prep.get_points_dot_pattern(binary, binarize=False)
    off = match(pts, truth)
    spread = np.abs(off - np.median(off, axis=0)).max()
    need(np.abs(np.median(off, axis=0)).max() <= (0.9 if c["denoise"]
                                                  else 0.4),
         "dots are shifted by %s", np.median(off, axis=0))
    need(spread <= 0.6, "a dot is off by %.3f px", spread)
    area = np.pi * c["r"] ** 2
    sizes = float(binary.sum()) / len(truth)
    need(0.75 * area - 4 <= sizes <= 1.3 * area + 4, "dots have %.1f pixels "
         "on average, a disc of this radius %.1f", sizes, area)
    if c["denoise"]:
        p2 = prep.get_points_dot_pattern(m, ratio=c["ratio"], thres=thres)
        close(sort_rows(p2), sort_rows(pts), 1e-6, "points from the gray and "
              "from the binary image")
    need(prep.check_num_dots(binary) in (False, np.False_), "%d dots judged "
         "too few", len(truth))
    ev.nontrivial(bool(c["gx"] or c["gy"] or c["noise"] or nextra))
    ev.label("bright dots", hi > lo)
    ev.label("edge dots", nextra > 0)


@P.sub(fixed(nh=st.integers(5, 9), nv=st.integers(5, 9), r=q(7, 11, 0.5),
             gap=q(2.7, 4, 0.1), tilt=q(-0.15, 0.15, 0.01), hole=q(0.2, 1, 0.1),
             out=q(0, 1, 0.1), turn=q(0, 6.25, 0.25), denoise=st.booleans(),
             dark=st.booleans(), ratio=q(0.5, 1, 0.1)), quick=60,
       rule="hole off the middle")
def holes_are_filled(c, ev):
    """A glint inside a dot is filled: the dot stays whole and centered."""
    r = c["r"]
    g, h, w = grid_in_image(c["nh"], c["nv"], c["gap"] * r, c["tilt"], r + 5)
    flat = g.reshape(-1, 2)
    hole = 1.6 + c["hole"] * (r - 6)
    off = c["out"] * (r - 4 - hole)
    move = off * np.array([np.sin(c["turn"]), np.cos(c["turn"])])
    full = disc_field(h, w, flat, r)
    f = full - disc_field(h, w, flat + move, hole)
    m = 220 - 180 * f if c["dark"] else 40 + 180 * f
    b = arr(prep.binarization(m, ratio=c["ratio"], denoise=c["denoise"]),
            m.shape, "binary")
    d = match(prep.get_points_dot_pattern(b, binarize=False), flat)
    need(np.abs(d).max() <= 1.2, "a dot with a hole is off by %.2f px",
         np.abs(d).max())
    core = disc_field(h, w, flat, r - 2.5) > 0.5
    need(np.all(b[core] == 1), "%d pixels inside the dots are not set",
         int((b[core] != 1).sum()))
    ev.nontrivial(off >= 0.5)


@P.sub(fixed(nh=st.integers(6, 16), nv=st.integers(6, 16),
             r=st.sampled_from([2.3, 3.3, 4.3, 5.4]), d=st.integers(14, 30),
             dx=st.integers(-4, 8), ratio=q(0.3, 1.0, 0.05),
             other=st.sampled_from([0.0, -1.0, 1.2]), m=st.integers(8, 25)),
       quick=300, rule="dots of another size outside the region")
def size_and_distance(c, ev):
    """Equal dots on an integer lattice: exact size and spacing. Dots outside
    the middle region, given by the ratio, do not count."""
    d, dx = c["d"], max(14, c["d"] + c["dx"])
    nh, nv = c["nh"], c["nv"]
    h, w = (nh - 1) * d + 2 * c["m"], (nv - 1) * dx + 2 * c["m"]
    y, x = np.mgrid[0:nh, 0:nv]
    g = np.stack((y * d + c["m"], x * dx + c["m"]), -1).reshape(-1, 2)
    ratio = c["ratio"]
    py, px = (h - ratio * h) / 2, (w - ratio * w) / 2
    k = c["r"] + 2
    inside = ((g[:, 0] > py - k) & (g[:, 0] < h - py + k) &
              (g[:, 1] > px - k) & (g[:, 1] < w - px + k))
    whole = ((g[:, 0] > py + k) & (g[:, 0] < h - py - k) &
             (g[:, 1] > px + k) & (g[:, 1] < w - px - k))
    if whole.sum() < 4 or np.ptp(g[whole], axis=0).min() == 0:
        return
    r = np.where(inside, c["r"], c["r"] + c["other"])
    yy, xx = np.mgrid[0:h, 0:w]
    mat = np.zeros((h, w), dtype=np.int16)
    for (cy, cx), rr in zip(g, r):
        mat[(yy - cy) ** 2 + (xx - cx) ** 2 <= rr ** 2] = 1
    t = np.arange(-8, 9)
    area = int((np.hypot(*np.meshgrid(t, t)) <= c["r"]).sum())
    got = prep.calc_size_distance(mat, ratio=ratio)
    need(len(got) == 2, "expected size and distance")
    need(abs(got[0] - area) <= 1e-6, "dot size %s, expected %d", got[0], area)
    need(abs(got[1] - min(d, dx)) <= 1e-6, "dot distance %s, expected %d",
         got[1], min(d, dx))
    ev.nontrivial(c["other"] != 0 and not inside.all())


@P.sub(fixed(n=st.integers(3, 7), m=st.integers(3, 7), d=st.integers(16, 26),
             odd=st.integers(0, 4), seed=seeds), quick=300,
       rule="dots of different size")
def medians(c, ev):
    """Any well-separated dots: median pixel count and median distance to the
    nearest dot, so that a few stray or merged dots do not matter."""
    g = rng(c["seed"])
    n, m, d = c["n"], c["m"], c["d"]
    mat = np.zeros((n * d + 4, m * d + 4), dtype=np.int16)
    cen, size = [], []
    stray = set(g.permutation(n * m)[:c["odd"]].tolist())
    for k in range(n * m):
        i, j = divmod(k, m)
        a, b = (int(v) for v in g.integers(3, 6 if k not in stray else 9, 2))
        y = i * d + 3 + int(g.integers(0, 3))
        x = j * d + 3 + int(g.integers(0, 3))
        if k in stray:
            x += int(g.integers(0, max(1, d - b - 6)))
        mat[y:y + a, x:x + b] = 1
        cen.append((y + (a - 1) / 2, x + (b - 1) / 2))
        size.append(a * b)
    cen = np.array(cen)
    dist = np.hypot(*(cen[:, None] - cen[None]).transpose(2, 0, 1))
    near = np.sort(dist, axis=1)[:, 1]
    got = prep.calc_size_distance(mat, ratio=1.0)
    need(abs(got[0] - np.median(size)) <= 1e-6, "dot size %s, median of the "
         "dots %s", got[0], np.median(size))
    need(abs(got[1] - np.median(near)) <= 1e-4, "dot distance %s, median "
         "distance to the nearest dot %s", got[1], np.median(near))
    ev.nontrivial(len(set(size)) > 1)


@P.sub(fixed(ratio=q(0.5, 1.0, 0.1), **{k: v for k, v in pattern.items()
                                        if k in ("r", "gap", "jx", "jy")},
             nh=st.integers(9, 16), nv=st.integers(9, 16), tilt=q(-0.2, 0.2, 0.005)), quick=80, shards=4, rule="tilted")
def slopes(c, ev):
    r, d = c["r"], c["gap"] * c["r"]
    g, h, w = grid_in_image(c["nh"], c["nv"], d, c["tilt"], r + 4, 1.0,
                            c["jx"], c["jy"])
    mat = np.int16(disc_field(h, w, g.reshape(-1, 2), r) > 0.5)
    if mat.mean() > 0.4 or min(c["ratio"] * h, c["ratio"] * w) < 7.5 * d:
        return
    got = float(prep.calc_hor_slope(mat, ratio=c["ratio"]))
    tol = 0.6 / (0.3 * c["ratio"] * min(h, w)) + 0.004
    want = float(np.tan(c["tilt"]))
    need(abs(got - want) <= tol, "horizontal slope %.5f, expected %.5f", got,
         want)
    got = float(prep.calc_ver_slope(mat, ratio=c["ratio"]))
    need(abs(got + want) <= tol, "vertical slope %.5f, expected %.5f", got,
         -want)
    ev.nontrivial(c["tilt"] != 0)


@P.sub(fixed(nh=st.integers(1, 7), nv=st.integers(1, 7), d=st.integers(3, 9),
             seed=seeds, drop=st.integers(0, 10)), quick=300,
       rule="20 to 30 dots")
def number_of_dots(c, ev):
    n = c["nh"] * c["nv"]
    mat = np.zeros((c["nh"] * c["d"], c["nv"] * c["d"]), dtype=np.int16)
    ids = rng(c["seed"]).permutation(n)[:max(1, n - c["drop"])]
    for i in ids:
        a, b = divmod(int(i), c["nv"])
        mat[a * c["d"]:a * c["d"] + 2, b * c["d"]:b * c["d"] + 2] = 1
    got = prep.check_num_dots(mat)
    need(bool(got) == (len(ids) < 25), "%d dots judged %s", len(ids),
         "too few" if got else "enough")
    ev.nontrivial(20 <= len(ids) <= 30)


@P.sub(fixed(h=st.integers(60, 200), w=st.integers(60, 200),
             frac=q(0.0, 0.18, 0.02), level=q(20, 1000, 10),
             contrast=q(0.3, 0.9, 0.1), sigma=q(0.005, 0.03, 0.005),
             snr=q(1.0, 4.0, 0.25), bgr=st.sampled_from(["bright", "dark"]),
             a=q(0.2, 5, 0.1), b=q(-100, 100, 5), seed=seeds), quick=300,
       rule="image with features")
def threshold(c, ev):
    g = rng(c["seed"])
    h, w = c["h"], c["w"]
    m = np.zeros((h, w))
    n = int(c["frac"] * h * w)
    m.flat[g.permutation(h * w)[:n]] = 1.0
    bg = c["level"]
    fg = bg * (1 - c["contrast"]) if c["bgr"] == "bright" \
        else bg * (1 + c["contrast"])
    gap = abs(bg - fg)
    s = c["sigma"] * gap
    m = bg + (fg - bg) * m + s * g.standard_normal((h, w))

    def thr(mat, snr=c["snr"], bgr=c["bgr"]):
        return float(prep.calculate_threshold(mat, bgr=bgr, snr=snr))
    t = thr(m)
    lo, hi = min(bg, fg), max(bg, fg)
    need(lo < t < hi, "threshold %.4f is not between %.4f and %.4f", t, lo,
         hi)
    # it separates: nearly no background pixel is beyond it
    side = t < m if c["bgr"] == "bright" else m < t
    isbg = np.abs(m - bg) < gap / 2
    need(np.mean(side[isbg]) >= 0.85, "%.1f %% of the background is beyond "
         "the threshold", 100 - 100 * np.mean(side[isbg]))
    need(not n or not np.any(side[~isbg]), "a feature is not beyond the "
         "threshold")
    # reference: line through the middle half of the sorted, downsampled data
    srt = np.sort(m.ravel())
    size = max(h, w)
    dsp = np.interp(np.linspace(0, len(srt) - 1, size), np.arange(len(srt)),
                    srt)
    k = int(0.25 * size)
    x = np.arange(size)
    sl, ic = np.polyfit(x[k:-k - 1], dsp[k:-k - 1], 1)
    end = ic + sl * (size - 1)
    lev = abs(end - ic)
    want = ic - lev * c["snr"] * 0.5 if c["bgr"] == "bright" \
        else end + lev * c["snr"] * 0.5
    need(abs(t - want) <= 0.04 * lev * (1 + c["snr"]), "threshold %.4f, "
         "reference %.4f (noise level %.4f)", t, want, lev)
    # follows a change of units, and the snr linearly
    t2 = thr(c["a"] * m + c["b"])
    need(abs(t2 - (c["a"] * t + c["b"])) <= 1e-6 * (abs(t2) + 100 * c["a"]
                                                    + abs(c["b"])),
         "threshold %.6f of the rescaled image, expected %.6f", t2,
         c["a"] * t + c["b"])
    t0, t4 = thr(m, snr=1.0), thr(m, snr=3.0)
    need(abs((t4 + t0) / 2 - thr(m, snr=2.0)) <= 1e-6 * hi, "threshold is not "
         "linear in the noise ratio")
    need((t4 < t0) == (c["bgr"] == "bright"), "larger ratio moves the "
         "threshold towards the background")
    ev.nontrivial(n > 0)


@P.sub(fixed(nh=st.integers(7, 11), nv=st.integers(7, 11), r=q(7, 12, 0.5),
             gap=q(2.5, 2.84, 0.02), jx=q(0, 1, 0.1), jy=q(0, 1, 0.1),
             dark=st.booleans(), denoise=st.booleans(), given=st.booleans()),
       quick=120, shards=2, rule="dots cover more than 40 percent")
def crowded_dots(c, ev):
    """The larger part is the background, also when it is by little."""
    g, h, w = grid_in_image(c["nh"], c["nv"], c["gap"] * c["r"], 0.0,
                            c["r"] + 2.5, 1.0, c["jx"], c["jy"])
    f = disc_field(h, w, g.reshape(-1, 2), c["r"])
    cover = float((f > 0.5).mean())
    if cover > (0.48 if c["given"] and not c["denoise"] else 0.45):
        return          # an automatic threshold moves the outline a little
    m = 200.0 - 150.0 * f if c["dark"] else 50.0 + 150.0 * f
    b = prep.binarization(m, ratio=1.0, denoise=c["denoise"],
                          thres=125.0 if c["given"] else None)
    pts = prep.get_points_dot_pattern(b, binarize=False)
    off = match(pts, g.reshape(-1, 2))
    need(np.abs(off).max() <= 0.9, "a dot is off by %.3f", np.abs(off).max())
    ev.nontrivial(cover > 0.4)
    ev.label("dark dots", c["dark"])
