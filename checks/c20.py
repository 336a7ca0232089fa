"""C20 extrema and slopes of 1D data."""
from vlib import *
from checks.common import *
import discorpy.prep.linepattern as lp

P = Prop("C20")
ASSUMPTIONS = ["extrema: dips and peaks of Gaussian shape, at least 2.5 "
               "search radii apart and 1.5 away from the ends",
               "a candidate whose relative depth lies between two readings of "
               "the sensitivity rule is not judged"]
FREE = 0.4
DT = st.sampled_from(["float64", "float32", "int32", "uint8", "uint16"])


# ------------------------------------------------- sub-pixel location

@P.sub(fixed(n=st.integers(3, 25), v=q(0, 1, 0.01), a=logq(1e-3, 1e3),
             off=q(-100, 100, 0.5), mx=st.booleans(), aslist=st.booleans()),
       quick=800, rule="vertex between samples")
def vertex(c, ev):
    """A sampled parabola: the vertex itself."""
    n, v = c["n"], c["v"] * (c["n"] - 1)
    y = (-1 if c["mx"] else 1) * c["a"] * (np.arange(n) - v) ** 2 + c["off"]
    got = lp.locate_subpixel_point(list(y) if c["aslist"] else y,
                                   option="max" if c["mx"] else "min")
    tol = 1e-6 + 1e-10 * abs(c["off"]) / c["a"]
    if tol < 0.2 and (n - 1 - v > tol):
        close(got, v, tol, "vertex of a parabola")
    ev.nontrivial(abs(v - round(v)) > 0.01)


@P.sub(fixed(n=st.integers(3, 12), seed=seeds, mx=st.booleans(), dtype=DT,
             linear=st.booleans()), quick=600, rule="not linear")
def sampled(c, ev):
    """The least-squares parabola's vertex where it is inside, otherwise the
    extreme sample."""
    g = rng(c["seed"])
    n = c["n"]
    y = np.arange(n) * int(g.integers(1, 9)) if c["linear"] \
        else g.integers(0, 200, n)
    if c["linear"] and g.random() < 0.5:
        y = y[::-1]
    y = y.astype(c["dtype"])
    op = "max" if c["mx"] else "min"
    got = float(lp.locate_subpixel_point(y, option=op))
    x = np.arange(n) - (n - 1) / 2.0
    yf = np.float64(y)
    A = np.stack((x * x, x, np.ones(n)), axis=1)
    a, b = np.linalg.lstsq(A, yf, rcond=None)[0][:2]
    ext = np.flatnonzero(yf == (yf.max() if c["mx"] else yf.min()))
    if abs(a) < 1e-9:
        if abs(b) > 1e-6:
            need(got in ext, "linear data: got %s, the extreme samples are "
                 "%s", got, ext)
        return
    p = -b / (2 * a) + (n - 1) / 2.0
    ev.nontrivial()
    if min(abs(p), abs(p - n)) < 1e-6 * (1 + abs(b / a)):
        return
    if 0 <= p < n:
        close(got, p, 1e-6 * (1 + abs(b / a)), "vertex")
    else:
        need(got in ext, "vertex %.3f is outside the data: got %s, the "
             "extreme samples are %s", p, got, ext)


# ------------------------------------------------- extrema

def train(c):
    """Profile of Gaussian bumps at known positions (0 < f < 1)."""
    g = rng(c["seed"])
    k, rad = c["k"], c["radius"]
    gap = c["gap"] * rad
    pos = np.cumsum(gap * (1 + 0.4 * g.random(k)))
    n = int(np.ceil(pos[-1] + gap))
    x = np.arange(n)
    f = np.zeros(n)
    for p in pos:
        f = np.maximum(f, np.exp(-0.5 * ((x - p) / c["sig"]) ** 2))
    return pos, f


def clear(c):
    """The extrema stand out clearly, also after the smoothing (sigma 3); for
    the background normalization, most of the profile is background."""
    if c["norm"]:
        es = np.hypot(c["sig"], 3.0) if c["denoise"] else c["sig"]
        if c["k"] * 8 * es > FREE * c["gap"] * c["radius"] * (c["k"] + 1):
            return False
    if not c["denoise"]:
        return True
    es = np.hypot(c["sig"], 3.0)
    return c["depth"] * c["sig"] / es >= 0.22 and c["radius"] >= 2.2 * es


@P.sub(fixed(k=st.integers(1, 12), radius=st.integers(6, 14), gap=q(2.5, 9),
             sig=q(1.2, 3.0, 0.1), depth=q(0.35, 0.95), seed=seeds,
             mx=st.booleans(), norm=st.booleans(), denoise=st.booleans(),
             subpixel=st.booleans(), select=st.sampled_from([0, 0, 0, 1]),
             noise=q(0, 0.004, 0.0005), level=logq(0.1, 1e4),
             dtype=st.sampled_from(["float64", "float32", "uint16"])),
       quick=1200, rule="more than two extrema", shards=2,
       # a flat background: the fit of the sorted profile falls by round-off
       examples=[{"k": 1, "radius": 9, "gap": 3.89, "sig": 1.2, "depth": 0.35,
                  "seed": 1, "mx": False, "norm": True, "denoise": False,
                  "subpixel": False, "select": 0, "noise": 0.0, "level": 0.1,
                  "dtype": "float64"}])
def planted(c, ev):
    """Every planted extremum is found, once, and nothing else."""
    if not clear(c):
        return
    pos, f = train(c)
    y = 1 + c["depth"] * f if c["mx"] else 1 - c["depth"] * f
    y = y + c["noise"] * (rng(c["seed"] + 1).random(len(y)) - 0.5)
    y = c["level"] * y
    if c["dtype"] == "uint16":
        y = np.round(y / y.max() * 40000)
    y = y.astype(c["dtype"])
    kw = {}
    if c["select"]:
        kw = {"select_peaks": True, "tol": 0.4, "use_offset": False}
    got = np.float64(lp.get_local_extrema_points(
        y, option="max" if c["mx"] else "min", radius=c["radius"],
        denoise=c["denoise"], norm=c["norm"], subpixel=c["subpixel"], **kw))
    need(got.ndim == 1, "%d-dimensional result", got.ndim)
    if c["select"]:
        # shapes after smoothing and normalization are judged by a fit: only
        # that nothing is added
        for p in got:
            need(np.abs(pos - p).min() <= 1.5, "point %.2f, extrema at %s", p,
                 np.round(pos, 2))
        return
    # two equal lowest samples side by side count as one extremum
    if len(got) > 1:
        got = np.array([t.mean() for t in np.split(
            got, np.flatnonzero(np.diff(got) > 1.01) + 1)])
    need(len(got) == len(pos), "%d extrema found at %s, planted %d at %s",
         len(got), np.round(got, 2), len(pos), np.round(pos, 2))
    need(np.all(np.diff(got) > 0), "positions not ascending: %s", got)
    tol = (0.35 if c["subpixel"] else 0.51) + 60 * c["noise"] * c["sig"]
    if c["denoise"]:
        tol += 0.1
    if c["norm"]:       # the normalization reshapes the profile
        tol += 0.7
    close(got, pos, tol, "positions")
    ev.nontrivial(len(pos) > 2)


@P.sub(fixed(n=st.integers(5, 120), radius=st.integers(1, 20), seed=seeds,
             sens=q(0, 0.9, 0.05), mx=st.booleans(), rough=st.integers(1, 9),
             dtype=DT), quick=1000, rule="some found and some not")
def rule(c, ev):
    """On any data: what is returned are exactly the window extrema that stand
    out by more than the sensitivity."""
    g = rng(c["seed"])
    y = np.convolve(g.random(c["n"] + 8), np.ones(c["rough"]) / c["rough"],
                    mode="same")[4:-4]
    y = np.round(20 + 200 * y).astype(c["dtype"])
    got = np.asarray(lp.get_local_extrema_points(
        y, option="max" if c["mx"] else "min", radius=c["radius"],
        sensitive=c["sens"], denoise=False, norm=False, subpixel=False))
    z = np.float64(y)
    if c["mx"]:
        z = z.max() - z
    n = len(z)
    r = int(np.clip(c["radius"], 1, max(n // 4, 1)))
    gs = set(int(i) for i in got)
    need(len(gs) == len(got), "positions repeated: %s", got)
    for i in range(r, n - r):
        win = np.sort(z[i - r:i + r + 1])
        low = z[i] <= win[0]
        if not low:
            need(i not in gs, "position %d returned, which is not the extreme "
                 "of its window", i)
            continue
        # relative depth against the weakest/strongest of the r largest
        top = win[-r:]
        d1 = (top[0] - z[i]) / top[0] if top[0] > 0 else 0.0
        d2 = (top[-1] - z[i]) / top[-1] if top[-1] > 0 else 0.0
        if d1 > c["sens"] + 1e-9 and i < n - r - 1:
            need(i in gs, "position %d is the extreme of its window with "
                 "relative depth over %.3f, sensitivity %.3f, not returned",
                 i, d1, c["sens"])
        if d2 < c["sens"] - 1e-9:
            need(i not in gs, "position %d returned with relative depth below "
                 "%.3f, sensitivity %.3f", i, d2, c["sens"])
    need(all(r <= i < n - r for i in gs), "positions %s outside [%d, %d)",
         got, r, n - r)
    ev.nontrivial(0 < len(gs) < n // 3)


@P.sub(fixed(k=st.integers(2, 9), radius=st.integers(6, 12), gap=q(2.5, 4),
             sig=q(1.2, 3.0, 0.1), depth=q(0.3, 0.9), seed=seeds,
             a=logq(1e-3, 1e3), norm=st.booleans(), denoise=st.booleans()),
       quick=400, rule="always")
def relations(c, ev):
    """Scaling the data, reversing it, and exchanging minima and maxima."""
    if not clear(c):
        return
    pos, f = train(c)
    y = 5 * (1 - c["depth"] * f)
    kw = {"radius": c["radius"], "norm": c["norm"], "denoise": c["denoise"]}
    base = np.float64(lp.get_local_extrema_points(y, option="min", **kw))
    close(lp.get_local_extrema_points(c["a"] * y, option="min", **kw), base,
          1e-5, "positions of scaled data")
    rev = np.float64(lp.get_local_extrema_points(y[::-1], option="min", **kw))
    close(len(y) - 1 - rev[::-1], base, 1e-5 if not c["norm"] else 0.5,
          "positions of reversed data")
    ev.nontrivial()
    if c["norm"]:
        return
    up = np.float64(lp.get_local_extrema_points(10 - y, option="max", **kw))
    need(len(up) == len(base), "%d minima but %d maxima of the inverse",
         len(base), len(up))
    close(up, base, 1e-5, "maxima of the inverse")


@P.sub(fixed(k=st.integers(2, 8), radius=st.integers(9, 13), gap=q(3.6, 6),
             sig=q(1.0, 2.2, 0.1), depth=q(0.35, 0.9), seed=seeds,
             bad=st.booleans(), mx=st.booleans(), level=logq(0.1, 1000)),
       quick=200, rule="with an extremum of another shape")
def selected(c, ev):
    """With the selection of good peaks: bell-shaped extrema are kept, others
    left out."""
    pos, f = train(c)
    pos = np.round(pos).astype(int)         # (candidates are sample positions)
    x = np.arange(len(f))
    f = np.zeros(len(f))
    for i, p in enumerate(pos):
        r = np.abs(x - p)
        if c["bad"] and i == len(pos) // 2:
            f += np.where(r == 0, 1.0, 0.0) + 0.93 * (
                (r == 2) | (r == 4) | (r == 8))
        else:
            f += np.exp(-0.5 * (r / c["sig"]) ** 2)
    want = [p for i, p in enumerate(pos)
            if not (c["bad"] and i == len(pos) // 2)]
    y = c["level"] * (1 + c["depth"] * f if c["mx"] else 1 - c["depth"] * f)
    got = np.float64(lp.get_local_extrema_points(
        y, option="max" if c["mx"] else "min", radius=c["radius"],
        denoise=False, norm=False, select_peaks=True))
    need(len(got) == len(want), "good extrema at %s, selected %s", want,
         np.round(got, 2))
    close(got, want, 0.3, "selected extrema")
    ev.nontrivial(c["bad"])


@P.sub(fixed(k=st.integers(1, 8), radius=st.integers(12, 20), gap=q(3, 6),
             sig=q(3.5, 5.0, 0.1), depth=q(0.5, 0.9), seed=seeds,
             mx=st.booleans(), noise=q(0.01, 0.03, 0.005),
             level=logq(0.1, 1000)), quick=200, rule="more than two extrema")
def noisy(c, ev):
    """Smoothing: noise neither adds nor hides nor moves extrema."""
    pos, f = train(c)
    y = 1 + c["depth"] * f if c["mx"] else 1 - c["depth"] * f
    y = c["level"] * (y + c["noise"] * rng(c["seed"] + 1).standard_normal(
        len(y)))
    got = np.float64(lp.get_local_extrema_points(
        y, option="max" if c["mx"] else "min", radius=c["radius"],
        denoise=True, norm=False))
    need(len(got) == len(pos), "%d extrema found at %s, planted %d at %s",
         len(got), np.round(got, 2), len(pos), np.round(pos, 2))
    close(got, pos, 0.4 + 40 * c["noise"] / c["depth"], "positions")
    need(np.abs(got - pos).mean() <= 0.25 + 15 * c["noise"] / c["depth"],
         "positions are off by %.2f on average", np.abs(got - pos).mean())
    ev.nontrivial(len(pos) > 2)


# ------------------------------------------------- good peaks

@P.sub(fixed(k=st.integers(2, 6), sig=q(1.0, 2.4, 0.1), gap=q(50, 70, 1),
             amp=logq(0.01, 100), base=q(0, 5, 0.5), seed=seeds,
             radius=st.integers(9, 14), bad=st.integers(0, 4),
             off=st.booleans()),
       quick=250, rule="good and bad candidates")
def good_peaks(c, ev):
    """Gaussian peaks stay, steps and blocks go."""
    g = rng(c["seed"])
    k, gap = c["k"], int(c["gap"])
    kinds = [int(t) for t in g.integers(0, 3, k)]
    n = gap * (k + 1)
    x = np.arange(n)
    y = np.full(n, float(c["base"]))
    peaks, good = [], []
    for i, kind in enumerate(kinds):
        p = gap * (i + 1)
        if kind < 2:
            off = c["off"] and kind == 1
            sg = 0.45 * c["radius"] if off else c["sig"]
            y += c["amp"] * np.exp(-0.5 * ((x - p) / sg) ** 2)
            if off:         # the candidate is far from the top of the peak
                p += int(g.choice([-1, 1])) * (c["radius"] // 2 + 1)
            else:
                good.append(p)
        else:
            r = np.abs(x - p)
            y += c["amp"] * ((r == 4) | (r == 8) | (r == 2))     # a comb
        peaks.append(p)
    got = np.asarray(lp.select_good_peaks(y, peaks, radius=c["radius"]))
    need(list(got) == good, "good peaks %s, selected %s of %s", good,
         list(got), peaks)
    ev.nontrivial(0 < len(good) < k)


@P.sub(fixed(n=st.integers(60, 180), seed=seeds, radius=st.integers(4, 14),
             noise=logq(1e-4, 0.5), tol=logq(0.01, 2.0), more=q(1.0, 4.0, 0.1),
             sigma=st.sampled_from([0, 0.5, 1, 2.5]), offset=st.booleans(),
             option=st.sampled_from(["max", "min"]),
             sens=logq(0.001, 0.3)), quick=96, thorough=1500, shards=6,
       rule="some candidates are taken, some are not")
def good_peaks_options(c, ev):
    """A wider tolerance and no judging of the offset only add peaks;
    smoothing is that of the data; the finder of extrema hands the options
    on."""
    import scipy.ndimage as ndi
    g = rng(c["seed"])
    n = c["n"]
    x = np.arange(n)
    y = 20 + c["noise"] * g.standard_normal(n)
    for p in np.arange(15, n - 8, 30):
        y += g.uniform(0.5, 2) * np.exp(-0.5 * ((x - p) / g.uniform(1, 5)) ** 2)
    kw = dict(tol=c["tol"], radius=c["radius"], use_offset=c["offset"])
    peaks = sorted(set(int(t) for t in g.integers(0, n, 6)) | set(
        int(t) for t in np.arange(15, n - 8, 30)))
    sel = lambda d=y, **k: [int(t) for t in lp.select_good_peaks(
        d, peaks, **dict(kw, **k))]
    a = sel()
    need(a == [t for t in peaks if t in a], "selected %s of %s", a, peaks)
    b = sel(tol=c["tol"] * c["more"])
    need(set(a) <= set(b), "tolerance %g takes %s, %g takes %s", c["tol"], a,
         c["tol"] * c["more"], b)
    b = sel(use_offset=True)
    need(set(b) <= set(sel(use_offset=False)), "judging the offset adds peaks")
    if c["sigma"]:
        b = sel(sigma=c["sigma"])
        w = sel(ndi.gaussian_filter1d(y, c["sigma"]))
        need(b == w, "smoothing %g takes %s, smoothed data %s", c["sigma"], b,
             w)
    r = min(c["radius"], n // 4)
    up = y if c["option"] == "max" else 42 - y
    k2 = dict(option=c["option"], radius=r, sensitive=c["sens"],
              denoise=False, norm=False, subpixel=False)
    raw = [int(t) for t in lp.get_local_extrema_points(y, **k2)]
    opt = dict(tol=c["tol"], use_offset=c["offset"], sigma=c["sigma"])
    got = [int(t) for t in lp.get_local_extrema_points(
        y, select_peaks=True, **opt, **k2)]
    want = [int(t) for t in lp.select_good_peaks(up, raw, radius=r, **opt)]
    odd = set(got) ^ set(want)
    if odd:        # decided by round-off?
        for f in (0.999, 1.001):
            for v in (up - up.min(), up):
                opt["tol"] = c["tol"] * f
                odd &= set(got) ^ set(
                    int(t) for t in lp.select_good_peaks(v, raw, radius=r,
                                                         **opt))
    need(not odd, "good extrema %s, of %s the good ones are %s", got, raw,
         want)
    ev.nontrivial(0 < len(a) < len(peaks))


# ------------------------------------------------- sliding slope

@P.sub(fixed(n=st.integers(3, 60), size=st.integers(0, 80), seed=seeds,
             norm=st.booleans(), dtype=DT, linear=st.booleans(),
             k=q(-3, 3, 0.05), aslist=st.booleans()), quick=600,
       rule="window shorter than the data")
def slope(c, ev):
    n = c["n"]
    if c["linear"]:
        y = c["k"] * np.arange(n) + 7
    else:
        y = rng(c["seed"]).integers(0, 250, n).astype(c["dtype"])
    keep = np.array(y)
    got = arr(lp.sliding_window_slope(list(y) if c["aslist"] else y,
                                      size=c["size"], norm=c["norm"]), (n,),
              "slopes")
    s = int(np.clip(c["size"], 3, n))
    s += 1 - s % 2
    r = s // 2
    p = np.pad(np.float64(keep), r, mode="edge")
    x = np.arange(s) - r
    want = np.abs([np.sum(x * p[i:i + s]) / np.sum(x * x) for i in range(n)])
    if c["norm"] and want.mean() > 1e-9:
        want = want / want.mean()
    if c["norm"] and want.mean() <= 1e-9:
        return
    close(got, want, 1e-6 * (1 + want.max()), "slopes")
    ev.nontrivial(s < n)
