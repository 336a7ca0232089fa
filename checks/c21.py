"""C21 tilted profiles."""
from vlib import *
from checks.common import *
import discorpy.prep.linepattern as lp

P = Prop("C21")
ASSUMPTIONS = ["values judged on smooth images within 4 percent of their "
               "span (the interpolation works on a band of the image)",
               "an index whose line leaves the image by less than two pixels "
               "is judged neither acceptable nor to be rejected"]


def smooth(h, w, seed, wl, dtype="float64"):
    """Waves longer than wl pixels, as a function of real coordinates."""
    g = rng(seed)
    ts = []
    for _ in range(3):
        k, th, ph = 2 * np.pi / (wl * (1 + 2 * g.random())), \
            2 * np.pi * g.random(), 2 * np.pi * g.random()
        ts.append((k * np.cos(th), k * np.sin(th), ph))

    def f(y, x):
        return 100.0 + 30.0 * sum(np.sin(a * x + b * y + p)
                                  for a, b, p in ts) / 1.0
    y, x = np.mgrid[0:h, 0:w]
    m = f(y, x)
    if dtype != "float64":
        m = np.round(m) if np.dtype(dtype).kind in "ui" else m
    return f, m.astype(dtype)


def limits(h, w, deg, direction):
    """(lowest, highest) index whose line stays in the image, and the extent
    of the line across its index axis."""
    n, k = (w, h) if direction == "horizontal" else (h, w)
    t = np.tan(np.deg2rad(deg))
    d = -n * t if direction == "horizontal" else n * t
    lo = max(0.0, -d)
    hi = k - 1 - max(0.0, d)
    return lo, hi


def geometry(x, y, h, w, idx, deg, direction):
    n = w if direction == "horizontal" else h
    x, y = np.float64(arr(x, (n,), "xlist")), np.float64(arr(y, (n,),
                                                              "ylist"))
    need(x.min() >= 0 and x.max() <= w - 1 and y.min() >= 0
         and y.max() <= h - 1, "points leave the image: x %.2f..%.2f, "
         "y %.2f..%.2f in %dx%d", x.min(), x.max(), y.min(), y.max(), h, w)
    t = np.tan(np.deg2rad(deg))
    if direction == "horizontal":
        u, v, want, vmax = x, y, idx - x * t, h - 1
    else:
        u, v, want, vmax = y, x, idx + y * t, w - 1
    need(abs(u[0]) < 1e-9 and abs(v[0] - idx) < 1e-9, "the line starts at "
         "(%.3f, %.3f), not at index %s", u[0], v[0], idx)
    # (a line may leave the image by the rounding of the index range)
    close(v, np.clip(want, 0, vmax), 1e-6 * (1 + n), "points on the tilted "
          "line")
    close(u, np.linspace(0, n - 1, n), 1e-6 * (1 + n), "points should go from "
          "side to side in even steps: position")
    return x, y


ang = st.one_of(q(-30, 30, 0.1), q(-3, 3, 0.01), st.just(0.0))


@P.sub(fixed(h=st.integers(20, 120), w=st.integers(20, 120), deg=ang,
             hor=st.booleans(), pos=q(0, 1, 0.01), seed=seeds,
             wl=q(14, 60, 1), frac=st.sampled_from([0, 0, 0.25, 0.7]),
             dtype=st.sampled_from(["float64", "float32", "uint8", "int32"])),
       quick=1500, shards=2, rule="tilted by more than 0.1 degree")
def along(c, ev):
    h, w, deg = c["h"], c["w"], c["deg"]
    d = "horizontal" if c["hor"] else "vertical"
    lo, hi = limits(h, w, deg, d)
    if np.ceil(lo) > np.floor(hi):
        return
    # inside the acceptable range (one pixel spared for the rounding of it)
    idx = int(np.clip(np.ceil(lo + c["pos"] * (hi - lo)), np.ceil(lo) + (
        lo > 0), max(np.floor(hi) - (hi < (h if c["hor"] else w) - 1),
                     np.ceil(lo) + (lo > 0))))
    if not (np.ceil(lo) + (lo > 0) <= idx <= np.floor(hi) - (
            hi < (h if c["hor"] else w) - 1)):
        return
    # positions between pixels are used by the search for cross points
    if c["frac"] and idx + 1 <= np.floor(hi) - (hi < (h if c["hor"] else w)
                                                - 1):
        idx = idx + c["frac"]
    f, m = smooth(h, w, c["seed"], c["wl"], c["dtype"])
    x, y, p = lp.get_tilted_profile(m, idx, deg, d)
    x, y = geometry(x, y, h, w, idx, deg, d)
    n = w if c["hor"] else h
    p = np.float64(arr(p, (n,), "profile"))
    tol = (7.2 if c["wl"] < 30 else 4.0) + (1.0 if c["dtype"] in (
        "uint8", "int32") else 0.0)
    close(p, f(y, x), tol, "profile value")
    # the first and most points are known better
    e = np.abs(p - f(y, x))
    need(np.median(e) <= 0.25 * tol, "median error of the profile %.3f",
         np.median(e))
    ev.nontrivial(abs(deg) > 0.1)
    ev.label(d)
    ev.label("position between pixels", idx != int(idx))


@P.sub(fixed(h=st.integers(6, 90), w=st.integers(6, 90), deg=ang,
             pos=q(0, 1, 0.01), seed=seeds,
             kind=st.sampled_from(IMG_KINDS)), quick=800,
       rule="tilted by more than 0.1 degree")
def transposed(c, ev):
    """Vertical profile of the transposed image = horizontal profile."""
    h, w, deg = c["h"], c["w"], c["deg"]
    lo, hi = limits(h, w, deg, "horizontal")
    lo, hi = np.ceil(lo) + 1, np.floor(hi) - 1
    if lo > hi:
        return
    idx = int(round(lo + c["pos"] * (hi - lo)))
    m = image(c["kind"], h, w, c["seed"])
    a = lp.get_tilted_profile(m, idx, deg, "horizontal")
    b = lp.get_tilted_profile(np.ascontiguousarray(m.T), idx, -deg,
                              "vertical")
    close(b[1], a[0], 1e-9, "coordinates along the line")
    close(b[0], a[1], 1e-9, "coordinates across the line")
    close(b[2], a[2], 1e-6 * (1 + np.abs(m).max()), "profile")
    ev.nontrivial(abs(deg) > 0.1)


@P.sub(fixed(n=st.integers(32000, 70000), k=st.integers(3, 40),
             deg=q(-0.02, 0.02, 0.0005), tall=st.booleans(),
             hor=st.booleans(), pos=q(0, 1, 0.01), seed=seeds), quick=40,
       rule="more than 32767 rows or columns")
def large(c, ev):
    h, w = (c["n"], c["k"]) if c["tall"] else (c["k"], c["n"])
    d = "horizontal" if c["hor"] else "vertical"
    lo, hi = limits(h, w, c["deg"], d)
    lo, hi = np.ceil(lo) + 1, np.floor(hi) - 1
    if lo > hi:
        return
    idx = int(round(lo + c["pos"] * (hi - lo)))
    f, m = smooth(h, w, c["seed"], 60, "float32")
    x, y, p = lp.get_tilted_profile(m, idx, c["deg"], d)
    x, y = geometry(x, y, h, w, idx, c["deg"], d)
    close(p, f(y, x), 4.0, "profile value")
    ev.nontrivial(max(h, w) > 32767)


@P.sub(fixed(h=st.integers(5, 80), w=st.integers(5, 80),
             deg=st.one_of(q(-60, 60, 0.5), q(-5, 5, 0.05)),
             hor=st.booleans(), idx=st.integers(-5, 85)), quick=1200,
       rule="a line that has to be rejected")
def acceptance(c, ev):
    """Lines inside the image are accepted, others rejected."""
    h, w, deg = c["h"], c["w"], c["deg"]
    d = "horizontal" if c["hor"] else "vertical"
    k = h if c["hor"] else w
    lo, hi = limits(h, w, deg, d)
    m = np.ones((h, w))
    i = c["idx"]
    if lo <= i <= hi - (1 if hi < k - 1 else 0) and i >= np.ceil(lo) \
            and 0 <= i < k:
        try:
            r = lp.get_tilted_profile(m, i, deg, d)
        except ValueError as e:
            raise Violation("index %d, angle %s, %s in %dx%d: rejected (%s) "
                            "although the line is inside" % (i, deg, d, h, w,
                                                             e))
        close(r[2], np.ones(len(r[2])), 1e-6, "profile of an even image")
    elif i < lo - 2 or i > hi + 2 or i < 0 or i >= k:
        raises(ValueError, lp.get_tilted_profile, m, i, deg, d)
        ev.nontrivial()


@P.sub(fixed(h=st.integers(2, 60), w=st.integers(2, 60), pos=q(0, 1, 0.01),
             hor=st.booleans(), seed=seeds, kind=st.sampled_from(IMG_KINDS),
             dtype=st.sampled_from(DTYPES)), quick=400,
       rule="the image is not constant")
def straight(c, ev):
    """At zero angle: the row or the column itself."""
    m = image(c["kind"], c["h"], c["w"], c["seed"], c["dtype"])
    k = c["h"] if c["hor"] else c["w"]
    i = int(round(c["pos"] * (k - 1)))
    _, _, p = lp.get_tilted_profile(m, i, 0.0, "horizontal" if c["hor"]
                                    else "vertical")
    close(p, m[i] if c["hor"] else m[:, i], 1e-4 * (1 + np.abs(np.float64(
        m)).max()), "profile at zero angle")
    ev.nontrivial(span(m) > 0)


@P.sub(fixed(deg=st.sampled_from([90.0, -90.0, 90]), hor=st.booleans(),
             ndim=st.sampled_from([1, 3])), quick=20, rule="always")
def refused(c, ev):
    d = "horizontal" if c["hor"] else "vertical"
    raises(ValueError, lp.get_tilted_profile, np.ones((20, 20)), 5, c["deg"],
           d)
    raises(ValueError, lp.get_tilted_profile, np.ones((20,) * c["ndim"]), 5,
           0.0, d)
    ev.nontrivial()
