"""C24 pattern generators."""
from vlib import *
from checks.common import *
import discorpy.util.utility as util

P = Prop("C24")
ASSUMPTIONS = ["images at least 16 pixels each way; at least one element fits"
               ]


def bare(m, h, w, what):
    m = arr(m, (h, w), what)
    need(m.dtype == np.float32, "%s has dtype %s", what, m.dtype)
    return m


@P.sub(fixed(n=st.integers(1, 80), ratio=q(0.0, 1.6, 0.01)), quick=400,
       rule="neither empty nor full")
def circle(c, ev):
    n, k = c["n"], c["n"] // 2
    got = bare(util.make_circle_mask(n, c["ratio"]), n, n, "mask")
    r2 = (c["ratio"] * k) ** 2
    for i in range(n):
        for j in range(n):
            d = (i - k) ** 2 + (j - k) ** 2
            if abs(d - r2) > 1e-6 * (1 + r2) or r2 == round(r2):
                need(got[i, j] == (1.0 if d <= r2 + 1e-9 * r2 else 0.0),
                     "mask of width %d, ratio %s is %s at (%d, %d)", n,
                     c["ratio"], got[i, j], i, j)
    ev.nontrivial(0 < got.sum() < n * n)


def margins(c):
    m = c["margin"]
    if c["form"] == "int":
        return m[0], m[0], m[0]
    return m[0], m[1], (tuple(m) if c["form"] == "tuple" else list(m))


common = dict(h=st.integers(16, 160), w=st.integers(16, 160),
              margin=st.lists(st.integers(0, 50), min_size=2, max_size=2),
              form=st.sampled_from(["int", "tuple", "list"]))


@P.sub(fixed(**common, dist=st.integers(1, 60), size=st.integers(1, 30)),
       quick=600, rule="more than one dot")
def dots(c, ev):
    h, w = c["h"], c["w"]
    mv, mh, m = margins(c)
    s = max(1, min(c["size"], min(h, w) // 8))
    if c["dist"] < s:
        raises(ValueError, util.make_dot_pattern, h, w, c["dist"], c["size"],
               m)
        return
    got = bare(util.make_dot_pattern(h, w, c["dist"], c["size"], m), h, w,
               "dot pattern")
    half = s // 2 + 1
    ys = list(range(mv + half, h - mv - half, c["dist"]))
    xs = list(range(mh + half, w - mh - half, c["dist"]))
    if h - mv - half < 0 or w - mh - half < 0:
        return
    want = np.ones((h, w))
    k = s // 2
    for y in ys:
        for x in xs:
            for dy in range(-k, s - k):
                for dx in range(-k, s - k):
                    if dy * dy + dx * dx <= k * k:
                        want[y + dy, x + dx] = 0
    close(got, want, 0, "dot pattern")
    ev.nontrivial(len(ys) * len(xs) > 1)
    # what the parameters promise
    dark = np.argwhere(got == 0)
    if len(dark):
        need(dark[:, 0].min() >= mv and dark[:, 0].max() < h - mv
             and dark[:, 1].min() >= mh and dark[:, 1].max() < w - mh,
             "dots reach into the margin")


@P.sub(fixed(**common, dist=st.integers(1, 60), size=st.integers(1, 24)),
       quick=600, rule="more than one line each way")
def lines(c, ev):
    h, w = c["h"], c["w"]
    mv, mh, m = margins(c)
    s = max(1, min(c["size"], min(h, w) // 8))
    ys = list(range(mv, h - mv - s, c["dist"]))
    xs = list(range(mh, w - mh - s, c["dist"]))
    if not ys or not xs:
        return
    got = bare(util.make_line_pattern(h, w, c["dist"], c["size"], m), h, w,
               "line pattern")
    want = np.ones((h, w))
    inx = np.zeros(w, bool)
    iny = np.zeros(h, bool)
    for y in ys:
        iny[y:y + s] = True
    for x in xs:
        inx[x:x + s] = True
    yy, xx = np.arange(h)[:, None], np.arange(w)[None]
    box = (yy >= ys[0]) & (yy < ys[-1] + s) & (xx >= xs[0]) & (
        xx < xs[-1] + s)
    want[box & (iny[:, None] | inx[None])] = 0
    close(got, want, 0, "line pattern")
    ev.nontrivial(len(ys) > 1 and len(xs) > 1)


@P.sub(fixed(h=st.integers(4, 200), w=st.integers(4, 200),
             size=st.integers(1, 60), margin=st.integers(0, 50),
             grey=q(0, 1, 0.05)), quick=600, rule="more than one cell each way")
def chessboard(c, ev):
    h, w, s, m = c["h"], c["w"], c["size"], c["margin"]
    got = bare(util.make_chessboard(h, w, s, m, c["grey"]), h, w,
               "chessboard")
    want = np.full((h, w), np.float64(np.float32(c["grey"])))
    ys = [y for y in range(m + s, h) if (y - m - s) % s == 0
          and y + s < h - m]
    xs = [x for x in range(m + s, w) if (x - m - s) % s == 0
          and x + s < w - m]
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            want[y:y + s, x:x + s] = (i + j + 1) % 2
    close(got, want, 1e-6, "chessboard")
    ev.nontrivial(len(ys) > 1 and len(xs) > 1)


@P.sub(fixed(n=st.integers(0, 1)), quick=2, rule="always")
def defaults(c, ev):
    """Documented default sizes."""
    for f in (util.make_dot_pattern, util.make_line_pattern,
              util.make_chessboard):
        m = bare(f(), 1800, 2000, f.__name__)
        need(set(np.unique(m)) <= {0.0, np.float32(0.95), 1.0}, "grey levels "
             "%s", np.unique(m)[:5])
        ev.nontrivial()
    mark = util.make_line_pattern()
    need(np.all(mark[150, 100:107] == 0) and np.all(mark[:100] == 1)
         and mark[150, 107] == 1 and mark[150, 190] == 0,
         "default line pattern")
    d = util.make_dot_pattern()
    need(np.all(d[:150] == 1) and d[158, 158] == 0 and d[158, 248] == 0
         and d[158, 200] == 1, "default dot pattern")
    b = util.make_chessboard()
    need(b[50, 50] == np.float32(0.95) and b[250, 250] == 1
         and b[250, 350] == 0 and b[350, 350] == 1, "default chessboard")
