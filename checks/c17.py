"""C17 points are grouped into the true lines of the grid."""
from vlib import *
from checks.common import *
from checks.dots import *
import discorpy.prep.preprocessing as prep

P = Prop("C17")
ASSUMPTIONS = ["slope of the curved lines within 0.1 of the given one; gaps "
               "of at most one missing point (two neighbouring points never "
               "both missing)",
               "polynomial variants: lines curved like the fitted polynomial, "
               "at most one point per line missing, neighbouring points within "
               "0.85 of the accepted deviation"]
GROUP = {"hor": prep.group_dots_hor_lines, "ver": prep.group_dots_ver_lines}
POLY = {"hor": prep.group_dots_hor_lines_based_polyfit,
        "ver": prep.group_dots_ver_lines_based_polyfit}


def thin(g, part, seed):
    """Mask of kept points of an (n lines, m points) grid: some lines lose
    every other point from somewhere, never two neighbours in a line."""
    r = rng(seed)
    n, m = g.shape[:2]
    keep = np.ones((n, m), dtype=bool)
    for i in range(n):
        if r.random() < part:
            a = int(r.integers(0, m))
            step = int(r.integers(2, 4))
            keep[i, a::step] = False
            if keep[i].sum() < 2:
                keep[i] = True
    return keep


def check_lines(got, want, tol, what, axis):
    """got: returned lines; want: true lines in order (arrays)."""
    need(len(got) == len(want), "%s: %d lines returned, %d expected", what,
         len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        b = b[b[:, axis].argsort()]
        a = np.float64(arr(a, None, what))
        need(a.shape == b.shape, "%s: line %d has %d points, expected %d",
             what, i, len(a), len(b))
        close(a, b, tol, "%s: line %d" % (what, i))


gp = dict(nh=st.integers(3, 11), nv=st.integers(3, 11), d=q(4, 90, 0.25),
          asp=st.sampled_from([1.0, 1.0, 0.9, 1.2]), tilt=q(-0.3, 0.3, 0.01),
          e=q(-0.03, 0.03, 0.005), mx=q(-20, 20, 0.5), my=q(-20, 20, 0.5),
          seed=seeds, way=st.sampled_from(["hor", "ver"]))


def field(c):
    dy, dx = c["d"], c["d"] * c["asp"]
    hor, _ = grid(c["nh"], c["nv"], dy, dx, c["mx"] * dx, c["my"] * dy,
                  c["tilt"])
    g = np.asarray(hor)
    if c["e"]:
        o = g.reshape(-1, 2).mean(0)
        r = float(np.hypot(*(g.reshape(-1, 2) - o).T).max())
        g = distort(g, o[1], o[0], [1.0, 0.0, c["e"] / r ** 2])
    return g


@P.sub(fixed(part=q(0, 1, 0.1), form=st.sampled_from(["array", "list",
                                                      "float32"]),
             ratio=st.sampled_from([0.25, 0.3, 0.35]),
             acc=st.sampled_from([0.3, 0.5, 0.65, 0.75, 0.9, 1.0]),
             miss=st.integers(4, 8), **gp), quick=900, shards=2,
       rule="tilted with incomplete lines")
def lines_of_points(c, ev):
    g = field(c)
    way = c["way"]
    axis = 1 if way == "hor" else 0
    lines = g if way == "hor" else g.transpose(1, 0, 2)
    keep = thin(lines, c["part"], c["seed"])
    true = [ln[k] for ln, k in zip(lines, keep)]
    pts = np.concatenate(true)
    pts = pts[rng(c["seed"] + 1).permutation(len(pts))]
    if c["form"] == "float32":
        pts = np.float32(pts)
    given = pts.tolist() if c["form"] == "list" else pts
    slope = float(np.tan(c["tilt"])) * (1 if way == "hor" else -1)
    got = GROUP[way](given, slope, c["d"] * min(1.0, c["asp"]),
                     ratio=c["ratio"], num_dot_miss=c["miss"],
                     accepted_ratio=c["acc"])
    most = max(len(t) for t in true)
    lim = [len(t) - c["acc"] * most for t in true]
    if min(abs(v) for v in lim) < 1e-9 and c["acc"] not in (0.5, 0.75, 1.0):
        return
    want = [t for t, v in zip(true, lim) if v >= 0]
    tol = 1e-5 * float(np.abs(pts).max()) if c["form"] == "float32" else 1e-9
    check_lines(got, want, tol, way, axis)
    ev.nontrivial(c["tilt"] != 0 and not keep.all())
    ev.label("lines dropped", len(want) < len(true))


@P.sub(fixed(nh=st.integers(3, 8), nv=st.integers(3, 8), d=q(12, 24, 0.5),
             tilt=q(-0.2, 0.2, 0.02), part=q(0, 0.6, 0.1), seed=seeds,
             way=st.sampled_from(["hor", "ver"]),
             dtype=st.sampled_from(["int16", "float32", "uint8", "bool"])),
       quick=200, rule="incomplete lines")
def lines_of_images(c, ev):
    """The same from a binary image of dots."""
    g, h, w = grid_in_image(c["nh"], c["nv"], c["d"], c["tilt"], 8)
    way = c["way"]
    axis = 1 if way == "hor" else 0
    lines = np.round(g) if way == "hor" else np.round(g).transpose(1, 0, 2)
    keep = thin(lines, c["part"], c["seed"])
    true = [ln[k] for ln, k in zip(lines, keep)]
    mat = np.zeros((h, w), dtype=c["dtype"])
    for y, x in np.concatenate(true):
        y, x = int(y), int(x)
        mat[y - 2:y + 3, x - 2:x + 3] = 1
    slope = float(np.tan(c["tilt"])) * (1 if way == "hor" else -1)
    got = GROUP[way](mat, slope, c["d"], accepted_ratio=0.3)
    check_lines(got, true, 1e-6, way + " lines of an image", axis)
    ev.nontrivial(not keep.all())


@P.sub(fixed(nh=st.integers(3, 15), nv=st.integers(3, 15), d=q(6, 60, 0.5),
             asp=st.sampled_from([1.0, 1.0, 0.9, 1.1]),
             k=q(-0.06, 0.06, 0.005), tilt=q(-0.3, 0.3, 0.02),
             fx=q(-0.15, 0.15, 0.01), fy=q(-0.15, 0.15, 0.01), seed=seeds,
             drop=st.integers(0, 1), way=st.sampled_from(["hor", "ver"]),
             ratio=st.sampled_from([0.1, 0.15, 0.2]), miss=st.integers(2, 4),
             ox=q(-300, 600, 1), oy=q(-300, 600, 1),
             overlap=st.sampled_from([0.5, 0.5, 0.0, 0.2, 0.8, 1.0, 1.5]),
             order=st.sampled_from([2, 2, 3])), quick=350, shards=3,
       rule="curved and tilted")
def polynomial(c, ev):
    """Curved lines: parabolas in a frame tilted by a known angle."""
    dy, dx = c["d"], c["d"] * c["asp"]
    size = max(c["nh"] * dy, c["nv"] * dx) / 2.0
    g = parabolic_grid(c["nh"], c["nv"], dy, dx, 0.0, 0.0, c["fx"], c["fy"],
                       c["k"] / size ** 2)
    cs, sn = np.cos(c["tilt"]), np.sin(c["tilt"])
    y, x = g[..., 0], g[..., 1]
    g = np.stack((cs * y + sn * x + c["oy"], cs * x - sn * y + c["ox"]), -1)
    way = c["way"]
    axis = 1 if way == "hor" else 0
    lines = g if way == "hor" else g.transpose(1, 0, 2)
    r = rng(c["seed"])
    true = []
    for ln in lines:
        keep = np.ones(len(ln), dtype=bool)
        if c["drop"] and len(ln) > 6 and r.random() < 0.7:
            keep[int(r.integers(0, len(ln)))] = False
        true.append(ln[keep])
    slope = float(np.tan(c["tilt"])) * (1 if way == "hor" else -1)
    off = max(float(np.abs(np.diff(t[:, 1 - axis]) - slope * np.diff(
        t[:, axis])).max()) * cs for t in true)
    if off > 0.85 * c["ratio"] * min(dx, dy):
        return            # neighbours of a line deviate more than is allowed
    pts = np.concatenate(true)
    pts = pts[r.permutation(len(pts))]
    got = POLY[way](pts, slope, min(dx, dy), ratio=c["ratio"],
                    num_dot_miss=c["miss"] + 1, accepted_ratio=0.5,
                    overlap_ratio=c["overlap"], order=c["order"])
    check_lines(got, true, 1e-6 + 1e-9 * float(np.abs(pts).max()),
                "polynomial, " + way, axis)
    ev.nontrivial(c["k"] != 0 and c["tilt"] != 0)
    ev.label("barrel", c["k"] < 0)


@P.sub(fixed(nl=st.integers(3, 7), m=st.integers(16, 30), d=q(8, 40, 0.5),
             k=q(-0.04, 0.04, 0.005), tilt=q(-0.2, 0.2, 0.02), seed=seeds,
             ns=st.integers(1, 6), off=q(1.3, 2.2, 0.1),
             way=st.sampled_from(["hor", "ver"]),
             ratio=st.sampled_from([0.1, 0.15, 0.2]), miss=st.integers(2, 3)),
       quick=150, rule="always")
def polynomial_strays(c, ev):
    """Points off the curve of a line by more than the accepted deviation
    belong to no line; the lines keep all of theirs."""
    d, nl, m = c["d"], c["nl"], c["m"]
    size = max(nl, m) * d / 2.0
    g = parabolic_grid(nl, m, d, d, 0.0, 0.0, 0.0, 0.0, c["k"] / size ** 2)
    if c["way"] == "ver":
        g = g[..., ::-1]
    along, across = (1, 0) if c["way"] == "hor" else (0, 1)
    r = rng(c["seed"])
    stray = []
    for i in range(c["ns"]):
        ln = g[int(r.integers(nl))]
        co = np.polyfit(ln[:, along], ln[:, across], 2)
        s = (c["miss"] + 1.6) * d
        s = r.uniform(s, ln[:, along].max()) * r.choice([-1, 1])
        p = np.zeros(2)
        p[along] = s
        p[across] = np.polyval(co, s) + r.choice([-1, 1]) * c["off"] * (
            c["ratio"] * d)
        stray.append(p)
    if any(np.abs(np.diff(ln[:, across])).max() > 0.85 * c["ratio"] * d
           for ln in g):
        return
    cs, sn = np.cos(c["tilt"]), np.sin(c["tilt"])
    turn = lambda p: np.stack((cs * p[..., 0] + sn * p[..., 1],
                               cs * p[..., 1] - sn * p[..., 0]), -1)
    g, pts = turn(g), turn(np.concatenate((g.reshape(-1, 2),
                                           np.array(stray))))
    slope = float(np.tan(c["tilt"])) * (1 if c["way"] == "hor" else -1)
    got = POLY[c["way"]](pts[r.permutation(len(pts))], slope, d,
                         ratio=c["ratio"], num_dot_miss=c["miss"],
                         accepted_ratio=0.5)
    check_lines(got, list(g), 1e-6, "with strays, " + c["way"], along)
    ev.nontrivial()


@P.sub(fixed(nl=st.integers(3, 7), m=st.integers(12, 22), d=q(5, 60, 0.5),
             tilt=q(-0.25, 0.25, 0.01), seed=seeds, miss=st.integers(2, 8),
             full=st.booleans(), way=st.sampled_from(["hor", "ver"]),
             poly=st.booleans(), cut=st.integers(1, 3)), quick=300,
       rule="gap of two or more points")
def permitted_gaps(c, ev):
    """Lines with a gap shorter than the permitted one stay whole."""
    d, nl, m = c["d"], c["nl"], c["m"]
    k = c["miss"] - 2 if c["full"] else max(0, c["miss"] - 3)
    s = np.tan(c["tilt"])
    y, x = np.mgrid[0:nl, 0:m] * d
    g = np.stack((y + s * x, x - s * y), -1) + 0.25
    if c["way"] == "ver":
        g = g[..., ::-1]
    r = rng(c["seed"])
    true = [ln.copy() for ln in g]
    for i in r.permutation(nl)[:c["cut"]]:
        # 5 points on either side, to fit a polynomial to
        j = int(r.integers(3, m - k - 3 + 1)) if not c["poly"] else int(
            r.choice([m - k - 3, 3]))
        if j < 1 or j + k > m - 1:
            return
        true[i] = np.delete(g[i], np.arange(j, j + k), 0)
    pts = np.concatenate(true)
    f = (POLY if c["poly"] else GROUP)[c["way"]]
    got = f(pts[r.permutation(len(pts))], float(s), d, num_dot_miss=c["miss"],
            accepted_ratio=0.3)
    check_lines(got, true, 1e-6, c["way"], 1 if c["way"] == "hor" else 0)
    ev.nontrivial(k > 1)


@P.sub(fixed(nl=st.integers(3, 7), m=st.integers(8, 12), d=q(5, 60, 0.5),
             tilt=q(-0.25, 0.25, 0.01), seed=seeds, miss=st.integers(4, 6),
             way=st.sampled_from(["hor", "ver"]), cut=st.integers(1, 3)),
       quick=150, rule="always")
def gap_in_the_middle(c, ev):
    """Lines that start as two pieces, at a gap the search across may still
    bridge, are returned once."""
    d, nl, k = c["d"], c["nl"], c["miss"]
    n = 2 * c["m"] + (k % 2 == 0)      # the gap of k pitches is in the middle
    gap = k - 1
    s = np.tan(c["tilt"])
    y, x = np.mgrid[0:nl, 0:n] * d
    g = np.stack((y + s * x, x - s * y), -1) + 0.25
    if c["way"] == "ver":
        g = g[..., ::-1]
    r = rng(c["seed"])
    true = [ln.copy() for ln in g]
    for i in r.permutation(nl)[:c["cut"]]:
        j = (n - gap) // 2
        true[i] = np.delete(g[i], np.arange(j, j + gap), 0)
    pts = np.concatenate(true)
    got = POLY[c["way"]](pts[r.permutation(len(pts))], float(s), d,
                         num_dot_miss=k, accepted_ratio=0.2)
    check_lines(got, true, 1e-6, c["way"], 1 if c["way"] == "hor" else 0)
    ev.nontrivial()


@P.sub(fixed(nl=st.integers(3, 9), m=st.integers(10, 30), d=q(5, 60, 0.5),
             tilt=q(-0.25, 0.25, 0.01), seed=seeds, part=q(0.1, 0.45, 0.05),
             miss=st.integers(3, 6), k=q(-0.04, 0.04, 0.01),
             way=st.sampled_from(["hor", "ver"]), poly=st.booleans(),
             ox=q(-500, 500, 1), oy=q(-500, 500, 1)), quick=300,
       examples=[dict(nl=8, m=24, d=20.0, tilt=0.2, seed=s, part=0.35, miss=3,
                      k=0.0, way=w, poly=p, ox=0.0, oy=0.0)
                 for w in ("hor", "ver") for p in (False, True)
                 for s in (1, 2)],
       rule="lines overlapping in the direction across")
def partial_lines(c, ev):
    """Neighbouring lines that end early, at opposite ends: tilted, they cover
    the same range across, but keep their order and none is lost."""
    d, nl, m = c["d"], c["nl"], c["m"]
    k = c["k"] / (max(nl, m) * d / 2.0) ** 2 if c["poly"] else 0.0
    g = parabolic_grid(nl, m, d, d, 0.0, 0.0, 0.0, 0.0, k)
    s = np.tan(c["tilt"])
    g = np.stack((g[..., 0] + s * g[..., 1], g[..., 1] - s * g[..., 0]), -1)
    if c["way"] == "ver":
        g = g[..., ::-1]
    g = g + [c["oy"], c["ox"]]
    r = rng(c["seed"])
    lose = int(c["part"] * m)
    end = int(r.integers(2))
    true = [ln[lose:] if (i + end) % 2 else ln[:m - lose]
            for i, ln in enumerate(g)]
    if m - 2 * lose < 3:
        return
    pts = np.concatenate(true)
    f = (POLY if c["poly"] else GROUP)[c["way"]]
    got = f(pts[r.permutation(len(pts))], float(s), d, num_dot_miss=c["miss"],
            ratio=0.3 if not c["poly"] else 0.2, accepted_ratio=0.5)
    check_lines(got, true, 1e-6, c["way"], 1 if c["way"] == "hor" else 0)
    across = 0 if c["way"] == "hor" else 1
    ev.nontrivial(any(a[:, across].mean() > b[:, across].mean()
                      for a, b in zip(true, true[1:])))


@P.sub(fixed(n=st.integers(2, 40), h=q(10, 300, 5), w=q(10, 300, 5),
             slope=q(-0.3, 0.3, 0.05), d=q(3, 60, 1), ratio=q(0.05, 0.6, 0.05),
             miss=st.integers(1, 8), acc=q(0.1, 1, 0.05), seed=seeds,
             way=st.sampled_from(["hor", "ver"])), quick=600,
       rule="several lines")
def arbitrary_points(c, ev):
    """Any points at all: whatever is returned is made of given points, each
    at most once, in lines that obey the given limits."""
    g = rng(c["seed"])
    pts = g.uniform(0, 1, (c["n"], 2)) * [c["h"], c["w"]]
    try:
        got = GROUP[c["way"]](pts, c["slope"], c["d"], ratio=c["ratio"],
                              num_dot_miss=c["miss"],
                              accepted_ratio=c["acc"])
    except ValueError:
        return                        # no two points belong together
    axis = 1 if c["way"] == "hor" else 0
    allp = {tuple(p) for p in pts}
    seen = set()
    means = []
    for ln in got:
        ln = arr(ln, None, "line")
        need(len(ln) >= 2, "line of %d points", len(ln))
        for p in ln:
            need(tuple(p) in allp, "returned a point that was not given")
            need(tuple(p) not in seen, "a point is in two lines")
            seen.add(tuple(p))
        need(np.all(np.diff(ln[:, axis]) >= 0), "points of a line are not in "
             "order")
        t, v = ln[:, axis], ln[:, 1 - axis]
        step = np.abs(np.diff(v) - c["slope"] * np.diff(t)) / np.hypot(
            1, c["slope"])
        need(np.all(step < c["ratio"] * c["d"] + 1e-6), "neighbouring points "
             "of a line are %.3f off the slope, %.3f allowed", step.max(),
             c["ratio"] * c["d"])
        need(np.all(np.diff(t) < c["miss"] * c["d"] + 1e-6), "gap in a line "
             "wider than %d dots", c["miss"])
        means.append((v - c["slope"] * t).mean())
    need(np.all(np.diff(means) >= -1e-6), "lines are not in order")
    if got:
        n = [len(ln) for ln in got]
        need(min(n) >= c["acc"] * max(n) - 1e-9, "line of %d points next to "
             "one of %d, accepted ratio %g", min(n), max(n), c["acc"])
    ev.nontrivial(len(got) > 1)


@P.sub(fixed(part=q(0, 0.6, 0.1), **dict(gp, nh=st.integers(12, 34),
                                         nv=st.integers(12, 34),
                                         tilt=q(-0.2, 0.2, 0.01),
                                         e=q(-0.01, 0.01, 0.002))),
       quick=40, shards=4, thorough=400, rule="more than 256 points")
def large_grids(c, ev):
    g = field(c)
    way = c["way"]
    axis = 1 if way == "hor" else 0
    lines = g if way == "hor" else g.transpose(1, 0, 2)
    keep = thin(lines, c["part"], c["seed"])
    true = [ln[k] for ln, k in zip(lines, keep)]
    pts = np.concatenate(true)
    pts = pts[rng(c["seed"] + 1).permutation(len(pts))]
    slope = float(np.tan(c["tilt"])) * (1 if way == "hor" else -1)
    d = c["d"] * min(1.0, c["asp"])
    got = GROUP[way](pts, slope, d, accepted_ratio=0.3)
    check_lines(got, true, 1e-9, way, axis)
    ev.nontrivial(len(pts) > 256)


@P.sub(fixed(n=st.integers(2, 60), h=q(10, 300, 5), w=q(10, 300, 5),
             slope=q(-0.3, 0.3, 0.05), d=q(3, 60, 1), ratio=q(0.05, 0.6, 0.05),
             miss=st.integers(2, 8), acc=q(0.1, 1, 0.05), seed=seeds,
             order=st.integers(1, 3), way=st.sampled_from(["hor", "ver"])),
       quick=400, shards=2, rule="several lines")
def polynomial_arbitrary_points(c, ev):
    """Any points at all, polynomial variants: lines are made of given points,
    each at most once per line, in order (polynomials through scattered points
    may cross)."""
    g = rng(c["seed"])
    pts = g.uniform(0, 1, (c["n"], 2)) * [c["h"], c["w"]]
    try:
        got = POLY[c["way"]](pts, c["slope"], c["d"], ratio=c["ratio"],
                             num_dot_miss=c["miss"], order=c["order"],
                             accepted_ratio=c["acc"])
    except ValueError:
        return
    axis = 1 if c["way"] == "hor" else 0
    for ln in got:
        seen = set()
        ln = arr(ln, None, "line")
        for p in ln:
            d = np.abs(pts - p).max(axis=1)
            i = int(np.argmin(d))
            need(d[i] <= 1e-6, "returned a point that was not given")
            need(i not in seen, "a point is listed twice")
            seen.add(i)
        need(np.all(np.diff(ln[:, axis]) >= 0), "points of a line are not in "
             "order")
    means = [(ln[:, 1 - axis] - c["slope"] * ln[:, axis]).mean() for ln in got]
    need(np.all(np.diff(means) >= -1e-6), "lines are not in order")
    if got:
        n = [len(ln) for ln in got]
        need(min(n) >= c["acc"] * max(n) - 1e-9, "line of %d points next to "
             "one of %d, accepted ratio %g", min(n), max(n), c["acc"])
    ev.nontrivial(len(got) > 1)
